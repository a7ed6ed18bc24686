"""C04: writing a graph as N-Triples and reading it back loses nothing."""

from io import StringIO

from hypothesis import strategies as st

from pbt import gen, large, near, ntref
from pbt.core import Prop
from pbt.terms import Terms, assert_same, freeze

from pymantic.parsers import ntriples_parser
from pymantic.primitives import Graph
from pymantic.serializers import serialize_ntriples

ID = "C04"
RULE = (
    "A case is a set of triples over arbitrary IRIs (including illegal characters),"
    " blank nodes and literals (any characters but surrogates). It is written with"
    " serialize_ntriples and str(triple), read by an independent strict reader and by"
    " the package's own parser (string and stream), and compared up to the names of"
    " blank nodes, with IRIs percent-encoded to URIs. Non-trivial: some literal or"
    " IRI contains a character that has to be escaped or encoded, or two triples"
    " share a blank node."
)


def any_iris():
    """What N-Triples output has to cope with: any string as an IRI."""
    return st.one_of(
        gen.mixed_iris(),
        gen.mixed_iris(),
        gen.text(6).map(lambda t: "http://e.example/" + t),
        gen.text(6),
    )


def strategy():
    return near.with_near(gen.graphs(10, any_iris()))


def needs_care(text):
    return any(not " " <= c <= "~" or c in '"\\<>{}|^`' for c in text)


def interesting(statements):
    nodes = []
    for s in statements:
        for t in s:
            if t is None:
                continue
            if t[0] == "B":
                nodes.append(t[1])
            elif needs_care(t[1]) or (t[0] == "L" and t[3] and needs_care(t[3])):
                return True
    return len(nodes) > len(set(nodes))


def body(case, rec):
    terms = Terms()
    graph = Graph()
    for t in case:
        graph.add(terms.triple(t))
    statements = [ntref.expected(s) for s in freeze(case)]
    expected = set(statements)
    rec.interesting(interesting(case))
    for t in case:
        for term in t:
            rec.label(term[0] + ("@" if term[0] == "L" and term[2] else ""))

    out = StringIO()
    serialize_ntriples(graph, out)
    written = out.getvalue()
    if len(expected) == len(case):
        assert_same(expected, ntref.read(written), "what was written")
        assert_same(expected, [t for triple in graph for t in ntref.read(str(triple))], "str")
    back = ntriples_parser.parse(written)
    assert_same(expected, Terms().describe_all(back), "read back")
    back = ntriples_parser.parse(StringIO(written))
    assert_same(expected, Terms().describe_all(back), "read back from a stream")
    # Nothing is lost either the second time.
    out = StringIO()
    serialize_ntriples(back, out)
    again = ntriples_parser.parse_string(out.getvalue().encode("utf-8"))
    assert_same(expected, Terms().describe_all(again), "read back again")
    # One by one.
    for t, s in zip(case, statements):
        triple = terms.triple(t)
        line = str(triple)
        assert line == triple.toString()
        assert line.endswith("\n") and "\n" not in line[:-1] and "\r" not in line, repr(line)
        assert_same([s], ntref.read(line), "one triple")
        assert_same([s], Terms().describe_all(ntriples_parser.parse(line)), "one triple")


def large_cases():
    return st.one_of(large.specs(1500), large.long_ones())


def large_body(case, rec):
    """Many triples, or long ones."""
    statements = large.triples(case) if isinstance(case, dict) else large.long_triples(*case)
    body([list(map(list, t)) for t in statements], rec)


def values_body(literals, rec):
    """Everything that can be written of a datatype."""
    body(gen.about(literals), rec)
    rec.label((literals[0][3] or literals[0][2] or "plain").split("#")[-1])
    rec.interesting(len(literals) > 5)


PROPS = [
    Prop("roundtrip", strategy, body, quick=1600),
    Prop("large", large_cases, large_body, quick=80, thorough=1500),
    Prop("values", gen.one_datatype, values_body, quick=120, thorough=1500),
]
