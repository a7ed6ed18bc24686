"""C05: writing a dataset as N-Quads and reading it back loses nothing."""

from io import StringIO

from pbt import gen, large, near, ntref
from pbt.core import Prop
from pbt.terms import Terms, assert_same, freeze

from pymantic.parsers import nquads_parser
from pymantic.primitives import Dataset
from pymantic.serializers import serialize_nquads

from . import c04

ID = "C05"
RULE = (
    "A case is a set of quads in default, named and blank-node graphs over arbitrary"
    " terms. It is written with serialize_nquads and str(quad), read by an independent"
    " strict reader and by the package's own parser, and compared up to the names of"
    " blank nodes, with IRIs percent-encoded to URIs. Non-trivial: as for C04, or"
    " quads are in two or more graphs."
)


def strategy():
    return near.with_near(gen.datasets(10, c04.any_iris()))


def body(case, rec):
    terms = Terms()
    dataset = Dataset()
    for q in case:
        dataset.add(terms.quad(q))
    statements = [ntref.expected(s) for s in freeze(case)]
    expected = set(statements)
    rec.interesting(c04.interesting(case) or len({s[3] for s in statements}) > 1)
    for q in case:
        rec.label("graph " + (q[3][0] if q[3] else "default"))

    out = StringIO()
    serialize_nquads(dataset, out)
    written = out.getvalue()
    if len(expected) == len(case):
        assert_same(expected, ntref.read(written, True), "what was written")
    back = nquads_parser.parse(written)
    assert_same(expected, Terms().describe_all(back), "read back")
    back = nquads_parser.parse(StringIO(written))
    assert_same(expected, Terms().describe_all(back), "read back from a stream")
    out = StringIO()
    serialize_nquads(back, out)
    again = nquads_parser.parse_string(out.getvalue().encode("utf-8"))
    assert_same(expected, Terms().describe_all(again), "read back again")
    for q, s in zip(case, statements):
        line = str(terms.quad(q))
        assert line.endswith("\n") and "\n" not in line[:-1] and "\r" not in line, repr(line)
        assert_same([s], ntref.read(line, True), "one quad")
        assert_same([s], Terms().describe_all(nquads_parser.parse(line)), "one quad")


def large_body(case, rec):
    """Many quads, or long ones."""
    if isinstance(case, dict):
        statements = large.quads(case)
    else:
        statements = [
            (*t, g)
            for i, t in enumerate(large.long_triples(*case))
            for g in (None, ("I", large.NS + "g"), ("B", "1"), t[1])[i % 2 :: 2]
        ]
    body([[t and list(t) for t in q] for q in statements], rec)


def values_body(literals, rec):
    """Everything that can be written of a datatype."""
    body([s + [["I", "urn:g"] if i % 2 else None] for i, s in enumerate(gen.about(literals))], rec)
    rec.label((literals[0][3] or literals[0][2] or "plain").split("#")[-1])
    rec.interesting(len(literals) > 5)


PROPS = [
    Prop("roundtrip", strategy, body, quick=1600),
    Prop("large", c04.large_cases, large_body, quick=80, thorough=1500),
    Prop("values", gen.one_datatype, values_body, quick=120, thorough=1500),
]
