"""C08: the Turtle parser reads exactly what is written."""

from hypothesis import strategies as st

from pbt import gen, largedocs, ttlgen
from pbt.core import Prop
from pbt.terms import XSD, Terms, assert_same, freeze

from pymantic.parsers import turtle_parser
from pymantic.primitives import Graph

ID = "C08"
RULE = (
    "A case is a valid document generated from the W3C grammar, all productions,"
    " with the triples it is made of, and triples that are in the graph already."
    " Non-trivial: it uses at least two of collections, property lists, prefixed"
    " names, object/predicate lists, long strings, numbers and booleans. large: documents"
    " with many of something, something long, or nested deeply; non-trivial if the size is"
    " beyond 20."
)

NOTABLE = {
    "collection", "property list", "prefixed name", ",", ";", "long string",
    "integer", "decimal", "double", "boolean", "collection subject", "ANON",
}  # fmt: skip


def strategy():
    return st.tuples(ttlgen.documents(relative=0), gen.graphs(3)).map(list)


def parse(document, graph=None):
    if document["base"]:
        return turtle_parser.parse(document["text"], graph, base=document["base"])
    return turtle_parser.parse(document["text"], graph)


def body(case, rec):
    document, present = case
    expected = freeze(document["expected"])
    rec.interesting(len(NOTABLE & set(document["features"])) > 1)
    rec.label(*document["features"])
    result = parse(document)
    assert isinstance(result, Graph)
    assert_same(expected, Terms().describe_all(result), "new")
    terms = Terms()
    sink = Graph()
    for t in present:
        sink.add(terms.triple(t))
    assert parse(document, sink) is sink
    both = set(freeze(present)) | {
        tuple(("B", "doc" + t[1]) if t[0] == "B" else t for t in s) for s in expected
    }
    assert_same(both, terms.describe_all(sink), "into a graph")
    for t in present:
        assert terms.triple(t) in sink


def large_body(spec, rec):
    """Many of something, something long, or deep."""
    present = [["I", "urn:s"], ["I", "urn:p"], ["B", "n0"]]
    body([largedocs.turtle(spec), [present]], rec)
    rec.nontrivial = spec["size"] > 20


def values_body(literals, rec):
    """Everything that can be written of a datatype."""
    statements = gen.about(literals)
    text = "".join(" ".join(map(largedocs.spell, s)) + " .\n" for s in statements)
    # Turtle's plain literals are of type xsd:string.
    expected = gen.about([[*l[:3], l[3] or (None if l[2] else XSD + "string")] for l in literals])
    rec.label((literals[0][3] or literals[0][2] or "plain").split("#")[-1])
    body([{"text": text, "base": None, "expected": expected, "features": []}, []], rec)
    rec.nontrivial = len(literals) > 5


PROPS = [
    Prop("documents", strategy, body, quick=3600),
    Prop("large", lambda: largedocs.specs(largedocs.TURTLE_KINDS), large_body, quick=240, thorough=4000),
    Prop("values", gen.one_datatype, values_body, quick=120, thorough=1500),
]
