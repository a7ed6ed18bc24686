"""C06: the N-Triples and N-Quads parsers read exactly what is written."""

from io import StringIO

from hypothesis import strategies as st

from pbt import gen, largedocs, ntgen, ntref
from pbt.core import HarnessError, Prop
from pbt.terms import Terms, assert_same, freeze

from pymantic.parsers import nquads_parser, ntriples_parser
from pymantic.primitives import Dataset, Graph

ID = "C06"
RULE = (
    "A case is a valid document generated statement by statement (any white space,"
    " comments, blank lines, line endings, escapes, labels and language tags the W3C"
    " grammar allows) together with the statements it is made of, and statements that"
    " are in the graph already; it is parsed from a string and from a stream."
    " Non-trivial: it has two or more statements, and an escape, a comment or a label."
    " large: documents with many of something (statements, labels, graphs, escapes, blank"
    " lines, comments) or something long (literals, IRIs, labels, tags, white space);"
    " non-trivial if the size is beyond 20."
)


def large_cases():
    return largedocs.specs(largedocs.LINE_KINDS)


def strategy(quads):
    def make():
        return st.tuples(
            ntgen.documents(quads),
            gen.datasets(3) if quads else gen.graphs(3),
        ).map(list)

    return make


def body(quads):
    parser = nquads_parser if quads else ntriples_parser

    def run(case, rec):
        document, present = case
        text, expected = document["text"], freeze(document["expected"])
        try:
            reference = ntref.read(text, quads)
        except ntref.Invalid as e:
            raise HarnessError(f"generated an invalid document {text!r}: {e}")
        if set(reference) != set(expected):
            raise HarnessError(f"the generator is at odds with the reader: {text!r}")
        rec.interesting(
            len(expected) > 1 and any(c in text for c in ("\\", "#", "_:"))
        )
        rec.label(
            *(n for n, c in (("CR", "\r"), ("escape", "\\"), ("tab", "\t")) if c in text)
        )
        for source in (text, StringIO(text)):
            result = parser.parse(source)
            assert isinstance(result, Dataset if quads else Graph)
            assert_same(expected, Terms().describe_all(result), "new")
        # What was there before stays, and its blank nodes are other ones.
        for source in (text, StringIO(text)):
            terms = Terms()
            sink = Dataset() if quads else Graph()
            for s in present:
                sink.add(terms.quad(s) if quads else terms.triple(s))
            assert parser.parse(source, sink) is sink
            both = set(freeze(present)) | {
                tuple(("B", "doc" + t[1]) if t and t[0] == "B" else t for t in s)
                for s in expected
            }
            assert_same(both, terms.describe_all(sink), "into a graph")
            for s in present:
                assert (terms.quad(s) if quads else terms.triple(s)) in sink

    return run


def large_body(quads):
    def run(spec, rec):
        """Many statements, or something long."""
        rec.label(spec["kind"])
        present = [["I", "urn:s"], ["I", "urn:p"], ["B", "n"]] + [None] * quads
        body(quads)([largedocs.lines(spec, quads), [present]], rec)
        rec.nontrivial = spec["size"] > 20

    return run


def values_body(quads):
    def run(literals, rec):
        """Everything that can be written of a datatype."""
        statements = [s + [None] * quads for s in gen.about(literals)]
        text = "".join(" ".join(largedocs.spell(t) for t in s if t) + " .\n" for s in statements)
        rec.label((literals[0][3] or literals[0][2] or "plain").split("#")[-1])
        body(quads)([{"text": text, "expected": statements}, []], rec)
        rec.nontrivial = len(literals) > 5

    return run


PROPS = [
    Prop("ntriples", strategy(False), body(False), quick=1300),
    Prop("nquads", strategy(True), body(True), quick=1300),
    Prop("large ntriples", large_cases, large_body(False), quick=160, thorough=1500),
    Prop("large nquads", large_cases, large_body(True), quick=160, thorough=1500),
    Prop("values N-Triples", gen.one_datatype, values_body(False), quick=120, thorough=1500),
    Prop("values N-Quads", gen.one_datatype, values_body(True), quick=120, thorough=1500),
]
