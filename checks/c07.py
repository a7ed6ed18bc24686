"""C07: it makes no difference how a document is handed to a parser."""

from io import BytesIO, StringIO, TextIOWrapper

from hypothesis import strategies as st

from pbt import gen, largedocs, ntgen, ttlgen
from pbt.core import Prop
from pbt.terms import Terms, assert_same, freeze

from pymantic.parsers import nquads_parser, ntriples_parser, turtle_parser
from pymantic.primitives import Dataset, Graph

from . import c10

ID = "C07"
RULE = (
    "A case is a valid N-Triples, N-Quads or Turtle document with its statements,"
    " read as str, as UTF-8 bytes, from StringIO, from text files (with and without"
    " newline translation), from a minimal line-by-line stream and (Turtle) from"
    " bytes streams; each has to yield the document's statements. mutated: documents with"
    " random edits, valid or not, which all ways have to agree about. Non-trivial: the"
    " document has two or more statements and a character beyond ASCII or a line"
    " ending other than a line feed. large: documents with many of something, or something"
    " long, beyond what buffers hold; non-trivial if the size is beyond 20."
)


class Lines:
    """The least there is to a text stream that is read line by line."""

    def __init__(self, text):
        self.lines = StringIO(text, newline="").readlines()
        self.lines.reverse()

    def readline(self):
        return self.lines.pop() if self.lines else ""

    def read(self):
        text = "".join(reversed(self.lines))
        self.lines = []
        return text

    def __iter__(self):
        return self

    def __next__(self):
        if not self.lines:
            raise StopIteration
        return self.lines.pop()


HEADS = ("head\n", "content-type: text/plain\n\n", "<urn:head> <urn:p> <urn:o> .\n", "a" * 9000 + "\n", "\x1a\ufeff\n")


def rest_of(stream, head):
    """A stream of which something has been read from already."""
    for line in head.splitlines():
        assert stream.readline() in (line + "\n", (line + "\n").encode("utf-8"))
    return stream


def text_file(text, newline):
    return TextIOWrapper(BytesIO(text.encode("utf-8")), encoding="utf-8", newline=newline)


def note(document, rec):
    text = document["text"]
    rec.interesting(
        len(document["expected"]) > 1 and (not text.isascii() or "\r" in text)
    )
    rec.label("ascii" if text.isascii() else "unicode", *(["CR"] if "\r" in text else []))


def line_based(quads):
    parser = nquads_parser if quads else ntriples_parser

    def run(case, rec):
        note(case, rec)
        text, expected = case["text"], freeze(case["expected"])
        head = HEADS[len(text) % len(HEADS)]
        data = text.encode("utf-8")
        ways = {
            "parse(str)": lambda *g: parser.parse(text, *g),
            "parse_string(str)": lambda *g: parser.parse_string(text, *g),
            "parse_string(bytes)": lambda *g: parser.parse_string(data, *g),
            "parse(StringIO)": lambda *g: parser.parse(StringIO(text), *g),
            "parse(StringIO, newlines)": lambda *g: parser.parse(StringIO(text, newline=None), *g),
            "parse(file)": lambda *g: parser.parse(text_file(text, None), *g),
            "parse(file, newline='')": lambda *g: parser.parse(text_file(text, ""), *g),
            "parse(lines)": lambda *g: parser.parse(Lines(text), *g),
            "parse(rest)": lambda *g: parser.parse(rest_of(StringIO(head + text), head), *g),
            "parse(rest of file)": lambda *g: parser.parse(rest_of(text_file(head + text, None), head), *g),
        }
        for name, way in ways.items():
            assert_same(expected, Terms().describe_all(way()), name)
            sink = Dataset() if quads else Graph()
            assert way(sink) is sink
            assert_same(expected, Terms().describe_all(sink), name)

    return run


def turtle_body(case, rec):
    note(case, rec)
    text, expected = case["text"], freeze(case["expected"])
    head = HEADS[len(text) % len(HEADS)]
    data = text.encode("utf-8")
    sources = {
        "rest": lambda: rest_of(StringIO(head + text), head),
        "rest of bytes": lambda: rest_of(BytesIO(head.encode("utf-8") + data), head),
        "rest of file": lambda: rest_of(text_file(head + text, ""), head),
        "str": lambda: text,
        "bytes": lambda: data,
        "StringIO": lambda: StringIO(text),
        "BytesIO": lambda: BytesIO(data),
        "file": lambda: text_file(text, ""),
        "lines": lambda: Lines(text),
    }
    for name, source in sources.items():
        if name != "bytes":
            result = turtle_parser.parse(source(), base=case["base"])
            assert_same(expected, Terms().describe_all(result), name)
        if name in ("str", "bytes"):
            result = turtle_parser.parse_string(source(), base=case["base"])
            assert_same(expected, Terms().describe_all(result), name)
            sink = Graph()
            assert turtle_parser.parse_string(source(), sink, case["base"]) is sink
            assert_same(expected, Terms().describe_all(sink), name)


def large_cases():
    """Documents of many lines, for the sake of buffers."""
    return st.tuples(
        ntgen.documents(True), st.integers(1, 60), gen.pick("\n", "\r\n", "\r")
    ).map(list)


def large_body(case, rec):
    """What is read from a long stream is what is read from its parts."""
    document, count, eol = case
    filler = ["<http://s/%d> <http://p> \"%s\" ." % (i, "x" * (i * 7)) for i in range(count * 10)]
    text = eol.join(filler) + eol + document["text"]
    expected = set(freeze(document["expected"])) | {
        (("I", "http://s/%d" % i), ("I", "http://p"), ("L", "x" * (i * 7), None, None), None)
        for i in range(count * 10)
    }
    rec.interesting(count > 1)
    for source in (text, StringIO(text), text_file(text, None)):
        assert_same(expected, Terms().describe_all(nquads_parser.parse(source)), "large")


def mutated_body(case, rec):
    """Documents that may be valid or not, but have to be the same in all ways."""
    kind, text = case["kind"], case["text"]
    data = text.encode("utf-8")
    if kind == "ttl":
        base = case["base"]
        ways = {
            "parse(str)": lambda: turtle_parser.parse(text, base=base),
            "parse_string(str)": lambda: turtle_parser.parse_string(text, base=base),
            "parse_string(bytes)": lambda: turtle_parser.parse_string(data, base=base),
            "parse(StringIO)": lambda: turtle_parser.parse(StringIO(text, newline=""), base=base),
            "parse(BytesIO)": lambda: turtle_parser.parse(BytesIO(data), base=base),
            "parse(file)": lambda: turtle_parser.parse(text_file(text, ""), base=base),
        }
    else:
        parser = nquads_parser if kind == "nq" else ntriples_parser
        ways = {
            "parse(str)": lambda: parser.parse(text),
            "parse_string(str)": lambda: parser.parse_string(text),
            "parse_string(bytes)": lambda: parser.parse_string(data),
            "parse(StringIO)": lambda: parser.parse(StringIO(text, newline="")),
            "parse(file)": lambda: parser.parse(text_file(text, "")),
            "parse(lines)": lambda: parser.parse(Lines(text)),
        }
    outcomes = {}
    for name, way in ways.items():
        try:
            outcomes[name] = Terms().describe_all(way())
        except Exception:
            outcomes[name] = None
    first = outcomes["parse(str)"]
    rec.interesting(case["edited"])
    rec.label("rejected" if first is None else "accepted")
    for name, outcome in outcomes.items():
        assert (outcome is None) == (first is None), (
            f"{text!r}: {name} {'rejects' if outcome is None else 'accepts'} it, parse(str) doesn't"
        )
        if first is not None:
            assert_same(first, outcome, name)


def mutated(kind):
    # What files may begin with, and need not be the same for text and bytes.
    starts = gen.pick("", "", "", "\ufeff", "\ufffe", "\x00", "#", "\r\n", "\x1a", "\x0c")
    return st.tuples(starts, c10.mutated(kind), starts).map(
        lambda t: {
            **t[1],
            "text": t[0] + t[1]["text"] + t[2],
            "edited": bool(t[0] or t[1]["edited"] or t[2]),
        }
    )


def large_lines(quads):
    def run(spec, rec):
        rec.label(spec["kind"])
        line_based(quads)(largedocs.lines(spec, quads), rec)
        rec.nontrivial = spec["size"] > 20

    return run


def large_turtle(spec, rec):
    rec.label(spec["kind"])
    turtle_body(largedocs.turtle(spec), rec)
    rec.nontrivial = spec["size"] > 20


PROPS = [
    Prop("ntriples", lambda: ntgen.documents(False), line_based(False), quick=700),
    Prop("nquads", lambda: ntgen.documents(True), line_based(True), quick=700),
    Prop("turtle", lambda: ttlgen.documents(relative=1), turtle_body, quick=700),
    Prop("mutated N-Triples", lambda: mutated("nt"), mutated_body, quick=600),
    Prop("mutated N-Quads", lambda: mutated("nq"), mutated_body, quick=600),
    Prop("mutated Turtle", lambda: mutated("ttl"), mutated_body, quick=800),
    Prop("large", large_cases, large_body, quick=48, thorough=400),
    Prop("large N-Triples", lambda: largedocs.specs(largedocs.LINE_KINDS), large_lines(False), quick=40, thorough=800),
    Prop("large N-Quads", lambda: largedocs.specs(largedocs.LINE_KINDS), large_lines(True), quick=40, thorough=800),
    Prop("large Turtle", lambda: largedocs.specs(largedocs.TURTLE_KINDS), large_turtle, quick=80, thorough=1600),
]
