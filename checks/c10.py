"""C10: what isn't valid is rejected, and leaves no trace."""

from io import StringIO
import re

from hypothesis import strategies as st

from pbt import gen, largedocs, ntgen, ntref, ttlgen, ttlref
from pbt.core import Prop
from pbt.terms import Terms, assert_same, freeze

from pymantic.parsers import nquads_parser, ntriples_parser, turtle_parser
from pymantic.primitives import Dataset, Graph, NamedNode, Quad, Triple

ID = "C10"
RULE = (
    "mutated: a generated N-Triples, N-Quads or Turtle document with up to three random"
    " edits (fragments inserted, deleted, replaced, repeated); a strict reader written"
    " from the W3C grammars says whether it is valid and what it means, and the parser"
    " has to agree on both. broken: a valid document with one construct that no grammar"
    " allows put in between its statements; parsing has to raise, a graph passed in has"
    " to stay as it was, and the parser has to read the next document properly."
    " tokens: documents in which one place has a few characters that tokens of some kind are"
    " made of (numbers, names, labels, strings, IRIs, directives, structure), in any order;"
    " judged in the same way."
    " illegal IRIs: an IRI in Turtle with an escape of a character that no IRI can have,"
    " anywhere in it, wherever a document can have an IRI."
    " odd space: characters that Python (or the eye) takes for white space, where white space"
    " may be. not UTF-8: documents as bytes that aren't UTF-8."
    " large: a large document with a broken construct at its end."
    " Non-trivial: the document is invalid and has a valid statement as well, or is"
    " valid in spite of having been edited."
)
ASSUMPTIONS = [
    "Where the parsers are known to be lenient it isn't decided: '@prefix' directly"
    " followed by its name, the predeclared prefixes rdf and xsd, escapes of surrogates,"
    " escapes of characters that are illegal in IRIs (N-Triples and N-Quads).",
]

FRAGMENTS = [
    ".", ";", ",", "[", "]", "(", ")", "<", ">", '"', "'", '"""', "'''", "@en", "@", "^^",
    "^", "a", "true", "1", "1.", "-", "e5", "_:a", "_:", "_", "ex:", "ex:a", ":", "::",
    "\\", "\\u0041", "\\u00", "\\U0000004", "\\x", "\\'", "#", " ", "\n", "\r", "\t", "@prefix",
    "@base", "PREFIX", "BASE", "base", "prefix", "%", "%4", "%zz", "é", "\u00b7", "\u0300",
    "{", "}", "|", "`", "[]", "()", '"x"', "<http://a>", "<a b>", "\x00", "\x1f", "\u2028",
    "..", "@en-", "@-", "@1", "a b", "<>", "'x'", "+", "+.", "1e", "trueish", "A",
]  # fmt: skip


@st.composite
def mutated(draw, kind):
    if kind == "ttl":
        document = draw(ttlgen.documents(relative=1, depth=1, max_statements=2))
    else:
        document = draw(ntgen.documents(kind == "nq", max_size=2))
    text = document["text"]
    for _ in range(draw(gen.pick(0, 1, 1, 1, 2, 3))):
        position = draw(gen.ints(len(text)))
        length = draw(gen.pick(1, 1, 2, 3, 8))
        fragment = draw(gen.pick(*FRAGMENTS))
        how = draw(gen.ints(3))
        tail = text[position:]
        if how == 0:
            text = text[:position] + fragment + tail
        elif how == 1:
            text = text[:position] + tail[length:]
        elif how == 2:
            text = text[:position] + fragment + tail[length:]
        else:
            text = text[:position] + tail[:length] * 2 + tail[length:]
    return {
        "kind": kind,
        "text": text,
        "base": document.get("base", ""),
        "edited": text != document["text"],
    }


SURROGATE = re.compile(r"\\u[dD][89a-fA-F]|\\U0000[dD][89a-fA-F]")
GLUED = re.compile(r"@prefix(?![ \t\r\n#])|@base(?![ \t\r\n#<])", re.IGNORECASE)


def undecided(kind, text):
    """Is it one of the things that parsers are known to be lenient about?"""
    if SURROGATE.search(text):
        return True
    return kind == "ttl" and bool(GLUED.search(text))


def reference(kind, text, base):
    """The statements, None if invalid, or "undecided"."""
    try:
        if kind == "ttl":
            return ttlref.read(text, base)
        return set(ntref.read(text, kind == "nq"))
    except (ttlref.Invalid, ntref.Invalid):
        pass
    if undecided(kind, text):
        return "undecided"
    if kind == "ttl":
        try:
            ttlref.read(text, base, {"rdf": "x:", "xsd": "x:"})
            return "undecided"
        except ttlref.Invalid:
            pass
    return None


def parse(kind, text, base, *graph):
    if kind == "ttl":
        return turtle_parser.parse(text, *graph, base=base)
    return (nquads_parser if kind == "nq" else ntriples_parser).parse(text, *graph)


STATEMENT = (NamedNode("urn:s"), NamedNode("urn:p"), NamedNode("urn:o"))
DATA = (("I", "urn:s"), ("I", "urn:p"), ("I", "urn:o"))


def sink(kind):
    """A graph with a statement in it, and that statement."""
    if kind == "nq":
        graph = Dataset()
        graph.add(Quad(*STATEMENT, NamedNode("urn:g")))
        return graph, DATA + (("I", "urn:g"),)
    graph = Graph()
    graph.add(Triple(*STATEMENT))
    return graph, DATA


def mutated_body(case, rec):
    kind, text, base = case["kind"], case["text"], case["base"]
    expected = reference(kind, text, base)
    if expected == "undecided":
        rec.label("undecided")
        return
    graph, before = sink(kind)
    try:
        result = parse(kind, text, base)
        parse(kind, text, base, graph)
    except Exception as e:
        assert expected is None, f"rejects {text!r} though valid: {e!r}"
        check_untouched(graph, before)
        rec.interesting("." in text)
        rec.label("invalid")
    else:
        assert expected is not None, f"accepts {text!r}, {list(result)!r}"
        rec.interesting(case["edited"])
        rec.label("edited, but valid" if case["edited"] else "not edited")
        assert_same(expected, Terms().describe_all(result), repr(text))
        assert_same(expected | {before}, Terms().describe_all(graph), repr(text))
    if kind != "ttl":
        # Line by line.
        try:
            result = parse(kind, StringIO(text, newline=""), "")
        except Exception as e:
            assert expected is None, f"rejects the stream {text!r} though valid: {e!r}"
        else:
            assert expected is not None, f"accepts the stream {text!r}, {list(result)!r}"
            assert_same(expected, Terms().describe_all(result), f"stream {text!r}")


# What tokens (and structures) of a kind are made of, so that many are just about right, or
# just about wrong.
FAMILIES = {
    "number": ("0", "1", "9", "+", "-", ".", "e", "E", "1.", ".1", "e5", ".e0", "1.0"),
    "word": ("t", "r", "u", "e", "true", "false", "f", "a", "T", "F", "_", "-", ".", "0"),
    "language": ('"x"', '"x"@', "@", "a", "Z", "en", "0", "-", "--", "_", "é", "."),
    "datatype": ('"1"', "'1'", "^^", "^", "<urn:t>", "ex:t", "_:t", "@en", " ", "a", "true", "[]"),
    "label": ("_:", "_", ":", "a", "Z", "0", ".", "-", "\u00b7", "\u0300", "\u203f", "é", "%", "\u00d7"),
    "name": ("ex:", ":", "ex", "a", "0", ".", "-", "_", "%", "%41", "%zz", "4", "\\~", "\\-", "\\", "\u00b7", "\u203f", "é", "/", "~"),
    "prefix": ("ex", "ex:", ":", "e.x:", ".", "-", "x", "0", "_", "é:", "\u00b7", "a", "A:", "xsd:", "_:"),
    "string": ('"', "'", '"""', "'''", '""', "''", "a", "\\", "n", "\\n", "\\'", '\\"', "\n", "\r", "\\u0041", "\\U00000041", "u", "\\x"),
    "iri": ("<", ">", "<urn:", "urn:", ":", "a", "/", "#", "%", "%4", "\\u0041", "\\", "\\u00e", " ", "é", "[", "]"),
    "structure": ("[", "]", "(", ")", ";", ",", ".", "a", "1", "<urn:a>", " ", "[]", "()", "_:a", '"x"', "\n"),
    "directive": ("@", "prefix", "base", "PREFIX", "BASE", "Base", " ", " ex: ", "ex:", ":", " <urn:x> ", " <urn:x/> ", ".", "\n", "#x\n"),
    "comment": ("#", "\n", "\r", "\t", " ", "x", ".", "<urn:a>", "<urn:a> <urn:b> <urn:c> .", "\n<urn:a> <urn:b> <urn:d> .\n"),
}  # fmt: skip
TURTLE_FRAMES = {
    "number": ("<urn:s> <urn:p> {} .", "<urn:s> <urn:p> ({} {}) .", "<urn:s> <urn:p> {}.", "<urn:s> <urn:p> {},{};.", "{} <urn:p> 1 ."),
    "word": ("<urn:s> <urn:p> {} .", "<urn:s> <urn:p> {}.", "<urn:s> {} true .", "{} <urn:p> 1 ."),
    "directive": ("{}\n<urn:s> <urn:p> <a>, ex:a .", "<urn:s> <urn:p> 1 .{} <urn:s> <urn:p> 2 .", "@prefix ex: <urn:ex:> . {}"),
    "structure": ("<urn:s> <urn:p> {} .", "<urn:s> <urn:p> 1 {} .", "{} .", "[ <urn:p> {} ] ."),
    "comment": ("{}", "<urn:s> {} <urn:p> 1 . {}"),
    "prefix": ("@prefix {} <urn:ex:> . <urn:s> <urn:p> {}a .", "PREFIX {} <urn:ex:> <urn:s> {}a 1 .", "@prefix {}: <urn:ex:> . {}:a <urn:p> 1 ."),
    "name": ("<urn:s> <urn:p> {} .", "<urn:s> <urn:p> ex:{} .", "<urn:s> <urn:p> ex:{}.", "ex:{} <urn:p> 1 .", "<urn:s> ex:{} 1 .", "<urn:s> <urn:p> 1^^ex:{} ."),
}  # fmt: skip
FRAMES = {
    "comment": ("{}", "<urn:s> <urn:p> <urn:o> . {}", "<urn:s> <urn:p> {} <urn:o> ."),
    "label": ("<urn:s> <urn:p> {} .", "{} <urn:p> <urn:o> .", "<urn:s> <urn:p> {}.", "_:{} <urn:p> _:{} .", "<urn:s> <urn:p> _:{}."),
    "iri": ("<urn:s> <urn:p> {} .", "{} <urn:p> <urn:o> .", "<urn:s> <urn:{}> <urn:o> .", '<urn:s> <urn:p> "x"^^<urn:{}> .'),
    "string": ("<urn:s> <urn:p> {} .", '<urn:s> <urn:p> "{}" .'),
    "language": ("<urn:s> <urn:p> {} .", '<urn:s> <urn:p> "x"@{} .', '<urn:s> <urn:p> "x"@{}.'),
    "datatype": ("<urn:s> <urn:p> {} .", '<urn:s> <urn:p> "x"{} .'),
}  # fmt: skip
GRAPH_FRAMES = ("<urn:s> <urn:p> <urn:o> {} .", "<urn:s> <urn:p> <urn:o> {}.", "<urn:s> <urn:p> <urn:o>{} .")


@st.composite
def tokens(draw):
    kind = draw(gen.pick("ttl", "ttl", "ttl", "nt", "nq"))
    families = sorted(FAMILIES) if kind == "ttl" else sorted(FRAMES)
    family = draw(gen.pick(*families))
    frames = TURTLE_FRAMES.get(family, FRAMES.get(family)) if kind == "ttl" else FRAMES[family]
    if kind == "nq":
        frames += GRAPH_FRAMES
    frame = draw(gen.pick(*frames))
    atoms = gen.pick(*FAMILIES[family])
    found = [
        "".join(draw(st.lists(atoms, min_size=1, max_size=draw(gen.pick(2, 3, 4, 6)))))
        for _ in range(draw(gen.ints(7)) + 1)
    ]
    return [kind, family, frame, gen.unique(found)]


def tokens_body(case, rec):
    """Each on its own in the same place."""
    kind, family, frame, found = case
    rec.label(f"{kind} {family}")
    for token in found:
        text = frame.replace("{}", token)
        if kind == "ttl" and family != "directive":
            text = ("@prefix : <urn:e:> . " if family == "name" else "") + "@prefix ex: <urn:ex:> .\n" + text
        mutated_body({"kind": kind, "text": text, "base": "", "edited": True}, rec)


def check_untouched(graph, before):
    found = Terms().describe_all(graph)
    assert found == [before], f"the failed parse changed the graph: {found}"


IRI = "<http://a>"
NT_BROKEN = [
    f"{IRI} {IRI} {IRI}",  # no .
    f"{IRI} {IRI} .",
    f"{IRI} .",
    ".",
    f"{IRI} {IRI} {IRI} . {IRI} {IRI} {IRI} .",
    f'"s" {IRI} "o" .',
    f'{IRI} "p" "o" .',
    f'{IRI} _:p "o" .',
    f'_:a _:b _:c .',
    f'{IRI} {IRI} "o .',
    f'{IRI} {IRI} o" .',
    f"{IRI} {IRI} 'o' .",
    f'{IRI} {IRI} """o""" .',
    f'{IRI} {IRI} "o\\x" .',
    f'{IRI} {IRI} "o\\u00e" .',
    f'{IRI} {IRI} "o\\u00eg" .',
    f'{IRI} {IRI} "o\\U0000004" .',
    f'{IRI} {IRI} "o\\U00110000" .',
    f'{IRI} {IRI} "o\\" .',
    f'{IRI} {IRI} "o"@ .',
    f'{IRI} {IRI} "o"@1 .',
    f'{IRI} {IRI} "o"@en- .',
    f'{IRI} {IRI} "o"@en_us .',
    f'{IRI} {IRI} "o"^^ .',
    f'{IRI} {IRI} "o"^{IRI} .',
    f'{IRI} {IRI} "o"^^"t" .',
    f'{IRI} {IRI} "o"^^_:t .',
    f'{IRI} {IRI} "o"@en^^{IRI} .',
    f'{IRI} {IRI} "o"^^{IRI}@en .',
    f"<http://a b> {IRI} {IRI} .",
    f"<http://a{{b> {IRI} {IRI} .",
    f"<http://a|b> {IRI} {IRI} .",
    f"<http://a^b> {IRI} {IRI} .",
    f"<http://a`b> {IRI} {IRI} .",
    f'<http://a"b> {IRI} {IRI} .',
    f"<http://a<b> {IRI} {IRI} .",
    f"<http://a\\b> {IRI} {IRI} .",
    f"<http://a\\nb> {IRI} {IRI} .",
    f"<http://a {IRI} {IRI} .",
    f"http://a {IRI} {IRI} .",
    f"{IRI}> {IRI} {IRI} .",
    f"_: {IRI} {IRI} .",
    f"_:-a {IRI} {IRI} .",
    f"_:.a {IRI} {IRI} .",
    f"_:a/b {IRI} {IRI} .",
    f"_ {IRI} {IRI} .",
    f"_:\u00b7 {IRI} {IRI} .",
    f"{IRI} {IRI} 1 .",
    f"{IRI} {IRI} true .",
    f"{IRI} a {IRI} .",
    f"{IRI} ex:p {IRI} .",
    f"{IRI} {IRI} {IRI} , {IRI} .",
    f"{IRI} {IRI} {IRI} ; {IRI} {IRI} .",
    f"{IRI} {IRI} [] .",
    f"{IRI} {IRI} () .",
    f"@prefix ex: {IRI} .",
    f"// comment",
    f"{IRI}\u00a0{IRI} {IRI} .",
    f"{IRI} {IRI} {IRI} ..",
    f"x",
    f"\x00",
]
NQ_BROKEN = NT_BROKEN + [
    f'{IRI} {IRI} {IRI} "g" .',
    f"{IRI} {IRI} {IRI} {IRI} {IRI} .",
    f"{IRI} {IRI} {IRI} {IRI}",
    f'{IRI} {IRI} "o"@en "g"@en .',
]
NT_BROKEN = NT_BROKEN + [f"{IRI} {IRI} {IRI} {IRI} ."]
# Of what follows nothing can be valid, whatever statements follow it.
TTL_BROKEN = [
    f"{IRI} {IRI} .",
    f"{IRI} .",
    ".",
    f'"s" {IRI} "o" .',
    f"1 {IRI} 1 .",
    f"true {IRI} 1 .",
    f'{IRI} "p" "o" .',
    f"{IRI} _:p 1 .",
    f"{IRI} [] 1 .",
    f"{IRI} () 1 .",
    f"a {IRI} 1 .",
    f"{IRI} {IRI} a .",
    f"{IRI} A {IRI} .",
    f"{IRI} {IRI} TRUE .",
    f"{IRI} {IRI} True .",
    f"{IRI} {IRI} {IRI} {IRI} .",
    f"{IRI} {IRI} , {IRI} .",
    f"{IRI} {IRI} {IRI} , .",
    f"{IRI} {IRI} {IRI} ,, {IRI} .",
    f"{IRI} ; {IRI} {IRI} .",
    f"{IRI} {IRI} {IRI} ; , {IRI} .",
    f"{IRI} {IRI} {IRI} ; {IRI} .",
    f"{IRI} {IRI} ( 1 .",
    f"{IRI} {IRI} 1 ) .",
    f"{IRI} {IRI} ( 1 , 2 ) .",
    f"{IRI} {IRI} [ {IRI} ] .",
    f"{IRI} {IRI} [ {IRI} 1 .",
    f"{IRI} {IRI} 1 ] .",
    f"{IRI} {IRI} [ {IRI} 1 . ] .",
    f"{IRI} {IRI} [ ; ] .",
    f"[ {IRI} 1 ] {IRI} .",
    f"[] .",
    f"() .",
    f"( 1 2 ) .",
    f"_:a .",
    f"undefined:a {IRI} {IRI} .",
    f"{IRI} undefined:a {IRI} .",
    f"{IRI} {IRI} undefined:a .",
    f"{IRI} {IRI} undefined: .",
    f'{IRI} {IRI} "o"^^undefined:a .',
    f"{IRI} {IRI} ( undefined:a ) .",
    f"{IRI} {IRI} [ undefined:a 1 ] .",
    f"@prefix q {IRI} .",
    f"@prefix q: .",
    f"@prefix q: q:a .",
    f'@prefix q: "a" .',
    f"@prefix q:a {IRI} .",
    f"@prefix q: {IRI} {IRI} {IRI} 1 .",
    f"PREFIX q: {IRI} .",
    f"BASE {IRI} .",
    f"@base q:a .",
    f"@base {IRI} {IRI} {IRI} 1 .",
    f"@base .",
    f"@PREFIX q: {IRI} .",
    f"@BASE {IRI} .",
    f"@bas {IRI} .",
    f"@prefix _: {IRI} .",
    f"@prefix -a: {IRI} .",
    f"@prefix 1: {IRI} .",
    f"@prefix a.: {IRI} .",
    f'{IRI} {IRI} "a\nb" .',
    f"{IRI} {IRI} 'a\rb' .",
    f'{IRI} {IRI} "a" "b" .',
    f'{IRI} {IRI} "a"b .',
    f'{IRI} {IRI} "o\\x" .',
    f'{IRI} {IRI} "o\\u00e" .',
    f'{IRI} {IRI} "o\\U0000004" .',
    f'{IRI} {IRI} "o\\U00110000" .',
    f'{IRI} {IRI} """o\\x""" .',
    f'{IRI} {IRI} "o"@ .',
    f'{IRI} {IRI} "o"@1 .',
    f'{IRI} {IRI} "o"@en- .',
    f'{IRI} {IRI} "o"^^ .',
    f'{IRI} {IRI} "o"^{IRI} .',
    f'{IRI} {IRI} "o"^^"t" .',
    f'{IRI} {IRI} "o"^^_:t .',
    f'{IRI} {IRI} "o"^^[] .',
    f'{IRI} {IRI} "o"@en^^{IRI} .',
    f'{IRI} {IRI} 1@en .',
    f'{IRI} {IRI} 1^^{IRI} .',
    f'{IRI} {IRI} {IRI}@en .',
    f"<http://a b> {IRI} {IRI} .",
    f"<http://a{{b> {IRI} {IRI} .",
    f"<http://a|b> {IRI} {IRI} .",
    f"<http://a^b> {IRI} {IRI} .",
    f"<http://a`b> {IRI} {IRI} .",
    f'<http://a"b> {IRI} {IRI} .',
    f"<http://a\\b> {IRI} {IRI} .",
    f"<http://a\\nb> {IRI} {IRI} .",
    f"<http://a\\u0020b> {IRI} {IRI} .",
    f"<http://a\\u003Eb> {IRI} {IRI} .",
    f"<http://a\\U00000000b> {IRI} {IRI} .",
    f"@prefix q: <http://a\\u0020b> .",
    f"@base <http://a\\u0020b> .",
    f'{IRI} {IRI} "o"^^<http://a\\u0020b> .',
    f"<http://a {IRI} {IRI} .",
    f"http://a {IRI} {IRI} .",
    f"_: {IRI} {IRI} .",
    f"_:-a {IRI} {IRI} .",
    f"_:.a {IRI} {IRI} .",
    f"_:a/b {IRI} {IRI} .",
    f"@prefix q: {IRI} . q:a%2 {IRI} {IRI} .",
    f"@prefix q: {IRI} . q:a%zz {IRI} {IRI} .",
    f"@prefix q: {IRI} . q:a\\b {IRI} {IRI} .",
    f"@prefix q: {IRI} . q:a\\u0041 {IRI} {IRI} .",
    f"@prefix q: {IRI} . q:a/b {IRI} {IRI} .",
    f"@prefix q: {IRI} . q:a+b {IRI} {IRI} .",
    f"@prefix q: {IRI} . q:~ {IRI} {IRI} .",
    f"@prefix q: {IRI} . q:-a {IRI} {IRI} .",
    f"@prefix q: {IRI} . q:\u00b7 {IRI} {IRI} .",
    f"{IRI} {IRI} 1e .",
    f"{IRI} {IRI} +a .",
    f"{IRI} {IRI} - 1 .",
    f"{IRI} {IRI} 0x1F .",
    f"{IRI} {IRI} 1..2 .",
    f"{IRI} {IRI} {{ {IRI} }} .",
    f"{IRI} = {IRI} .",
    f"{IRI} => {IRI} .",
    f"{IRI} is {IRI} of {IRI} .",
    f"?x {IRI} {IRI} .",
    f"{IRI}\u00a0{IRI} {IRI} .",
    f"{IRI} {IRI} {IRI} ..",
    f"{IRI}\x0c{IRI} {IRI} .",
    "\x00",
]
BROKEN = {"nt": NT_BROKEN, "nq": NQ_BROKEN, "ttl": TTL_BROKEN}


def broken(kind):
    documents = (
        ttlgen.documents(relative=0, depth=1, max_statements=2)
        if kind == "ttl"
        else ntgen.documents(kind == "nq", max_size=3)
    )
    return st.tuples(
        st.just(kind),
        documents,
        st.integers(0, len(BROKEN[kind]) - 1).map(lambda i: BROKEN[kind][i]),
        documents,
        documents,
    ).map(list)


def broken_body(case, rec):
    kind, before, construct, after, later = case
    eol = "\n"
    text = before["text"] + eol + construct + eol + after["text"]
    rec.interesting(bool(before["expected"]))
    rec.label(kind)
    ways = [lambda *g: parse(kind, text, before.get("base", ""), *g)]
    if kind == "ttl":
        ways.append(lambda *g: turtle_parser.parse_string(text.encode("utf-8"), *g))
    else:
        parser = nquads_parser if kind == "nq" else ntriples_parser
        ways.append(lambda *g: parser.parse_string(text.encode("utf-8"), *g))
    for way in ways:
        graph, old = sink(kind)
        for args in ((), (graph,)):
            try:
                result = way(*args)
            except Exception:
                continue
            raise AssertionError(f"accepts {construct!r} in {text!r}: {list(result)!r}")
        check_untouched(graph, old)
    if kind != "ttl":
        # Of a stream, lines before the bad one may have been added already.
        graph, old = sink(kind)
        try:
            parse(kind, StringIO(text), "", graph)
        except Exception:
            pass
        else:
            raise AssertionError(f"accepts {construct!r} in a stream: {list(graph)!r}")
        shape = {ground(s) for s in freeze(before["expected"])} | {ground(old)}
        for s in Terms().describe_all(graph):
            assert ground(s) in shape, f"{s} isn't from before {construct!r}"
    # The parser isn't impressed.
    result = parse(kind, later["text"], later.get("base", ""))
    assert_same(freeze(later["expected"]), Terms().describe_all(result), "next document")


# What looks like white space, to Python or to the eye, and isn't any in these languages.
SPACES = [
    "\x00", "\x08", "\x0b", "\x0c", "\x1a", "\x1c", "\x1d", "\x1e", "\x1f", "\x7f", "\x85", "\xa0",
    "\u1680", "\u2000", "\u200b", "\u2028", "\u2029", "\u3000", "\ufeff",
]  # fmt: skip


@st.composite
def space_cases(draw):
    """Such a character where white space is allowed."""
    kind = draw(gen.pick("nt", "nq", "ttl"))
    char = draw(gen.pick(*SPACES))
    parts = draw(gen.pick((IRI, IRI, IRI, "."), (IRI, IRI, '"o"', "."), ("_:a", IRI, "_:b", "."), ("# comment",), ("",)))
    # Not in a comment nor at the beginning of a document.
    at = draw(gen.ints(len(parts) if parts[0][:1] in "<_" else 0))
    pad = draw(gen.pick("", " ", "\t"))
    if char in "\u1680\ufeff" and at and parts[at - 1].startswith("_:"):
        pad = " "  # labels may have these in them
    parts = [*parts[:at], pad + char + draw(gen.pick("", " ", "\t", char)), *parts[at:]]
    document = (
        ttlgen.documents(relative=0, depth=1, max_statements=1)
        if kind == "ttl"
        else ntgen.documents(kind == "nq", max_size=1)
    )
    return [kind, draw(document), draw(gen.pick(" ", " ", "")).join(parts), draw(document), draw(document)]


ILLEGAL = [chr(c) for c in range(0x21)] + list('<>"{}|^`\\')
PLACES = [
    "{iri} <urn:p> 1 .",
    "<urn:s> {iri} 1 .",
    "<urn:s> <urn:p> {iri} .",
    "<urn:s> <urn:p> 'x'^^{iri} .",
    "<urn:s> <urn:p> [ <urn:p> ( {iri} ) ] .",
    "@prefix q: {iri} .",
    "@base {iri} .",
    "PREFIX q: {iri}\n",
    "BASE {iri}\n",
]


@st.composite
def illegal(draw):
    """An IRI with an escape of a character that IRIs can't have."""
    iri = draw(gen.pick("http://a/b?c#d", "a", "", "urn:x", "//h"))
    at = draw(gen.ints(len(iri)))
    code = ord(draw(gen.pick(*ILLEGAL)))
    escape = draw(gen.pick(f"\\u{code:04x}", f"\\u{code:04X}", f"\\U{code:08X}"))
    return {
        "document": draw(ttlgen.documents(relative=0, depth=1, max_statements=1)),
        "construct": draw(gen.pick(*PLACES)).format(iri=f"<{iri[:at]}{escape}{iri[at:]}>"),
    }


def illegal_body(case, rec):
    rec.interesting()
    text = case["document"]["text"] + "\n" + case["construct"]
    graph, before = sink("ttl")
    for args in ((), (graph,)):
        try:
            result = turtle_parser.parse(text, *args)
        except Exception:
            continue
        raise AssertionError(f"accepts {case['construct']!r}: {list(result)!r}")
    check_untouched(graph, before)


NOT_UTF8 = [
    [0xFF], [0x80], [0xC3], [0xC3, 0x28], [0xE2, 0x82], [0xED, 0xA0, 0x80], [0xC0, 0x80],
    [0xF5, 0x80, 0x80, 0x80], [0xF0, 0x9F, 0x98], [0xFE], [0xE9],
]  # fmt: skip


def bytes_cases():
    return st.tuples(
        gen.pick("nt", "nq", "ttl"), gen.text(4), st.sampled_from(NOT_UTF8), gen.text(4), gen.ints(2)
    ).map(list)


def bytes_body(case, rec):
    kind, before, wrong, after, place = case
    rec.interesting()
    rec.label(kind)
    template = [
        '<urn:s> <urn:p> "%s" .\n',
        "# %s\n<urn:s> <urn:p> <urn:o2> .\n",
        "<urn:s> <urn:p/%s> <urn:o2> .\n",
    ][place]
    parts = [
        "".join(c for c in text if c.isalnum() and ord(c) > 127).encode("utf-8")
        for text in (before, after)
    ]
    data = template.encode().replace(b"%s", parts[0] + bytes(wrong) + parts[1])
    graph, present = sink(kind)
    parser = {"nt": ntriples_parser, "nq": nquads_parser, "ttl": turtle_parser}[kind]
    for args in ((), (graph,)):
        try:
            result = parser.parse_string(data, *args)
        except Exception:
            continue
        raise AssertionError(f"accepts {data!r}, which isn't UTF-8: {list(result)!r}")
    check_untouched(graph, present)


def ground(statement):
    return tuple(("B",) if t is not None and t[0] == "B" else t for t in statement)


def large_cases():
    """A large document, and what is wrong with it at the end."""
    lines = largedocs.specs(largedocs.LINE_KINDS)
    return st.one_of(
        st.tuples(gen.pick("nt", "nq"), lines, gen.ints(200)),
        st.tuples(st.just("ttl"), largedocs.specs(largedocs.TURTLE_KINDS), gen.ints(200)),
    ).map(list)


def large_body(case, rec):
    kind, spec, number = case
    construct = BROKEN[kind][number % len(BROKEN[kind])]
    document = largedocs.turtle(spec) if kind == "ttl" else largedocs.lines(spec, kind == "nq")
    rec.interesting(spec["size"] > 30)
    rec.label(kind)
    text = document["text"] + "\n" + construct + "\n"
    parser = {"nt": ntriples_parser, "nq": nquads_parser, "ttl": turtle_parser}[kind]
    graph, present = sink(kind)
    for way in (parser.parse, lambda t, *g: parser.parse_string(t.encode("utf-8"), *g)):
        try:
            way(text, graph)
        except Exception:
            check_untouched(graph, present)
            continue
        raise AssertionError(f"accepts {construct!r} at the end of a large document")
    result = Terms().describe_all(parser.parse(document["text"]))
    assert_same(freeze(document["expected"]), result, "the document without it")


PROPS = [
    Prop("large", large_cases, large_body, quick=120, thorough=2500),
    Prop("mutated N-Triples", lambda: mutated("nt"), mutated_body, quick=1500),
    Prop("mutated N-Quads", lambda: mutated("nq"), mutated_body, quick=1500),
    Prop("mutated Turtle", lambda: mutated("ttl"), mutated_body, quick=2500),
    Prop("tokens", tokens, tokens_body, quick=5000),
    Prop("broken N-Triples", lambda: broken("nt"), broken_body, quick=800),
    Prop("broken N-Quads", lambda: broken("nq"), broken_body, quick=800),
    Prop("broken Turtle", lambda: broken("ttl"), broken_body, quick=1200),
    Prop("odd space", space_cases, broken_body, quick=500),
    Prop("illegal IRIs", illegal, illegal_body, quick=600),
    Prop("not UTF-8", bytes_cases, bytes_body, quick=400),
]
