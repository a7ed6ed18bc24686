"""C12: what is serialized as Turtle reads back as the same graph."""

from io import StringIO
import re

from hypothesis import strategies as st

from pbt import gen, large, largedocs, mined, near, ttlgen, ttlref
from pbt.core import Prop
from pbt.terms import RDF, XSD, Terms, assert_same, freeze, simple

from pymantic.parsers import turtle_parser
from pymantic.primitives import Graph, NamedNode, PrefixMap, Profile
from pymantic.serializers import default_bnode_name_generator, serialize_turtle

ID = "C12"
RULE = (
    "A case is a graph (terms of any kind; well-formed, nested, shared, cyclic and broken"
    " rdf:List structures), a profile whose prefixes overlap with the graph's IRIs and"
    " with each other, and perhaps a base and blank node names of one's own. The output"
    " is read by turtle_parser and by a strict reader written from the W3C grammar; both"
    " have to come up with the graph (plain literals being xsd:string). large: graphs of"
    " many nodes and long lists. Non-trivial: the"
    " graph has two or more triples, and a blank node, a prefixed or relative name, or a"
    " typed literal in it."
)
ASSUMPTIONS = [
    "IRIs are absolute and of legal characters, prefixes are legal in Turtle, languages"
    " are well-formed, literals have a language or a datatype but not both."
]


@st.composite
def prefix_maps(draw):
    pairs = []
    for _ in range(draw(gen.ints(4))):
        # Also those that the package has a use for itself.
        name = draw(st.one_of(ttlgen.prefix_names(), ttlgen.prefix_names(), gen.pick("xsd", "rdf", "rdfs")))
        kind = draw(gen.ints(5))
        if kind == 5:
            namespace = draw(gen.iris())
        elif kind == 4:
            namespace = draw(gen.pick("http://e.example/", "http://e.example/1", "http://e.example/%41", "http:", "urn:"))
        else:
            namespace = draw(gen.pick(*ttlgen.NAMESPACES))
        pairs.append([name, namespace])
    return pairs


SUFFIXES = [
    "", "a", "b", "1", "01", "a.b", "a.", ".a", "a-", "-a", "-", "a:b", ":", "a/b", "/a", "/", "//",
    "#", "#a", "?", "?a=b&c", "a~b", "a!$&'()*+,;=@", "%41", "a%20b", "%2", "é", "·", "a·",
    "\u0300", "a\u0300", "\u203f", "\u00d7", "a\u00d7", "\u037e", "\U0001F600", "\U000E0000", "_", "__",
    "..", "../a", "./a", "a/../b", "true", "a_b", "[", "]", "\u2028", "\u3000", "x:y", "A", "\uFFFD",
    "integer", "string", "boolean", "type", "first", "rest", "nil",
]  # fmt: skip


# Bases that what comes after them isn't part of the path of.
ENDS = [
    "http://e.example/#", "http://e.example/a/b#", "urn:a#", "http://e.example/a?b#", "http://e.example/a#b#",
    "http://e.example/a#b", "http://e.example/a?", "http://e.example/a?b=", "http://e.example/a?b=/", "http://e.example/a/b",
    "http://e.example", "http://e.example/a/.", "http://e.example/a/../", "http://e.example//", "urn:a", "urn:a:", "http:",
]  # fmt: skip


@st.composite
def cases(draw):
    prefixes = draw(prefix_maps())
    base = draw(st.one_of(st.none(), st.none(), gen.pick(*ttlgen.BASES), gen.iris(), gen.pick(*ENDS)))
    starts = [ns for _, ns in prefixes] + [RDF, XSD, "http://e.example/"]
    if base:
        starts += [base] * 3

    def iri():
        kind = draw(gen.ints(3))
        if kind == 0:
            return draw(gen.mixed_iris())
        start = starts[draw(gen.ints(len(starts) - 1))]
        return start + draw(gen.pick(*SUFFIXES))

    def node():
        return ["B", str(draw(gen.ints(4)))]

    def literal():
        term = draw(gen.literals())
        if term[3] is not None and draw(gen.ints(3)) == 0:
            term = term[:3] + [iri()]
            if prefixes and draw(gen.ints(2)) == 0:
                term = term[:3] + [prefixes[0][1] + draw(gen.pick("integer", "string", "boolean"))]
        return term

    def obj():
        kind = draw(gen.ints(4))
        return ["I", iri()] if kind == 0 else node() if kind == 1 else literal()

    triples = []
    for _ in range(draw(gen.ints(8))):
        subject = node() if draw(gen.ints(3)) == 0 else ["I", iri()]
        triples.append([subject, ["I", iri()], obj()])
    cells = []
    for _ in range(draw(gen.pick(0, 0, 1, 2, 3))):
        triples += draw_list(draw, obj, node, cells)
    if draw(gen.ints(2)) == 0:
        triples = near.more((triples, draw(gen.ints(95)), draw(gen.ints(4 * 28 - 1))))
    return {
        "triples": gen.unique(triples),
        "prefixes": prefixes,
        "base": base,
        "names": draw(gen.pick("", "", "", "x", "_a.", "é", "0")),
        "profile": draw(gen.ints(3)) > 0,
        "without": list(draw(gen.pick((), (), (), ("xsd",), ("rdf",), ("rdf", "xsd")))),
    }


def draw_list(draw, obj, node, cells):
    """A list, more or less: shared, cyclic and broken ones are among them."""
    first, rest, nil = ["I", RDF + "first"], ["I", RDF + "rest"], ["I", RDF + "nil"]
    length = draw(gen.ints(4))
    mine = [["B", "l%d" % (len(cells) + i)] for i in range(length)]
    triples = []
    for i, cell in enumerate(mine):
        item = obj()
        if cells and draw(gen.ints(3)) == 0:
            item = cells[draw(gen.ints(len(cells) - 1))]  # a list in a list, perhaps
        triples.append([cell, first, item])
        triples.append([cell, rest, mine[i + 1] if i + 1 < length else nil])
    cells += mine
    kind = draw(gen.ints(11))
    some = mine[draw(gen.ints(length - 1))] if mine else nil
    head = mine[0] if mine else nil
    if kind == 0 and triples:
        del triples[draw(gen.ints(len(triples) - 1))]
    elif kind == 1:
        triples.append([some, first, obj()])
    elif kind == 2:
        triples.append([some, rest, cells[draw(gen.ints(len(cells) - 1))] if cells else nil])
    elif kind == 3:
        triples.append([some, ["I", "http://e.example/1"], obj()])
    elif kind == 4:
        triples.append([["I", "http://e.example/0"], ["I", "http://e.example/1"], some])
    elif kind == 5 and triples:
        triples[-1] = [mine[-1], rest, mine[0]]  # a cycle
    elif kind == 6 and triples:
        triples[-1] = [mine[-1], rest, obj()]
    if draw(gen.ints(3)):
        subject = node() if draw(gen.ints(1)) else ["I", "http://e.example/2"]
        triples.append([subject, ["I", "http://e.example/p"], head])
    if draw(gen.ints(3)) == 0:
        triples.append([head, ["I", "http://e.example/q"], obj()])
    return triples


def bnode_names(prefix):
    """Names that have to be legal, but neither ordered nor short."""

    def names():
        i = 0
        while True:
            yield "_:%s%d" % (prefix, i * 7919 % 1000003)
            i += 1

    return names


def body(case, rec):
    terms = Terms()
    graph = Graph()
    wanted = {simple(t) for t in freeze(case["triples"])}
    for triple in case["triples"]:
        graph.add(terms.triple(triple))
    before = set(graph)
    kwargs = {}
    profile = None
    if case["profile"]:
        prefixes = PrefixMap()
        for name, namespace in case["prefixes"]:
            prefixes[name] = namespace
        profile = Profile(prefixes)
        for name in case.get("without", ()):
            # Profiles have these, but need not keep them.
            del profile.prefixes[name]
        kwargs["profile"] = profile
        contents = list(profile.prefixes.items())
    if case["base"] is not None:
        kwargs["base"] = case["base"]
    if case["names"]:
        kwargs["bnode_name_generator"] = bnode_names(case["names"])
    f = StringIO()
    serialize_turtle(graph, f, **kwargs)
    text = f.getvalue()
    assert set(graph) == before and len(graph) == len(before), "the graph was changed"
    if profile is not None:
        assert list(profile.prefixes.items()) == contents, "the profile was changed"
    try:
        strict = ttlref.read(text)
    except ttlref.Invalid as e:
        raise AssertionError(f"not valid Turtle, {e}: {text}")
    assert_same(wanted, {simple(t) for t in strict}, "strict reader of " + text)
    own = {simple(t) for t in Terms().describe_all(turtle_parser.parse(text))}
    assert_same(wanted, own, "turtle_parser of " + text)
    notable = [
        t
        for s in case["triples"]
        for t in s
        if t[0] == "B"
        or t[0] == "L"
        and t[3] is not None
        or t[0] == "I"
        and case["profile"]
        and any(t[1].startswith(ns) for _, ns in case["prefixes"])
    ]
    rec.interesting(len(case["triples"]) > 1 and bool(notable))
    rec.label(
        *(["list syntax"] if "(" in text.replace("\\(", "") else []),
        "base" if case["base"] else "no base",
        "profile" if profile else "no profile",
        *(["blank nodes"] if any(t[0] == "B" for s in case["triples"] for t in s) else []),
    )


def stability_body(case, rec):
    """What was read back is written and read back the same once more."""
    rec.interesting(len(case["expected"]) > 1)
    graph = turtle_parser.parse(case["text"], base=case["base"])
    wanted = {simple(t) for t in Terms().describe_all(graph)}
    # The reader takes any reference for an IRI if there is no base.
    if any(
        t is not None and (t[0] == "I" and not absolute(t[1]) or t[0] == "L" and t[3] and not absolute(t[3]))
        for s in wanted
        for t in s
    ):
        return
    f = StringIO()
    serialize_turtle(graph, f)
    assert_same(wanted, {simple(t) for t in ttlref.read(f.getvalue())}, f.getvalue())


def absolute(iri):
    from pbt import rfc3986

    return rfc3986.split(iri)[0] is not None


@st.composite
def large_cases(draw):
    """Graphs of many statements, or long terms, and a list; prefixes that may be many."""
    graph = draw(st.one_of(large.specs(1000), large.specs(1000), large.long_ones(1500)))
    return {
        "graph": graph,
        "list": draw(st.one_of(st.integers(0, 5), mined.sizes(300))),
        "prefixes": draw(st.one_of(st.integers(0, 3), mined.sizes(200))),
        "base": draw(gen.pick("", "", large.NS, large.NS + "a/")),
    }


def large_body(case, rec):
    spec = case["graph"]
    terms = Terms()
    if isinstance(spec, dict):
        wanted = large.triples(spec)
        rec.label("many statements")
        rec.interesting(spec["count"] > 30)
    else:
        wanted = [
            s for s in large.long_triples(*spec) if legal(s)
        ]
        rec.label("long terms")
        rec.interesting(spec[0] > 30)
    cells = [("B", "l%d" % i) for i in range(case["list"])] + [("I", RDF + "nil")]
    wanted.append((("I", "http://e.example/list"), ("I", "http://e.example/items"), cells[0]))
    for i in range(case["list"]):
        item = ("L", str(i), None, None) if i % 3 else ("I", large.NS + "s%d" % (i // 2))
        wanted.append((cells[i], ("I", RDF + "first"), item))
        wanted.append((cells[i], ("I", RDF + "rest"), cells[i + 1]))
    graph = Graph()
    for triple in wanted:
        graph.add(terms.triple(triple))
    prefixes = PrefixMap()
    for i in range(case["prefixes"]):
        prefixes["x%d" % i] = (large.NS, large.NS + "s", large.NS + "o%d" % i, "urn:%d:" % i)[i % 4]
    kwargs = {"base": case["base"]} if case["base"] else {}
    f = StringIO()
    serialize_turtle(graph, f, profile=Profile(prefixes), **kwargs)
    assert len(graph) == len(set(wanted)), "the graph was changed"
    text = f.getvalue()
    wanted = {simple(t) for t in wanted}
    try:
        strict = ttlref.read(text)
    except ttlref.Invalid as e:
        raise AssertionError(f"not valid Turtle, {e}: {text[:2000]}")
    assert_same(wanted, {simple(t) for t in strict}, "strict reader")
    own = {simple(t) for t in Terms().describe_all(turtle_parser.parse(text))}
    assert_same(wanted, own, "turtle_parser")


def legal(statement):
    return not any(re.search(r'[\x00-\x20<>"{}|^`\\]', t[1]) for t in statement if t[0] == "I")


def large_documents_body(spec, rec):
    document = largedocs.turtle(spec)
    rec.label(spec["kind"])
    stability_body(document, rec)


def values_body(literals, rec):
    """Everything that can be written of a datatype."""
    statements = gen.about(literals)
    rec.label((literals[0][3] or literals[0][2] or "plain").split("#")[-1])
    rec.interesting(len(literals) > 5)
    graph, terms = Graph(), Terms()
    for s in statements:
        graph.add(terms.triple(s))
    out = StringIO()
    serialize_turtle(graph, out)
    wanted = {simple(s) for s in freeze(statements)}
    try:
        strict = ttlref.read(out.getvalue())
    except ttlref.Invalid as e:
        raise AssertionError(f"not valid Turtle, {e}: {out.getvalue()[:2000]}")
    assert_same(wanted, {simple(t) for t in strict}, "strict reader")
    own = {simple(t) for t in Terms().describe_all(turtle_parser.parse(out.getvalue()))}
    assert_same(wanted, own, "turtle_parser")


PROPS = [
    Prop("large", large_cases, large_body, quick=160, thorough=2500),
    Prop(
        "large documents",
        lambda: largedocs.specs(largedocs.TURTLE_KINDS + ("nested ()", "nested both") * 3),
        large_documents_body,
        quick=200,
        thorough=2500,
    ),
    Prop("values", gen.one_datatype, values_body, quick=120, thorough=1500),
    Prop("graphs", cases, body, quick=3000),
    Prop("documents", lambda: ttlgen.documents(relative=1), stability_body, quick=700),
]
