"""C13: JSON-LD is read as the dataset it stands for."""

from io import StringIO
import json

from hypothesis import strategies as st

from pbt import gen, mined
from pbt.core import Prop
from pbt.terms import RDF, XSD, Terms, assert_same, simple

from pymantic.parsers import jsonld_parser
from pymantic.primitives import Dataset, NamedNode, Quad

ID = "C13"
RULE = (
    "A case is a tree of node objects (IRIs and shared blank node ids, nested nodes,"
    " @type, @list, @graph with IRI and blank node names, strings, languages, datatypes,"
    " numbers and booleans), written as expanded JSON-LD or with a context (prefixes,"
    " @vocab, coercion to @id, a base), along with the quads it stands for. It is read"
    " with parse_json, document.parse and document.parse_file, into a new dataset and"
    " into one that has quads. Non-trivial: two or more quads, and a named graph, a"
    " blank node, a list or a literal that isn't a plain string."
)
ASSUMPTIONS = ["PyLD, which does the expansion, is part of what is being tested."]

NS = "http://ns.example/"
BASE = "http://base.example/dir/"
# Mostly few, for them to meet; some differ in little from others.
NAMES = ["a", "b", "c"] * 3 + ["A", "x#a", "y#a", "x/a", "y/a", "é", "e\u0301", "a-", "%61", "a?b"]


DATATYPES = ["a", "integer", "string", "date"] + [
    NS + name for name in ("x#a", "y#a", "integer", "XMLSchema#integer", "x/date", "A", "é", "a#", "a")
]


@st.composite
def values(draw, depth):
    kind = draw(gen.ints(10 if depth else 8))
    if kind == 0:
        return ["iri", draw(gen.pick(*NAMES))]
    if kind == 1:
        return ["node", draw(gen.pick("0", "0", "1", "b0", "b0", "B0", "00"))]
    if kind == 2:
        return ["string", draw(gen.text())]
    if kind == 3:
        return ["lang", draw(gen.text()), draw(gen.pick("en", "fr", "de-1996", "en-us"))]
    if kind == 4:
        if draw(gen.ints(1)):
            _, value, _, datatype = draw(gen.typed())
            # PyLD writes doubles in their canonical form, and refuses what isn't one.
            return ["typed", value, datatype if datatype != XSD + "double" else XSD + "float"]
        return ["typed", draw(gen.text()), draw(gen.pick(*DATATYPES))]
    if kind == 5:
        return ["int", draw(st.integers(-(2**31), 2**31))]
    if kind == 6:
        return ["bool", draw(st.booleans())]
    if kind == 7:
        return ["relative", draw(gen.pick(*NAMES))]
    if kind == 8:
        # Numbers that aren't integers, nor have more digits than JSON-LD keeps.
        return ["float", draw(st.integers(-10**6, 10**6)) + 0.5, draw(gen.pick(0, 0, 1, 5, 9, -7))]
    if kind == 9:
        return ["list", [draw(values(depth - 1)) for _ in range(draw(gen.ints(3)))]]
    return ["nested", draw(node_objects(depth - 1))]


@st.composite
def node_objects(draw, depth):
    kind = draw(gen.ints(4))
    if kind == 0:
        subject = None
    elif kind == 1:
        subject = ["node", draw(gen.pick("0", "0", "1", "b0", "b0", "B0", "00"))]
    elif kind == 2:
        subject = ["relative", draw(gen.pick(*NAMES))]
    else:
        subject = ["iri", draw(gen.pick(*NAMES))]
    types = [draw(gen.pick(*NAMES)) for _ in range(draw(gen.pick(0, 0, 1, 2)))]
    properties = {}
    for _ in range(draw(gen.ints(2)) + (0 if depth < 2 else 1)):
        name = draw(gen.pick(*NAMES))
        properties[name] = [draw(values(depth)) for _ in range(draw(gen.ints(2)) + 1)]
    return {"subject": subject, "types": types, "properties": properties}


@st.composite
def cases(draw):
    graphs = []
    for _ in range(draw(gen.ints(3)) + 1):
        kind = draw(gen.ints(3))
        name = None
        if kind == 2:
            name = ["iri", draw(gen.pick("g", "h", "a", "g", "h", "a", "x#a", "y#a", "G", "é"))]
        elif kind == 3:
            name = ["node", draw(gen.pick("g", "0", "B0"))]
        graphs.append([name, [draw(node_objects(2)) for _ in range(draw(gen.ints(2)) + 1)]])
    return {"graphs": graphs, "context": draw(gen.ints(2)), "broken": draw(gen.ints(3))}


class Writer:
    """The JSON-LD of a case, and its quads."""

    def __init__(self, context):
        self.context = context
        self.count = 0
        self.quads = set()

    def new_node(self):
        self.count += 1
        return ("B", "anon%d" % self.count)

    def term(self, t):
        kind, name = t
        if kind == "iri":
            return ("I", NS + name)
        if kind == "relative":
            return ("I", BASE + name)
        return ("B", name)

    def id(self, t):
        kind, name = t
        if kind == "node":
            return "_:" + name
        if kind == "relative":
            return name if self.context else BASE + name
        return ("ns:" if self.context else NS) + name

    def property(self, name):
        return (NS if self.context == 0 else "ns:" if self.context == 1 else "") + name

    def value(self, v, graph):
        """The JSON and the term of a value."""
        kind = v[0]
        if kind in ("iri", "node", "relative"):
            return {"@id": self.id(v)}, self.term(v)
        if kind == "string":
            json_ = v[1] if self.context == 2 else {"@value": v[1]}
            return json_, ("L", v[1], None, None)
        if kind == "lang":
            return {"@value": v[1], "@language": v[2]}, ("L", v[1], v[2], None)
        if kind == "typed":
            datatype = v[2] if ":" in v[2] else (NS if v[2] == "a" else XSD) + v[2]
            return {"@value": v[1], "@type": datatype}, ("L", v[1], None, datatype)
        if kind == "int":
            json_ = v[1] if self.context == 2 else {"@value": v[1]}
            return json_, ("L", str(v[1]), None, XSD + "integer")
        if kind == "float":
            number = v[1] / 10 ** v[2] if v[2] >= 0 else (v[1] / 8) * 10.0**12 + 0.5
            if number == int(number):
                number = 0.5
            mantissa, exponent = ("%.15E" % number).split("E")
            mantissa = mantissa.rstrip("0")
            mantissa += "0" if mantissa.endswith(".") else ""
            json_ = number if self.context == 2 else {"@value": number}
            return json_, ("L", f"{mantissa}E{int(exponent)}", None, XSD + "double")
        if kind == "bool":
            return {"@value": v[1]}, ("L", "true" if v[1] else "false", None, XSD + "boolean")
        if kind == "nested":
            return self.node(v[1], graph)
        pairs = [self.value(item, graph) for item in v[1]]
        head = ("I", RDF + "nil")
        for _, item in reversed(pairs):
            cell = self.new_node()
            self.quads.add((cell, ("I", RDF + "first"), item, graph))
            self.quads.add((cell, ("I", RDF + "rest"), head, graph))
            head = cell
        return {"@list": [j for j, _ in pairs]}, head

    def node(self, node, graph):
        json_ = {}
        if node["subject"] is None:
            subject = self.new_node()
            # An object without anything but @id isn't a node of its own.
        else:
            subject = self.term(node["subject"])
            json_["@id"] = self.id(node["subject"])
        if node["types"]:
            json_["@type"] = [self.property(t) for t in node["types"]]
            for t in node["types"]:
                self.quads.add((subject, ("I", RDF + "type"), ("I", NS + t), graph))
        for name, items in node["properties"].items():
            pairs = [self.value(v, graph) for v in items]
            json_[self.property(name)] = [j for j, _ in pairs]
            for _, term in pairs:
                self.quads.add((subject, ("I", NS + name), term, graph))
        return json_, subject

    def document(self, graphs):
        out = []
        for name, nodes in graphs:
            graph = None if name is None else self.term(name)
            items = [self.node(n, graph)[0] for n in nodes]
            if name is None:
                out += items
            else:
                out.append({"@id": self.id(name), "@graph": items})
        if self.context == 0:
            return out
        context = {"ns": NS, "@base": BASE}
        if self.context == 2:
            context["@vocab"] = NS
        return {"@context": context, "@graph": out}


BROKEN = [{"@id": 5}, {"@type": 5}, {"http://a": {"@value": "x", "@language": 1}}]


def body(case, rec):
    writer = Writer(case["context"])
    document = writer.document(case["graphs"])
    expected = {simple(q) for q in writer.quads}
    kinds = {str(t[0]) for q in expected for t in q if t is not None}
    rec.interesting(
        len(expected) > 1
        and ("B" in kinds or any(q[3] is not None for q in expected))
    )
    rec.label(
        "context %d" % case["context"],
        *(["named graph"] if any(q[3] and q[3][0] == "I" for q in expected) else []),
        *(["blank graph"] if any(q[3] and q[3][0] == "B" for q in expected) else []),
    )

    def check(result, wanted, what):
        found = Terms().describe_all(result)
        assert all(isinstance(q, Quad) for q in result)
        for q in found:
            for t in q:
                assert t is None or t[0] != "L" or not (t[2] and t[3]), f"{t} has both"
        assert_same(wanted, [simple(q) for q in found], what)

    text = json.dumps(document)
    check(jsonld_parser.parse_json(document), expected, "parse_json")
    check(jsonld_parser.document.parse(text), expected, "document.parse")
    check(jsonld_parser.document.parse_file(StringIO(text)), expected, "document.parse_file")
    old = Quad(NamedNode("urn:s"), NamedNode("urn:p"), NamedNode("urn:o"), NamedNode(NS + "g"))
    kept = {(("I", "urn:s"), ("I", "urn:p"), ("I", "urn:o"), ("I", NS + "g"))}
    sink = Dataset()
    sink.add(old)
    try:
        if isinstance(document, list):
            bad = document + [BROKEN[case["broken"] % len(BROKEN)]]
        else:
            bad = {**document, "@graph": document["@graph"] + [BROKEN[case["broken"] % len(BROKEN)]]}
        jsonld_parser.parse_json(bad, sink)
    except Exception:
        check(sink, kept, "after a failure")
    else:
        raise AssertionError(f"accepts {bad}")
    assert jsonld_parser.parse_json(document, sink) is sink
    check(sink, expected | kept, "parse_json into a dataset")
    if case["context"]:
        # Options are up to the caller.
        context = document["@context"]
        bare = document["@graph"]
        options = {"expandContext": {k: v for k, v in context.items() if k != "@base"}, "base": BASE}
        # And for this document only.
        relative = [{"@id": "rel", "http://p": [{"@id": "rel2"}], "p": "x"}, *bare]
        before = Terms().describe_all(jsonld_parser.parse_json(relative))
        check(jsonld_parser.parse_json(bare, None, options), expected, "options")
        assert_same(before, Terms().describe_all(jsonld_parser.parse_json(relative)), "without options")
        assert_same(before, Terms().describe_all(jsonld_parser.document.parse(json.dumps(relative))), "without options")


@st.composite
def large_cases(draw):
    """Many nodes, values, list items, types or graphs; deep nesting."""
    kind = draw(
        gen.pick("nodes", "values", "list", "types", "graphs", "deep", "labels", "labels", "string", "properties")
    )
    return {
        "case": draw(cases()),
        "kind": kind,
        "size": draw(mined.sizes(2100 if kind in ("nodes", "labels", "string") else 300)),
        "graph": draw(gen.ints(1)),
    }


def large_body(spec, rec):
    n, kind = spec["size"], spec["kind"]
    rec.label(kind)

    def node(subject, **properties):
        return {"subject": subject, "types": [], "properties": properties}

    me = ["iri", "many"]
    name = None if spec["graph"] else ["iri", "g"]
    if kind == "nodes":
        graphs = [[name, [node(["iri", "n%d" % k], a=[["int", k]]) for k in range(n)]]]
    elif kind == "labels":
        graphs = [[name, [node(["node", "n%d" % k], a=[["node", "n%d" % (k * 7 % n)], ["int", k]]) for k in range(n)]]]
    elif kind == "values":
        values = [["int", k] if k % 3 else ["lang", str(k), "en"] for k in range(n)]
        graphs = [[name, [node(me, a=values)]]]
    elif kind == "list":
        graphs = [[name, [node(me, a=[["list", [["int", k] if k % 2 else ["iri", "i%d" % k] for k in range(n)]]])]]]
    elif kind == "types":
        graphs = [[name, [{**node(me), "types": ["t%d" % k for k in range(n)]}]]]
    elif kind == "graphs":
        graphs = [[["node" if k % 3 == 0 else "iri", "g%d" % k], [node(me, a=[["int", k % 5]])]] for k in range(n)]
    elif kind == "properties":
        graphs = [[name, [node(me, **{"p%d" % k: [["int", k]] for k in range(n)})]]]
    elif kind == "deep":
        inner = ["int", n]
        for k in range(min(n, 20)):
            inner = ["nested", node(["node", "n%d" % k] if k % 2 else None, a=[inner])]
        graphs = [[name, [node(me, a=[inner])]]]
    else:
        graphs = [[name, [node(me, a=[["string", "é" * n], ["lang", "x" * n * 10, "en"]])]]]
    case = dict(spec["case"])
    case["graphs"] = case["graphs"][: 1 + n % 2] + graphs
    body(case, rec)


def values_body(case, rec):
    """Everything that can be written of a datatype."""
    literals, context = case
    values = []
    for _, value, language, datatype in literals:
        if language:
            values.append(["lang", value, language])
        elif datatype is None:
            values.append(["string", value])
        elif datatype != XSD + "double":  # see above
            values.append(["typed", value, datatype])
    node = {"subject": ["iri", "a"], "types": [], "properties": {"a": values}}
    body({"graphs": [[None, [node]]], "context": context, "broken": 0}, rec)
    rec.nontrivial = len(values) > 5


PROPS = [
    Prop("large", large_cases, large_body, quick=80, thorough=1000),
    Prop(
        "values",
        lambda: st.tuples(gen.one_datatype(), gen.ints(2)).map(list),
        values_body,
        quick=160,
        thorough=1500,
    ),
    Prop("documents", cases, body, quick=1000),
]
