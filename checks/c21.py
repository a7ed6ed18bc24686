"""C21: an RDF list is iterated item by item, in order."""

from io import StringIO
from itertools import islice

from hypothesis import strategies as st

from pbt import gen, mined
from pbt.core import Prop
from pbt.terms import RDF, RDFS, XSD, Terms, freeze, simple

from pymantic.parsers import turtle_parser
from pymantic.primitives import Graph, Literal, NamedNode, Triple
from pymantic.rdf import List, Resource, register_class
from pymantic.serializers import serialize_turtle

ID = "C21"
RULE = (
    "A case is one to three lists of any terms (nested, sharing items, with duplicates,"
    " cells that are IRIs (which may look like rdf:nil's) or blank nodes and have other properties, too). List (or a subclass with another vocabulary) has to"
    " yield their items in order, as literals or as resources of the right class, also"
    " when items were replaced, put in or cut off, when the list came from Turtle and after it went through Turtle. Non-trivial: a"
    " list has two or more items, and literals in languages, references, duplicates or"
    " lists among them."
)

CLS = "http://classes.example/Listed"
FIRST, REST, NIL, TYPE = (("I", RDF + n) for n in ("first", "rest", "nil", "type"))


@register_class(CLS)
class Listed(Resource):
    pass


class MyList(List):
    pass


OTHER = "http://lists.example/ns#"


class OtherList(List):
    """Lists in terms of a vocabulary of their own."""

    prefixes = {"rdf": OTHER}
    scalars = frozenset(("rdf:first", "rdf:rest"))


class MyOtherList(OtherList):
    pass


# Cells called so that one might take them for something else.
CELLS = [
    "http://e.example/ns#nil", "nil", "rdf:nil", RDF + "Nil", RDF + "nill", RDF + "nil/",
    RDF + "ni", RDF, "", RDF + "List", RDF + "first", RDF + "rest", OTHER + "nil2", "http://e.example/nil",
]  # fmt: skip


def items():
    return st.one_of(
        gen.literals(gen.pick("en", "fr", "de", "en-us")),
        gen.named(gen.pool_iris(3)),
        gen.nodes(2),
        st.just(["list", 0]),
        st.just(["I", RDF + "nil"]),
    )


@st.composite
def cases(draw):
    lists = []
    for i in range(draw(gen.ints(2)) + 1):
        values = draw(gen.several(items(), 7))
        values = [v if v[0] != "list" else ["list", i - 1] if i else ["B", "0"] for v in values]
        if values and draw(gen.ints(3)) == 0:
            values.append(values[0])
        lists.append(
            {
                "items": values,
                "cells": draw(gen.pick("B", "B", "B", "I", "odd")),
                "from": draw(gen.ints(len(CELLS) - 1)),
                "extra": draw(gen.ints(3)) == 3,
                "tail": draw(gen.ints(9)) == 9,
            }
        )
    edits = draw(
        st.lists(
            st.tuples(gen.pick("item", "item", "cut", "add"), gen.ints(20), items().filter(lambda v: v[0] != "list")).map(list),
            max_size=3,
        )
    )
    return {
        "lists": lists,
        "typed": draw(st.lists(gen.ints(2), max_size=2)),
        "edits": edits,
        "other": draw(gen.ints(4)) == 4,
    }


def vocabulary(case):
    return [("I", (OTHER if case.get("other") else RDF) + n) for n in ("first", "rest", "nil", "type")]


def build(case):
    """Triples and the heads and items of each of the lists."""
    triples = []
    odd = 0
    FIRST, REST, NIL, TYPE = vocabulary(case)
    heads, contents = [], []
    for n, entry in enumerate(case["lists"]):
        values = [
            heads[v[1]] if v[0] == "list" else freeze(v) for v in entry["items"]
        ]
        cells = [
            ("B", f"l{n}c{i}") if entry["cells"] == "B" else ("I", f"http://cells/{n}/{i}")
            for i in range(len(values))
        ]
        if entry["cells"] == "odd":
            # Each only once, of course.
            names = CELLS[entry["from"] :] + CELLS[: entry["from"]] if odd == 0 else []
            cells[: len(names)] = [("I", name) for name in names][: len(cells)]
            odd += 1
        end, following = NIL, []
        if entry["tail"] and heads:
            # Goes on with the list before.
            end, following = heads[-1], contents[-1]
        for i, (cell, value) in enumerate(zip(cells, values)):
            triples.append((cell, FIRST, value))
            triples.append((cell, REST, cells[i + 1] if i + 1 < len(cells) else end))
            if entry["extra"]:
                triples.append((cell, TYPE, ("I", RDF + "List")))
                triples.append((cell, ("I", "http://e.example/p"), value))
                triples.append((cell, ("I", RDFS + "label"), ("L", "cell", "en", None)))
        heads.append(cells[0] if cells else end)
        contents.append(values + following)
    for i in case["typed"]:
        triples.append((("I", "http://e.example/%d" % i), TYPE, ("I", CLS)))
    return list(dict.fromkeys(triples)), heads, contents


def described(terms, graph, value, typed):
    if isinstance(value, Resource):
        assert value.graph is graph
        node = terms.describe(value.subject)
        assert isinstance(value, Listed) == (node in typed), f"{value!r}"
        return node
    assert isinstance(value, Literal), f"{value!r} among the items"
    return terms.describe(value)


def body(case, rec):
    triples, heads, contents = build(case)
    words = vocabulary(case)
    terms = Terms()
    graph = Graph()
    order = case.get("order", 0)
    for t in triples if order == 0 else triples[::-1] if order == 1 else triples[::2] + triples[1::2]:
        graph.add(terms.triple(t))
    typed = {("I", "http://e.example/%d" % i) for i in case["typed"]}
    starts = []
    for head, content in zip(heads, contents):
        rec.interesting(
            len(content) > 1
            and any(c[0] != "L" or c[2] for c in content)
        )
        rec.label("%d items" % min(len(content), 4))
        node = terms.make(list(head))
        for cls in (OtherList, MyOtherList) if case.get("other") else (List, MyList):
            for start in (cls(graph, node), Resource(graph, node).as_(cls)):
                found = [described(terms, graph, v, typed) for v in islice(start, len(content) + 1)]
                assert found == content, f"{found}, not {content}"
                assert start.subject == node
                starts.append((start, head))
        is_cell = any(t[0] == head and t[1] == words[1] for t in triples)
        assert bool(cls.is_list(node, graph)) == is_cell
    assert set(terms.describe_all(graph)) == set(triples), "iteration changed the graph"
    if case.get("edits"):
        check_edited(case["edits"], triples, terms, graph, starts, typed, words)
        rec.label("edited")
    # Through Turtle and back: items of a kind that needs no blank nodes.
    content = [c for c in contents[-1] if c[0] != "B"]
    start = Graph()
    subject, predicate = ("I", "http://e.example/s"), ("I", "http://e.example/p")
    extra = [(subject, predicate, ("B", "x0") if content else NIL)]
    for i, value in enumerate(content):
        extra.append((("B", "x%d" % i), FIRST, value))
        extra.append((("B", "x%d" % i), REST, ("B", "x%d" % (i + 1)) if i + 1 < len(content) else NIL))
    for t in extra:
        start.add(terms.triple(t))
    f = StringIO()
    serialize_turtle(start, f)
    again = turtle_parser.parse(f.getvalue())
    (triple,) = again.match(terms.make(list(subject)), terms.make(list(predicate)))
    fresh = Terms()
    found = [described(fresh, again, v, set()) for v in islice(List(again, triple.object), len(content) + 1)]
    assert simple(found) == simple(content), f"{found}, not {content}, through {f.getvalue()}"


def walk(triples, head, vocabulary):
    """The items of a list."""
    FIRST, REST, NIL, _ = vocabulary
    first = {s: o for s, p, o in triples if p == FIRST}
    rest = {s: o for s, p, o in triples if p == REST}
    while head != NIL:
        yield first[head]
        head = rest[head]


def check_edited(edits, triples, terms, graph, starts, typed, vocabulary):
    """The same lists have other items once the graph has been changed."""
    FIRST, REST, NIL, _ = vocabulary
    model = set(triples)

    def swap(old, new):
        graph.remove(terms.triple(old))
        graph.add(terms.triple(new))
        model.discard(old)
        model.add(new)

    for k, (what, at, value) in enumerate(edits):
        links = [t for t in triples if t[1] == REST and t in model]
        if not links:
            return
        cell, _, following = links[at % len(links)]
        if what == "item":
            swap(next(t for t in model if t[:2] == (cell, FIRST)), (cell, FIRST, freeze(value)))
        elif what == "cut":
            swap((cell, REST, following), (cell, REST, NIL))
        else:
            new = ("B", "new%d" % k)
            for t in ((new, FIRST, freeze(value)), (new, REST, following)):
                graph.add(terms.triple(t))
                model.add(t)
            swap((cell, REST, following), (cell, REST, new))
        for start, head in starts:
            content = list(walk(model, head, vocabulary))
            found = [described(terms, graph, v, typed) for v in islice(start, len(content) + 1)]
            assert found == content, f"after {what}: {found}, not {content}"


@st.composite
def long_cases(draw):
    """A long list, out of a few items over and over or of different ones."""
    return {
        "count": draw(mined.sizes(1500)),
        "items": draw(st.lists(items().filter(lambda v: v[0] != "list"), min_size=1, max_size=3)),
        "numbers": draw(st.booleans()),
        "cells": draw(gen.pick("B", "B", "I")),
        "extra": draw(gen.ints(3)) == 3,
        "order": draw(gen.ints(2)),
        "typed": draw(st.lists(gen.ints(2), max_size=1)),
    }


def long_body(case, rec):
    n = case["count"]
    values = [case["items"][k % len(case["items"])] for k in range(n)]
    if case["numbers"]:
        values = [["L", str(k), None, XSD + "integer"] if k % 2 else v for k, v in enumerate(values)]
    entry = {"items": values, "cells": case["cells"], "extra": case["extra"], "tail": False}
    short = {"items": values[:2], "cells": "B", "extra": False, "tail": False}
    body({"lists": [short, entry], "typed": case["typed"], "order": case["order"]}, rec)


PROPS = [
    Prop("long", long_cases, long_body, quick=80, thorough=1000),
    Prop("lists", cases, body, quick=2500),
]
