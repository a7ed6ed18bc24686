"""C28: a graph survives any history of edits and conversions between formats."""

from io import StringIO

from hypothesis import strategies as st

from pbt import gen, large, near
from pbt.core import Prop
from pbt.ntref import as_uri
from pbt.terms import (
    RDF,
    RDFS,
    Terms,
    assert_same,
    difference,
    freeze,
    mapping,
    simple,
)

from pymantic.parsers import nquads_parser, ntriples_parser, turtle_parser
from pymantic.primitives import (
    Dataset,
    Graph,
    NamedNode,
    PrefixMap,
    Profile,
    Triple,
    q_as_t,
    t_as_q,
)
from pymantic.rdf import Resource
from pymantic.serializers import serialize_nquads, serialize_ntriples, serialize_turtle

ID = "C28"
RULE = (
    "A case is a history of edits (triples added, removed and removed by pattern, graphs"
    " merged, predicates of resources assigned and deleted) and conversions: the graph is"
    " written as N-Triples, N-Quads (as one of a dataset's graphs, named or not) or Turtle (with prefixes"
    " and a base, or not) and read back, and the history goes on with what was read, or with the same graph (look). After"
    " each step the graph must be that of a model in which conversions do nothing, but for"
    " the identity of blank nodes. Non-trivial: there are two or more conversions of three"
    " or more triples, with an edit in between."
)
ASSUMPTIONS = ["IRIs are absolute and consist of characters that are legal in URIs."]

NS = "http://ex.example/ns#"
POOL = tuple(NS + n for n in ("a", "b", "c.d", "e%20f", "", "1")) + (
    "http://ex.example/",
    "http://ex.example/dir/x?y=z&w#v",
    "urn:x:y",
    RDF + "nil",
    RDF + "first",
    RDFS + "label",
)
PREDICATES = (NS + "p", NS + "q", RDF + "type", RDF + "first", RDF + "rest", RDFS + "label")


def iris():
    return st.one_of(
        gen.pick(*POOL), gen.pick(*POOL), gen.iris().map(as_uri)
    ).map(lambda i: ["I", i])


def literals():
    return gen.literals().map(
        lambda t: [*t[:3], as_uri(t[3]) if t[3] is not None else None]
    )


def triples():
    return st.tuples(
        st.one_of(iris(), gen.nodes(3)),
        gen.pick(*PREDICATES).map(lambda i: ["I", i]),
        st.one_of(iris(), gen.nodes(3), gen.nodes(3), literals()),
    ).map(list)


def maybe(strategy):
    return st.one_of(st.none(), strategy)


def ops():
    prefixes = st.lists(
        st.tuples(gen.pick("", "ex", "a", "rdfs"), gen.pick(NS, NS + "c", "http://ex.example/", RDFS)).map(list),
        max_size=3,
    )
    # Patterns and resources of the statements that are there, by position.
    at = gen.ints(30)
    return st.one_of(
        st.tuples(st.just("add"), gen.several(triples(), 6)),
        st.tuples(st.just("add"), gen.several(triples(), 6)),
        st.tuples(st.just("remove"), at),
        st.tuples(st.just("match"), at, gen.pick("s", "p", "o", "sp", "po", "so")),
        st.tuples(st.just("merge"), gen.several(triples(), 4)),
        st.tuples(st.just("set"), at, st.lists(st.one_of(iris(), literals()), max_size=3)),
        st.tuples(st.just("delete"), at),
        st.tuples(st.just("ntriples")),
        st.tuples(st.just("nquads"), maybe(iris()), gen.several(triples(), 4), st.booleans(), st.booleans()),
        st.tuples(st.just("turtle"), maybe(prefixes), gen.pick(None, "http://ex.example/", "http://ex.example/dir/z")),
        st.tuples(st.just("turtle"), maybe(prefixes), st.none()),
        st.tuples(st.just("look"), gen.pick("ntriples", "nquads", "turtle")),
        st.tuples(st.just("swap"), at, triples()),
        st.tuples(st.just("near"), at, gen.ints(200)),
        st.tuples(st.just("import"), at, gen.ints(3)),
    ).map(list)


def cases():
    return st.tuples(
        gen.several(triples(), 6),
        gen.histories(ops(), 12),
    ).map(list)


class State:
    def __init__(self):
        self.terms = Terms()
        self.graph = Graph()
        self.model = set()

    def add(self, triple):
        self.graph.add(self.terms.triple(triple))
        self.model.add(freeze(triple))

    def check(self, what):
        found = self.terms.describe_all(self.graph)
        assert len(found) == len(set(found)), what
        assert set(found) == self.model, f"{what}: {difference(self.model, found)}"
        for i, method in enumerate((self.graph.subjects, self.graph.predicates, self.graph.objects)):
            found = {self.terms.describe(t) for t in method()}
            assert found == {t[i] for t in self.model}, f"{what}: {method.__name__}"
        for t in sorted(self.model, key=repr)[:3]:
            for mask in range(1, 7):
                pattern = [self.terms.make(x) if mask >> i & 1 else None for i, x in enumerate(t)]
                found = set(self.terms.describe_all(self.graph.match(*pattern)))
                wanted = {m for m in self.model if all(not mask >> i & 1 or m[i] == t[i] for i in range(3))}
                assert found == wanted, f"{what}: match by {mask} of {t}: {difference(wanted, found)}"

    def replace(self, graph, what, form=lambda t: t):
        """Go on with a graph that should be the same."""
        terms = Terms()
        model = {form(t) for t in self.model}
        found = terms.describe_all(graph)
        assert len(set(found)) == len(found), what
        assert_same(model, {form(t) for t in found}, what)
        names = mapping({form(t) for t in found}, model)
        back = {node: other[1] for node, other in names.items()}
        self.terms = Terms()
        for (_, label), name in back.items():
            node = terms.nodes[label]
            self.terms.nodes[name] = node
            self.terms.labels[node] = name
        self.graph = graph
        self.model = set(self.terms.describe_all(graph))


def body(case, rec):
    start, history = case
    state = State()
    for triple in start:
        state.add(triple)
    conversions = 0
    edited = False
    for op, *rest in history:
        model = state.model
        ordered = sorted(model, key=repr)
        chosen = ordered[rest[0] % len(ordered)] if ordered and rest and isinstance(rest[0], int) else None
        if op in ("ntriples", "nquads", "turtle"):
            rec.label(op)
            if len(model) > 2 and (edited or not conversions):
                conversions += 1
                edited = False
            convert(state, op, rest)
            continue
        if op == "look":
            look(state, rest[0])
            continue
        edited = True
        if op == "add":
            for triple in rest[0]:
                state.add(triple)
        elif op == "merge":
            other = Graph()
            for triple in rest[0]:
                other.add(state.terms.triple(triple))
                model.add(freeze(triple))
            state.graph = state.graph.merge(other)
        elif chosen is None:
            continue
        elif op == "remove":
            state.graph.remove(state.terms.triple(chosen))
            model.discard(chosen)
        elif op == "swap":
            if freeze(rest[1]) not in model:
                state.graph.remove(state.terms.triple(chosen))
                model.discard(chosen)
                state.add(rest[1])
        elif op == "near":
            # Something that isn't quite what is there.
            place = rest[1] % 3
            new = list(chosen)
            new[place] = near.term(list(chosen[place]), rest[1] // 3)
            new = [["I", as_uri(t[1])] if t[0] == "I" else [*t[:3], t[3] and as_uri(t[3])] if t[0] == "L" else t for t in new]
            state.add(new)
        elif op == "import":
            # Go on with one of two that are the same now, whatever becomes of the other.
            other = Graph().addAll(state.graph)
            if rest[1] % 2:
                state.graph, other = other, state.graph
            if rest[1] > 1:
                other.removeMatches(None, None, None)
            else:
                other.remove(state.terms.triple(chosen))
            other.add(Triple(NamedNode("urn:aside"), NamedNode("urn:aside"), NamedNode("urn:aside")))
        elif op == "match":
            pattern = [t if k in rest[1] else None for k, t in zip("spo", chosen)]
            state.graph.removeMatches(*(state.terms.make(t) for t in pattern))
            state.model = {
                t for t in model if not all(a is None or a == b for a, b in zip(pattern, t))
            }
        else:
            s, p, _ = chosen
            if p[1] == RDFS + "label":
                continue  # a scalar
            resource = Resource(state.graph, state.terms.make(s))
            state.model = {t for t in model if t[:2] != (s, p)}
            if op == "delete":
                del resource[p[1]]
            else:
                values = [state.terms.make(t) for t in rest[1]]
                resource[p[1]] = values
                state.model |= {(s, p, freeze(t)) for t in rest[1]}
        state.check(op)
    state.check("the end")
    rec.interesting(conversions > 1)


def look(state, op):
    """What is written is what there is now; the history goes on with the same graph."""
    f = StringIO()
    form = freeze
    if op == "ntriples":
        serialize_ntriples(state.graph, f)
        found = ntriples_parser.parse(f.getvalue())
    elif op == "turtle":
        serialize_turtle(state.graph, f)
        found = turtle_parser.parse(f.getvalue())
        form = simple
    else:
        dataset = Dataset()
        dataset.addAll(t_as_q(None, t) for t in state.graph)
        serialize_nquads(dataset, f)
        found = map(q_as_t, nquads_parser.parse(f.getvalue()))
    found = {form(t) for t in Terms().describe_all(found)}
    assert_same({form(t) for t in state.model}, found, f.getvalue())


def convert(state, op, rest):
    f = StringIO()
    before = set(state.graph)
    if op == "ntriples":
        serialize_ntriples(state.graph, f)
        state.replace(ntriples_parser.parse(f.getvalue()), f.getvalue())
    elif op == "turtle":
        prefixes, base = rest
        options = {}
        if prefixes is not None:
            options["profile"] = Profile(PrefixMap(prefixes))
        if base is not None:
            options["base"] = base
        serialize_turtle(state.graph, f, **options)
        assert set(state.graph) == before
        # In Turtle, plain literals are those of type xsd:string.
        state.replace(turtle_parser.parse(f.getvalue()), f.getvalue(), simple)
    else:
        name, others, stream, *whole = rest
        name = None if name is None else state.terms.make(name)
        whole = name is not None and any(whole)
        dataset = Dataset()
        if whole:
            dataset.add_graph(state.graph, name)
        else:
            for triple in state.graph:
                dataset.add(t_as_q(name, triple))
        aside = NamedNode("http://aside.example/")
        for triple in others:
            dataset.add(t_as_q(aside, state.terms.triple(triple)))
        serialize_nquads(dataset, f)
        text = f.getvalue()
        result = nquads_parser.parse(StringIO(text) if stream else text)
        graph = Graph()
        rest = []
        for quad in result:
            if quad.graph == aside:
                rest.append(quad)
            else:
                assert quad.graph == name, f"{quad!r} in place of {name!r}"
                graph.add(q_as_t(quad))
        assert len(rest) == len(gen.unique(others)), text
        if whole and len(graph):
            # Go on with a graph that has a name, and is still in a dataset.
            (graph,) = (g for g in result.graphs if g.uri == name)
        state.replace(graph, text)


def large_cases():
    return st.tuples(
        large.specs(400),
        gen.several(triples(), 6),
        st.lists(ops(), min_size=2, max_size=6),
    ).map(list)


def large_body(case, rec):
    spec, start, history = case
    body([start + [list(map(list, t)) for t in large.triples(spec)], history], rec)


PROPS = [
    Prop("large", large_cases, large_body, quick=80, thorough=1500),
    Prop("histories", cases, body, quick=3000),
]
