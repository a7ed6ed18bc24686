"""C20: resources are instances of the classes registered for their types."""

import itertools

from hypothesis import strategies as st

from pbt import gen, mined
from pbt.core import Prop
from pbt.terms import RDF, Terms, freeze

from pymantic.primitives import BlankNode, Graph, Literal, NamedNode, Triple
from pymantic.rdf import Resource, register_class

ID = "C20"
RULE = (
    "A case is a history: classes of a generated hierarchy are defined and registered for"
    " RDF types, also more than once, type triples are added to and removed from a graph, nodes are classified,"
    " created with new(), copied and erased, and in_graph and is_a are asked, in between"
    " one another. A node has to be an instance of exactly the classes that are registered"
    " for its types at that time (and of their superclasses). Non-trivial: a node with two"
    " or more types that have classes is classified, or was classified before its types"
    " or classes changed."
)

TYPE = ("I", RDF + "type")
counter = itertools.count()


def ops():
    index = gen.ints(3)
    kind = gen.ints(3)
    node = gen.pick(("I", "n0"), ("I", "n0"), ("B", "0"), ("I", "n1")).map(list)
    return st.one_of(
        st.tuples(st.just("class"), st.lists(index, max_size=2), kind, st.booleans()),
        st.tuples(st.just("class"), st.lists(index, max_size=1), kind, st.just(True)),
        st.tuples(st.just("register"), index, kind),
        st.tuples(st.just("type"), node, kind),
        st.tuples(st.just("type"), node, kind),
        st.tuples(st.just("type"), node, kind),
        st.tuples(st.just("type"), node, kind),
        st.tuples(st.just("untype"), node, kind),
        st.tuples(st.just("classify"), node),
        st.tuples(st.just("classify"), node),
        st.tuples(st.just("new"), index, st.one_of(st.none(), node), st.booleans()),
        st.tuples(st.just("in_graph"), index),
        st.tuples(st.just("is_a"), index, node),
        st.tuples(st.just("copy"), node, node, st.booleans()),
        st.tuples(st.just("erase"), node),
        st.tuples(st.just("fact"), node, node, gen.pick("p", "p", "rest", "first", "value")),
        st.tuples(st.just("read"), node),
        st.tuples(st.just("quiet"), gen.ints(3)),
    ).map(list)


def cases():
    start = [
        ["class", [], 0, True],
        ["class", [], 1, True],
        ["class", [0], 2, True],
    ]
    return st.tuples(st.booleans(), gen.histories(ops(), 20).map(lambda h: start + h)).map(list)


class State:
    def __init__(self):
        self.ns = "http://case%d.example/" % next(counter)
        self.terms = Terms()
        self.graph = Graph()
        self.triples = set()
        self.classes = []  # (class, set of all its types, indices of its superclasses)
        self.registered = {}  # type to index of class
        self.combined = []  # instances of combined classes, with their nodes
        self.seen = {}  # node to types and classes it was classified with

    def iri(self, name):
        return ("I", self.ns + name)

    def term(self, node):
        kind, name = node
        return ("B", name) if kind == "B" else self.iri(name)

    def types(self, node):
        return {o for s, p, o in self.triples if s == node and p == TYPE}

    def add(self, *triple):
        self.triples.add(triple)
        self.graph.add(self.terms.triple(triple))

    def define(self, bases, type_index, registers):
        if not self.classes:
            bases = []
        chosen = sorted({b % len(self.classes) for b in bases}, reverse=True) if bases else []
        # More than one superclass only if they have none themselves, or else Python
        # may not find an order for the superclasses of a combination of classes.
        if any(len(self.classes[b][2]) > 1 for b in chosen):
            chosen = chosen[:1]
        parents = tuple(self.classes[b][0] for b in chosen) or (Resource,)
        index = len(self.classes)
        cls = type(Resource)("K%d" % index, parents, {"prefixes": {"t": self.ns}})
        supers = {index}.union(*(self.classes[b][2] for b in chosen)) if chosen else {index}
        self.classes.append([cls, None, supers])
        if registers:
            self.register(index, type_index)

    def register(self, index, type_index):
        cls = self.classes[index][0]
        own = self.iri("T%d" % type_index)
        spelled = "t:T%d" % type_index if type_index & 1 else own[1]
        assert register_class(spelled)(cls) is cls
        self.registered[own] = index
        self.classes[index][1] = own

    def instance_indices(self, node):
        """Indices of the classes that a node has to be an instance of."""
        result = set()
        for t in self.types(node):
            if t in self.registered:
                result |= self.classes[self.registered[t]][2]
        return result

    def check_instance(self, value, node):
        assert isinstance(value, Resource) and value.graph is self.graph
        assert self.terms.describe(value.subject) == node
        wanted = self.instance_indices(node)
        for i, (cls, _, _) in enumerate(self.classes):
            assert isinstance(value, cls) == (i in wanted), (
                f"{type(value).__mro__} for {self.types(node)}, class {i}"
            )
        if not wanted:
            assert type(value) is Resource

    def own_type(self, index):
        """The type of a class: its own, or else the one that it inherits."""
        own = {cls: own for cls, own, _ in self.classes}
        for cls in self.classes[index][0].__mro__:
            if own.get(cls) is not None:
                return own[cls]

    def check_combined(self):
        """Instances of combined classes made before may not be what they were any more."""
        for value, node in self.combined:
            needed = {self.terms.describe(t) for t in value.rdf_classes}
            assert bool(value.is_a()) == (needed <= self.types(node)), (needed, node)
            members = {self.terms.describe(r.subject) for r in type(value).in_graph(self.graph)}
            assert members == {t[0] for t in self.triples if needed <= self.types(t[0])}, members

    def check(self):
        found = self.terms.describe_all(self.graph)
        assert len(found) == len(set(found)) and set(found) == self.triples, (
            f"{set(found) ^ self.triples}"
        )


def body(case, rec):
    state = State()
    eager, history = case
    quiet = 0
    for op in history:
        if op[0] == "quiet":
            # Nobody looks in between the next steps.
            quiet = 1 + op[1]
            continue
        step(state, op, rec)
        quiet = max(0, quiet - 1)
        if quiet:
            continue
        state.check()
        state.check_combined()
        if eager:
            classify_all(state, rec)
    state.check()
    state.check_combined()
    classify_all(state, rec)


def classify_all(state, rec):
    for node in (["I", "n0"], ["B", "0"], ["I", "n1"]):
        step(state, ["classify", node], rec)


def step(state, op, rec):
    name = op[0]
    rec.label(name)
    terms, graph = state.terms, state.graph
    if name == "class":
        if len(state.classes) < 7:
            state.define(*op[1:])
    elif name == "register":
        # Another type for it, which may have been that of another class.
        state.register(op[1] % len(state.classes), op[2])
    elif name == "type":
        state.add(state.term(op[1]), TYPE, state.iri("T%d" % op[2]))
    elif name == "untype":
        triple = (state.term(op[1]), TYPE, state.iri("T%d" % op[2]))
        if triple in state.triples:
            state.triples.remove(triple)
            graph.remove(terms.triple(triple))
    elif name == "fact":
        predicate = state.iri("p") if op[3] == "p" else ("I", RDF + op[3])
        state.add(state.term(op[1]), predicate, state.term(op[2]))
    elif name == "classify":
        node = state.term(op[1])
        known = {state.registered[t] for t in state.types(node) if t in state.registered}
        situation = (frozenset(state.types(node)), frozenset(known))
        rec.interesting(len(known) > 1)
        rec.interesting(bool(known) and state.seen.get(node, situation) != situation)
        state.seen[node] = situation
        for cls in (Resource, state.classes[0][0]):
            value = cls.classify(graph, terms.make(list(node)))
            state.check_instance(value, node)
        if len(known) > 1 and type(value) not in [c for c, _, _ in state.classes]:
            state.combined = state.combined[-2:] + [(value, node)]
        assert Resource.classify(graph, None) is None
        literal = Literal("x")
        assert Resource.classify(graph, literal) is literal
    elif name == "read":
        node = state.term(op[1])
        values = list(Resource(graph, terms.make(list(node)))[state.ns + "p"])
        for value in values:
            state.check_instance(value, terms.describe(value.subject))
        assert len(values) == len({t for t in state.triples if t[:2] == (node, state.iri("p"))})
    elif name == "new":
        cls, _, _ = state.classes[op[1] % len(state.classes)]
        own = state.own_type(op[1] % len(state.classes))
        if own is None:
            return
        if op[2] is None:
            resource = cls.new(graph)
            assert isinstance(resource.subject, BlankNode)
            node = terms.describe(resource.subject)
        else:
            node = state.term(op[2])
            subject = terms.make(list(node))
            if op[3] and node[0] == "I":
                subject = str(subject)
            resource = cls.new(graph, subject)
        assert type(resource) is cls and resource.graph is graph
        assert terms.describe(resource.subject) == node
        state.triples.add((node, TYPE, own))
        assert resource.is_a() is True
    elif name == "in_graph":
        cls, _, _ = state.classes[op[1] % len(state.classes)]
        own = state.own_type(op[1] % len(state.classes))
        if own is None:
            return
        found = cls.in_graph(graph)
        assert all(type(r) is cls and r.graph is graph for r in found)
        nodes = sorted(terms.describe(r.subject) for r in found)
        assert nodes == sorted(s for s, p, o in state.triples if p == TYPE and o == own), nodes
    elif name == "is_a":
        cls, _, _ = state.classes[op[1] % len(state.classes)]
        own = state.own_type(op[1] % len(state.classes))
        if own is None:
            return
        node = state.term(op[2])
        resource = cls(graph, terms.make(list(node)))
        assert bool(resource.is_a()) == (own in state.types(node))
        # A combined class has all of the types that it is made of.
        value = Resource.classify(graph, terms.make(list(node)))
        combined = type(value)
        # A class that was registered more than once stands for the last of its types.
        last = [state.own_type(i) for i, (c, _, _) in enumerate(state.classes) if c is combined]
        assert bool(value.is_a()) == (set(last) <= state.types(node))
        if len({state.registered[t] for t in state.types(node) if t in state.registered}) > 1 and (
            combined not in [c for c, _, _ in state.classes]
        ):
            state.combined.append((value, node))
            needed = {state.terms.describe(t) for t in combined.rdf_classes}
            members = {terms.describe(r.subject) for r in combined.in_graph(graph)}
            assert node in members
            assert all(needed <= state.types(m) for m in members), (needed, members)
            assert needed >= state.types(node) & set(state.registered), needed
            assert members == {
                s
                for s, p, o in state.triples
                if needed <= state.types(s)
            }
            # A new instance of it has all that makes it one.
            made = combined.new(graph, terms.make(list(state.iri("made"))))
            state.triples.update((state.iri("made"), TYPE, t) for t in needed)
            assert type(made) is combined and made.is_a() is True
            state.check_instance(made.classify(graph, made.subject), state.iri("made"))
    elif name == "copy":
        source, target = state.term(op[1]), state.term(op[2])
        resource = Resource(graph, terms.make(list(source)))
        for s, p, o in list(state.triples):
            if s == source:
                state.triples.add((target, p, o))
        given = terms.make(list(target))
        if target[0] == "I" and len(op) > 3 and op[3]:
            given = target[1]  # a string will do
        result = resource.copy(given)
        state.check_instance(result, target)
    elif name == "erase":
        node = state.term(op[1])
        Resource(graph, terms.make(list(node))).erase()
        state.triples = {t for t in state.triples if t[0] != node}


def many_cases():
    return st.fixed_dictionaries(
        {
            "classes": st.one_of(st.integers(1, 5), mined.sizes(60)),
            "instances": st.one_of(st.integers(1, 5), mined.sizes(300)),
            "types": st.one_of(st.integers(0, 3), st.integers(0, 3), mined.sizes(40)),
            "deep": st.booleans(),
            "step": st.integers(1, 50),
            "removed": st.integers(1, 5),
        }
    )


def many_body(case, rec):
    """Many classes, side by side or each the superclass of the next; many resources
    that have some of the types."""
    n, m, count, step = case["classes"], case["instances"], case["types"], case["step"]
    rec.interesting(max(n, m, count) > 20)
    rec.label("deep" if case["deep"] else "side by side")
    state = State()
    for i in range(n):
        parent = Resource if i == 0 or not case["deep"] else state.classes[-1][0]
        cls = type(Resource)("K%d" % i, (parent,), {"prefixes": {"t": state.ns}})
        register_class("t:T%d" % i if i % 2 else state.ns + "T%d" % i)(cls)
        own = state.iri("T%d" % i)
        state.registered[own] = i
        state.classes.append([cls, own, set(range(i + 1)) if case["deep"] else {i}])
    nodes = [state.iri("n%d" % k) if k % 3 else ("B", "n%d" % k) for k in range(m)]
    for k, node in enumerate(nodes):
        for j in range(count if k % 5 == 0 else min(count, 2)):
            # Some types have no class.
            state.add(node, TYPE, state.iri("T%d" % ((k + j * step) % (n + 2))))
        state.add(state.iri("hub"), state.iri("p"), node)
        state.add(node, state.iri("q"), ("L", str(k), None, None))

    def look():
        for k in sorted({*range(0, m, 1 + m // 25), m - 1}):
            node = nodes[k]
            for cls in (Resource, state.classes[k % n][0]):
                value = cls.classify(state.graph, state.terms.make(list(node)))
                state.check_instance(value, node)
        everything = list(Resource(state.graph, state.terms.make(list(state.iri("hub"))))[state.ns + "p"])
        assert sorted(state.terms.describe(r.subject) for r in everything) == sorted(nodes)
        for r in everything[:: 1 + m // 10]:
            state.check_instance(r, state.terms.describe(r.subject))
        for i in sorted({0, n // 2, n - 1}):
            cls, own, _ = state.classes[i]
            found = cls.in_graph(state.graph)
            assert all(type(r) is cls for r in found)
            found = sorted(state.terms.describe(r.subject) for r in found)
            assert found == sorted(s for s, p, o in state.triples if p == TYPE and o == own), i

    look()
    gone = [t for t in sorted(state.triples, key=repr) if t[1] == TYPE][:: case["removed"]]
    for triple in gone:
        state.triples.remove(triple)
        state.graph.remove(state.terms.triple(triple))
    look()
    state.check()


PROPS = [
    Prop("many", many_cases, many_body, quick=80, thorough=1500),
    Prop("histories", cases, body, quick=4000),
]
