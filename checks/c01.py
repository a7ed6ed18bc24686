"""C01: a Graph is a set of triples, whatever its history."""

from collections import Counter
from itertools import islice, product

from hypothesis import strategies as st

from pbt import gen, large, near
from pbt.core import Prop
from pbt.terms import Terms, freeze

from pymantic.primitives import Graph, NamedNode, Quad, Triple

ID = "C01"
RULE = (
    "A case is a history of add/remove/addAll/removeMatches/match calls on one"
    " graph over a small pool of terms plus arbitrary ones (checked after every"
    " call against a set of triples), ending in an exhaustive comparison of all"
    " eight match patterns over the terms used. Non-trivial: at least one triple"
    " is removed while others stay, and at least one pattern with 1 or 2 bound"
    " positions has between 1 and all-but-one of the triples as its answer; some histories go"
    " on for up to three calls without being looked at, or swap one triple for another. order: adding"
    " in another order makes the same graph. large: graphs of up to thousands of triples"
    " with many subjects, predicates or objects (sizes include those the code compares"
    " with) are filled, thinned out and asked in all ways; non-trivial from 20 triples on."
)

POOL_IRI = ["http://e/1", "http://e/2", "http://e/3", "http://e/4", "", "a", "_:b0", "é"]
POOL_LITERAL = [
    ["L", "a", None, None],
    ["L", "a", "en", None],
    ["L", "a", "en-us", None],
    ["L", "a", None, "http://www.w3.org/2001/XMLSchema#string"],
    ["L", "", None, None],
    ["L", "1", None, "http://www.w3.org/2001/XMLSchema#integer"],
    ["L", "http://e/1", None, None],
]


def iri():
    return st.one_of(
        st.sampled_from([["I", i] for i in POOL_IRI[:3]]),
        st.sampled_from([["I", i] for i in POOL_IRI]),
        gen.named(),
    )


def node():
    return gen.nodes(3)


def triples():
    return st.tuples(
        st.one_of(iri(), iri(), node()),
        iri(),
        st.one_of(iri(), node(), st.sampled_from(POOL_LITERAL), gen.literals()),
    ).map(list)


def patterns():
    """A pattern is a triple and which of its positions are bound."""
    return st.tuples(triples(), st.integers(0, 7)).map(list)


def ops():
    index = st.integers(0, 50)
    return st.one_of(
        st.tuples(st.just("add"), triples()),
        st.tuples(st.just("add"), triples()),
        st.tuples(st.just("remove"), index),
        st.tuples(st.just("remove"), index),
        st.tuples(st.just("readd"), index),
        st.tuples(st.just("absent"), triples()),
        st.tuples(st.just("addAll"), st.lists(triples(), max_size=6), st.integers(0, 3)),
        st.tuples(st.just("removeMatches"), patterns()),
        st.tuples(st.just("removeMatchesOf"), index, st.integers(0, 7)),
        st.tuples(st.just("match"), patterns()),
        st.tuples(st.just("matchOf"), index, st.integers(0, 7)),
        st.tuples(st.just("addAll"), st.lists(triples(), max_size=6), st.integers(0, 3)),
        st.tuples(st.just("near"), index, st.integers(0, 3 * 4 * 28)),
        st.tuples(st.just("quiet"), st.integers(1, 3)),
        st.tuples(st.just("swap"), index, triples()),
    ).map(list)


def strategy():
    return st.tuples(
        st.one_of(st.none(), st.sampled_from(["http://e/g", "urn:g", "é"])),
        st.one_of(
            gen.histories(ops(), 16),
            gen.histories(ops(), 16),
            st.tuples(
                st.tuples(st.just("bulk"), st.integers(1, 80), st.integers(1, 7)).map(list),
                gen.histories(ops(), 8),
            ).map(lambda h: [h[0]] + h[1]),
        ),
    ).map(list)


def near_statement(statement, how):
    place = how % len(statement)
    new = near.term(statement[place], how // 3)
    return statement[:place] + (freeze(new),) + statement[place + 1 :]


def select(model, pattern, mask):
    return {
        t
        for t in model
        if all(not mask >> i & 1 or t[i] == pattern[i] for i in range(3))
    }


def query(graph, terms, pattern, mask, keywords=False):
    args = [terms.make(pattern[i]) if mask >> i & 1 else None for i in range(3)]
    if keywords:
        names = ("subject", "predicate", "object")
        result = graph.match(
            **{n: a for n, a in zip(names, args) if a is not None}
        )
    else:
        result = graph.match(*args)
    result = list(islice(result, len(graph) + 1))
    for t in result:
        assert isinstance(t, Triple), f"match yields {t!r}"
        assert t in graph
    found = terms.describe_all(result)
    assert len(set(found)) == len(found), f"match yields {found} more than once"
    return set(found)


def check_contents(graph, terms, model):
    """Everything a graph says about its contents agrees with the model."""
    assert len(graph) == len(model), (len(graph), len(model))
    found = terms.describe_all(islice(graph, len(model) + 1))
    assert len(found) == len(set(found)) and set(found) == model
    assert set(terms.describe_all(graph.toArray())) == model
    for name, position in (("subjects", 0), ("predicates", 1), ("objects", 2)):
        listed = [terms.describe(t) for t in islice(getattr(graph, name)(), 10000)]
        expected = {t[position] for t in model}
        assert len(listed) == len(set(listed)), (name, listed)
        assert set(listed) == expected, (name, set(listed) ^ expected)


def fill(count, width):
    return [
        [
            ["I", "http://n/%d" % (i % width)],
            ["I", "http://p/%d" % (i % 3)],
            ["L", str(i), None, None],
        ]
        for i in range(count)
    ]


def body(case, rec):
    uri, history = case
    terms = Terms()
    graph = Graph() if uri is None else Graph(uri)
    assert graph.uri == uri and (uri is None) == (graph.uri is None)
    model = set()
    removed_some = False
    quiet = 0

    def at(index):
        ordered = sorted(model, key=repr)
        return ordered[index % len(ordered)] if ordered else None

    for op in history:
        before = set(model)
        kind = op[0]
        rec.label(kind)
        if kind == "quiet":
            # Nobody looks at the graph in between the next calls.
            quiet = 1 + op[1]
        if kind == "add":
            assert graph.add(terms.triple(op[1])) is graph
            model.add(freeze(op[1]))
        elif kind == "swap":
            # As many as there were.
            t, new = at(op[1]), freeze(op[2])
            if t is not None and new not in model:
                graph.remove(terms.triple(t))
                graph.add(terms.triple(new))
                model.discard(t)
                model.add(new)
        elif kind == "near":
            # Something that isn't quite what is there.
            t = at(op[1])
            if t is not None:
                t = near_statement(t, op[2])
                assert (terms.triple(t) in graph) == (t in model)
                graph.add(terms.triple(t))
                model.add(t)
        elif kind == "readd":
            if model:
                assert graph.add(terms.triple(at(op[1]))) is graph
        elif kind == "remove":
            t = at(op[1])
            if t is not None:
                assert graph.remove(terms.triple(t)) is graph
                model.discard(t)
        elif kind == "absent":
            t = freeze(op[1])
            assert (terms.triple(t) in graph) == (t in model)
            if t not in model:
                # Whether that raises is not specified; that it does nothing is.
                try:
                    graph.remove(terms.triple(t))
                except Exception:
                    pass
        elif kind in ("addAll", "bulk"):
            new = op[1] if kind == "addAll" else fill(op[1], op[2])
            made = [terms.triple(t) for t in new]
            how = op[2] % 4
            if how == 1:
                made = set(made)
            elif how == 2:
                made = (t for t in made)
            elif how == 3:
                source = Graph()
                for t in made:
                    source.add(t)
                made = source
            assert graph.addAll(made) is graph
            model.update(freeze(new))
        elif kind in ("removeMatches", "removeMatchesOf"):
            if kind == "removeMatches":
                pattern, mask = op[1]
                pattern = freeze(pattern)
            else:
                pattern, mask = at(op[1]), op[2]
            if pattern is not None:
                gone = select(model, pattern, mask)
                args = [terms.make(pattern[i]) if mask >> i & 1 else None for i in range(3)]
                assert graph.removeMatches(*args) is graph
                model -= gone
        elif kind in ("match", "matchOf"):
            if kind == "match":
                pattern, mask = op[1]
                pattern = freeze(pattern)
            else:
                pattern, mask = at(op[1]), op[2]
            if pattern is not None:
                expected = select(model, pattern, mask)
                assert query(graph, terms, pattern, mask) == expected
        if before - model and model:
            removed_some = True
        quiet = max(0, quiet - 1)
        if quiet:
            continue
        check_contents(graph, terms, model)
        for t in islice(sorted(before ^ model, key=repr), 3):
            for mask in range(8):
                expected = select(model, t, mask)
                assert query(graph, terms, t, mask) == expected, (op, t, mask)
            made = terms.triple(t)
            assert (made in graph) == (t in model)
            assert Quad(*made, made.subject) not in graph, "a quad is no triple"
        assert graph.uri == uri and (uri is None) == (graph.uri is None)

    used = [sorted({t[i] for t in model}, key=repr) for i in range(3)]
    partial = False
    strangers = (("I", "http://none"), ("I", ""), ("L", "none", None, None))
    for mask in range(8):
        choices = [
            [u for u in used[i][:6]] + [strangers[i]] if mask >> i & 1 else [None]
            for i in range(3)
        ]
        for n, pattern in enumerate(islice(product(*choices), 60)):
            expected = select(model, pattern, mask)
            assert query(graph, terms, pattern, mask, n % 2) == expected, (pattern, mask)
            if mask in (1, 2, 3, 4, 5, 6) and 0 < len(expected) < len(model):
                partial = True
    # Asking did not change anything.
    check_contents(graph, terms, model)
    rec.interesting(removed_some and partial)
    rec.label("named" if uri is not None else "unnamed", f"size {min(len(model), 40) // 10}x10")


def equal_strategy():
    return gen.several(triples(), 8).flatmap(
        lambda t: st.tuples(st.just(t), st.permutations(t)).map(list)
    )


def equal_body(case, rec):
    """The order and number of times triples are added makes no difference."""
    first, second = case
    terms = Terms()
    a, b = Graph(), Graph()
    for t in first:
        a.add(terms.triple(t))
    for t in second + second[:3]:
        b.add(terms.triple(t))
    assert a.toArray() == b.toArray()
    assert len(a) == len(b) == len(set(freeze(first)))
    for t in first:
        assert terms.triple(t) in a and terms.triple(t) in b
        assert {x for x in a.match(None, terms.make(t[1]))} == {
            x for x in b.match(None, terms.make(t[1]))
        }
        assert Triple(NamedNode("http://nowhere"), *terms.triple(t)[1:]) not in a
    rec.interesting(len(set(freeze(first))) > 1)


def large_body(spec, rec):
    """Many triples, removed in part, taken stock of in all ways."""
    everything = large.triples(spec)
    terms = Terms()
    graph = Graph()
    model = set()

    def check():
        assert len(graph) == len(model), f"{len(graph)}, not {len(model)}"
        assert set(terms.describe_all(graph)) == model
        for i, method in enumerate((graph.subjects, graph.predicates, graph.objects)):
            found = list(method())
            assert len(found) == len({t[i] for t in model})
            assert {terms.describe(x) for x in found} == {t[i] for t in model}
            by_term = {}
            for t in model:
                by_term.setdefault(t[i], set()).add(t)
            for x in [*islice(by_term, 12), max(by_term, key=lambda x: len(by_term[x]), default=None)]:
                if x is not None:
                    pattern = [None] * 3
                    pattern[i] = terms.make(x)
                    found = terms.describe_all(graph.match(*pattern))
                    assert len(found) == len(by_term[x]) and set(found) == by_term[x], x
        for t in islice(model, 12):
            for mask in range(1, 8):
                pattern = [terms.make(t[i]) if mask >> i & 1 else None for i in range(3)]
                wanted = select(model, t, mask)
                found = terms.describe_all(graph.match(*pattern))
                assert len(found) == len(wanted) and set(found) == wanted, (t, mask)

    for t in everything:
        graph.add(terms.triple(t))
    model |= set(everything)
    check()
    for t in everything:
        assert terms.triple(t) in graph
    for t in everything[:: 1 + spec["step"] % 3]:
        graph.remove(terms.triple(t))
        model.discard(t)
    check()
    for t in everything:
        assert (terms.triple(t) in graph) == (t in model)
    graph.addAll([terms.triple(t) for t in everything])
    model |= set(everything)
    check()
    for i in range(3):
        # Remove everything there is about the term that is used most.
        uses = Counter(t[i] for t in model)
        for x, _ in uses.most_common(1):
            pattern = [None] * 3
            pattern[i] = terms.make(x)
            graph.removeMatches(*pattern)
            model -= {t for t in model if t[i] == x}
            check()
    rec.interesting(len(everything) > 20)


PROPS = [
    Prop("history", strategy, body, quick=2400),
    Prop("order", equal_strategy, equal_body, quick=400, shards=2),
    Prop("large", large.specs, large_body, quick=80, thorough=1500, shards=4),
]
