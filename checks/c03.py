"""C03: a Dataset is a set of quads, whatever its history."""

from collections import Counter
from itertools import islice, product

from hypothesis import strategies as st

from pbt import gen, large
from pbt.core import Prop
from pbt.terms import Terms, freeze

from pymantic.primitives import Dataset, Graph, Quad, RDFEnvironment

from . import c01

ID = "C03"
RULE = (
    "A case is a history of add/remove/addAll/removeMatches/match/add_graph/"
    "remove_graph calls on one dataset (with default, named and blank-node graphs),"
    " compared after every call with a set of quads, ending in match patterns over"
    " all subsets of positions. Non-trivial: quads of two or more graphs share a"
    " triple or a subject, and something is removed while other quads stay; some histories go on"
    " for up to three calls without being looked at, swap one quad for another, or share a graph"
    " with another dataset. large: up to"
    " hundreds of quads and of graphs (sizes include those the code compares with) are"
    " filled in, thinned out and asked for; non-trivial from 20 quads on."
)


def graph_names():
    return st.one_of(
        st.none(),
        st.sampled_from([["I", "http://g/1"], ["I", "http://g/2"], ["I", "http://e/1"], ["I", ""]]),
        st.sampled_from([["B", "0"], ["B", "g"]]),
        gen.named(),
    )


def quads():
    return st.tuples(c01.triples(), graph_names()).map(lambda q: q[0] + [q[1]])


def ops():
    index = st.integers(0, 50)
    return st.one_of(
        st.tuples(st.just("add"), quads()),
        st.tuples(st.just("add"), quads()),
        st.tuples(st.just("copy"), index, graph_names()),
        st.tuples(st.just("copy"), index, graph_names()),
        st.tuples(st.just("remove"), index),
        st.tuples(st.just("remove"), index),
        st.tuples(st.just("absent"), quads()),
        st.tuples(st.just("elsewhere"), index, graph_names()),
        st.tuples(st.just("addAll"), st.lists(quads(), max_size=6), st.integers(0, 3)),
        st.tuples(st.just("removeMatchesOf"), index, st.integers(0, 15)),
        st.tuples(st.just("removeMatches"), quads(), st.integers(0, 15)),
        st.tuples(st.just("matchOf"), index, st.integers(0, 15)),
        st.tuples(st.just("match"), quads(), st.integers(0, 15)),
        st.tuples(
            st.just("add_graph"),
            st.lists(c01.triples(), max_size=4),
            st.integers(0, 4),
            graph_names().filter(lambda n: n and n[1]),
        ),
        st.tuples(st.just("through"), index, c01.triples(), st.booleans()),
        st.tuples(st.just("remove_graph"), index, st.integers(0, 1)),
        st.tuples(st.just("near"), index, st.integers(0, 3 * 4 * 28)),
        st.tuples(st.just("quiet"), st.integers(1, 3)),
        st.tuples(st.just("swap"), index, quads()),
        st.tuples(st.just("share"), index, graph_names().filter(lambda n: n and n[1])),
    ).map(list)


def strategy():
    return gen.histories(ops(), 16)


def select(model, pattern, mask):
    """The default graph has no name to ask for it by."""
    return {
        q
        for q in model
        if all(
            not mask >> i & 1 or pattern[i] is None or q[i] == pattern[i]
            for i in range(4)
        )
    }


def query(dataset, terms, pattern, mask, keywords=False):
    args = [terms.make(pattern[i]) if mask >> i & 1 else None for i in range(4)]
    if keywords:
        names = ("subject", "predicate", "object", "graph")
        result = dataset.match(**dict(zip(names, args)))
    else:
        result = dataset.match(*args)
    result = list(islice(result, len(dataset) + 1))
    assert all(isinstance(q, Quad) for q in result)
    found = terms.describe_all(result)
    assert len(found) == len(set(found)), f"match yields {found} more than once"
    return set(found)


def check_contents(dataset, terms, model, names=None, shared=False):
    assert len(dataset) == len(model), (len(dataset), len(model))
    found = terms.describe_all(islice(dataset, len(model) + 1))
    assert len(found) == len(set(found)), found
    assert set(found) == model, set(found) ^ model
    assert set(terms.describe_all(dataset.toArray())) == model
    if shared:
        # Their own names are those that they have elsewhere.
        expected = {}
        for q in model:
            expected.setdefault(q[3], set()).add(q[:3])
        found = [sorted(terms.describe_all(g), key=repr) for g in dataset.graphs if len(g)]
        wanted = [sorted(triples, key=repr) for triples in expected.values()]
        assert sorted(found, key=repr) == sorted(wanted, key=repr), (found, wanted)
        assert names is None or len(dataset.graphs) == len(names), (list(dataset.graphs), names)
        return
    graphs = {}
    for graph in dataset.graphs:
        if len(graph):
            name = terms.describe(graph.uri)
            assert name not in graphs, f"graph {name} is there twice"
            graphs[name] = set(terms.describe_all(graph))
    expected = {}
    for q in model:
        expected.setdefault(q[3], set()).add(q[:3])
    assert graphs == expected, (graphs, expected)
    # Also the graphs which are empty by now are there, and no others.
    if names is not None:
        found = [terms.describe(g.uri) for g in dataset.graphs]
        assert len(found) == len(names) and set(found) == names, f"graphs {found}, not {names}"


def body(case, rec):
    terms = Terms()
    dataset = Dataset()
    model = set()
    names = set()  # of the graphs there are
    added = 0
    shared = False
    removed_some = False
    quiet = 0

    def at(index):
        ordered = sorted(model, key=repr)
        return ordered[index % len(ordered)] if ordered else None

    for op in case:
        before = set(model)
        kind = op[0]
        rec.label(kind)
        if kind == "quiet":
            # Nobody looks at the dataset in between the next calls.
            quiet = 1 + op[1]
        elif kind == "swap":
            # As many as there were.
            q, new = at(op[1]), freeze(op[2])
            if q is not None and new not in model:
                dataset.remove(terms.quad(q))
                dataset.add(terms.quad(new))
                model.discard(q)
                model.add(new)
                names.add(new[3])
        elif kind == "add":
            dataset.add(terms.quad(op[1]))
            model.add(freeze(op[1]))
            names.add(freeze(op[1])[3])
        elif kind == "copy":
            q = at(op[1])
            if q is not None:
                q = q[:3] + (freeze(op[2]),)
                dataset.add(terms.quad(q))
                model.add(q)
                names.add(q[3])
        elif kind == "near":
            # Something that isn't quite what is there.
            q = at(op[1])
            if q is not None:
                q = c01.near_statement(q, op[2])
                assert (terms.quad(q) in dataset) == (q in model)
                dataset.add(terms.quad(q))
                model.add(q)
                names.add(q[3])
        elif kind == "remove":
            q = at(op[1])
            if q is not None:
                dataset.remove(terms.quad(q))
                model.remove(q)
        elif kind in ("absent", "elsewhere"):
            if kind == "absent":
                q = freeze(op[1])
            else:
                q = at(op[1])
                q = q and q[:3] + (freeze(op[2]),)
            if q is not None:
                assert (terms.quad(q) in dataset) == (q in model)
                if q not in model:
                    try:
                        dataset.remove(terms.quad(q))
                    except Exception:
                        pass
        elif kind == "addAll":
            made = [terms.quad(q) for q in op[1]]
            if op[2] == 1:
                made = set(made)
            elif op[2] == 2:
                made = (q for q in made)
            elif op[2] == 3:
                made = RDFEnvironment().createDataset(made)
                check_contents(made, terms, set(freeze(op[1])))
            assert dataset.addAll(made) is dataset
            model.update(freeze(op[1]))
            names.update(q[3] for q in freeze(op[1]))
        elif kind in ("removeMatches", "removeMatchesOf"):
            pattern = freeze(op[1]) if kind == "removeMatches" else at(op[1])
            mask = op[2]
            if pattern is not None:
                args = [terms.make(pattern[i]) if mask >> i & 1 else None for i in range(4)]
                gone = select(model, pattern, mask)
                assert dataset.removeMatches(*args) is dataset
                model -= gone
        elif kind in ("match", "matchOf"):
            pattern = freeze(op[1]) if kind == "match" else at(op[1])
            mask = op[2]
            if pattern is not None:
                expected = select(model, pattern, mask)
                assert query(dataset, terms, pattern, mask) == expected
        elif kind == "add_graph":
            name = ("I", "http://new/%d" % added)
            added += 1
            if op[2] == 0:  # by its own name
                graph = Graph(name[1])
            elif op[2] == 1:  # one without a name
                graph = Graph()
            else:  # by another than its own name, perhaps instead of another graph
                graph = Graph("http://another/name")
                name = freeze(op[3]) if op[2] == 3 else name
            for t in op[1]:
                graph.add(terms.triple(t))
            if op[2] == 4:  # without any name at all
                try:
                    dataset.add_graph(Graph())
                except ValueError:
                    pass
                else:
                    raise AssertionError("a graph without a name was added")
                dataset.add_graph(graph, named=terms.make(name))
            elif op[2] == 0:
                dataset.add_graph(graph)
            else:
                dataset.add_graph(graph, named=terms.make(name))
            model = {q for q in model if q[3] != name}
            model.update(freeze(t) + (name,) for t in op[1])
            assert terms.describe(graph.uri) == name
            names.add(name)
        elif kind == "through":
            # The graphs of a dataset are its contents, not copies.
            q = at(op[1])
            if q is not None and not shared:
                (graph,) = [g for g in dataset.graphs if len(g) and terms.describe(g.uri) == q[3]]
                if op[3]:
                    graph.add(terms.triple(op[2]))
                    model.add(freeze(op[2]) + (q[3],))
                else:
                    graph.remove(terms.triple(q[:3]))
                    model.remove(q)
        elif kind == "remove_graph":
            there = sorted(names - {None})
            if there:
                which = there[op[1] % len(there)]
                name = terms.make(which)
                if op[2] and not shared:
                    (name,) = [g for g in dataset.graphs if g.uri == name]
                dataset.remove_graph(name)
                model = {q for q in model if q[3] != which}
                names.remove(which)
        elif kind == "share":
            # A graph may be in another dataset too, by another name.
            q = at(op[1])
            if q is not None and not shared:
                (graph,) = [g for g in dataset.graphs if terms.describe(g.uri) == q[3]]
                other = Dataset()
                other.add_graph(graph, named=terms.make(op[2]))
                shared = True
                there = {m[:3] + (freeze(op[2]),) for m in model if m[3] == q[3]}
                check_contents(other, terms, there, {freeze(op[2])})
        if before - model and model:
            removed_some = True
        quiet = max(0, quiet - 1)
        if quiet:
            continue
        check_contents(dataset, terms, model, names, shared)
        for q in islice(sorted(before ^ model, key=repr), 3):
            assert (terms.quad(q) in dataset) == (q in model)
            for mask in range(16):
                assert query(dataset, terms, q, mask) == select(model, q, mask), (op, q, mask)
            assert (terms.triple(q[:3]) in dataset) == any(q[:3] == m[:3] for m in model)

    used = [sorted({q[i] for q in model}, key=repr) for i in range(4)]
    strangers = (("I", "http://none"), ("I", ""), ("L", "no", None, None), ("I", "http://no"))
    for mask in range(16):
        choices = [
            used[i][:3] + [strangers[i]] if mask >> i & 1 else [None] for i in range(4)
        ]
        for n, pattern in enumerate(islice(product(*choices), 40)):
            expected = select(model, pattern, mask)
            assert query(dataset, terms, pattern, mask, n % 2) == expected, (pattern, mask)
    # Asking, even for graphs there are none of, did not change anything.
    check_contents(dataset, terms, model, names, shared)
    shared = {}
    for q in model:
        shared.setdefault(q[0], set()).add(q[3])
    rec.interesting(removed_some and any(len(g) > 1 for g in shared.values()))
    rec.label(f"{min(4, len({q[3] for q in model}))} graphs")


def large_body(spec, rec):
    """Many quads in many graphs, removed in part, taken stock of in all ways."""
    everything = large.quads(spec)
    terms = Terms()
    dataset = Dataset()
    model = set()
    names = {q[3] for q in everything}

    def check():
        check_contents(dataset, terms, model, names)
        for i in range(4):
            by_term = {}
            for q in model:
                by_term.setdefault(q[i], set()).add(q)
            for x in [*islice(by_term, 8), max(by_term, key=lambda x: len(by_term[x]), default=None)]:
                if x is not None:
                    pattern = [x if i == j else None for j in range(4)]
                    assert query(dataset, terms, pattern, 1 << i) == by_term[x], pattern
        for q in islice(model, 8):
            for mask in range(1, 16):
                assert query(dataset, terms, q, mask) == select(model, q, mask), (q, mask)

    for q in everything:
        dataset.add(terms.quad(q))
    model |= set(everything)
    check()
    for q in everything[:: 1 + spec["step"] % 3]:
        dataset.remove(terms.quad(q))
        model.discard(q)
    check()
    there = {q[:3] for q in model}
    for q in everything:
        assert (terms.quad(q) in dataset) == (q in model)
        assert bool(terms.triple(q[:3]) in dataset) == (q[:3] in there)
    dataset.addAll([terms.quad(q) for q in everything])
    model |= set(everything)
    check()
    for i in range(4):
        # Remove everything there is about the term that is used most.
        uses = Counter(q[i] for q in model if q[i] is not None)
        for x, _ in uses.most_common(1):
            dataset.removeMatches(*[terms.make(x) if i == j else None for j in range(4)])
            model -= {q for q in model if q[i] == x}
            check()
    for name in [n for n in names if n is not None][::2]:
        dataset.remove_graph(terms.make(name))
        model = {q for q in model if q[3] != name}
        names.remove(name)
    check()
    rec.interesting(len(everything) > 20)


PROPS = [
    Prop("history", strategy, body, quick=3200),
    Prop("large", lambda: large.specs(800), large_body, quick=80, thorough=1500, shards=4),
]
