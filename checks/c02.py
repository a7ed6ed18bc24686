"""C02: operations on whole graphs do what they say, and to one graph only."""

from itertools import islice

from hypothesis import strategies as st

from pbt import gen, mined
from pbt.core import Prop
from pbt.terms import Terms, freeze

from pymantic.primitives import Graph, RDFEnvironment

from . import c01

ID = "C02"
RULE = (
    "A case is two or three overlapping lists of triples, a removal pattern and a"
    " list of further changes; graphs made of them are merged, imported from each"
    " other, snapshotted and recreated, and each is compared with sets of triples"
    " before and after changing the others; large: the same with up to a thousand"
    " triples. Non-trivial: the first two graphs"
    " overlap but neither contains the other."
)


@st.composite
def cases(draw, more=0):
    pool, members = [], []
    for triple, member in draw(
        gen.several(st.tuples(c01.triples(), st.integers(0, 7)), 14)
        .filter(bool)
    ):
        pool.append(triple)
        members.append(member)
    if more or draw(st.integers(0, 19)) == 19:
        more = c01.fill(draw(mined.sizes(more or 400)), draw(st.integers(1, 9)))
        pool += more
        among = draw(gen.pick((1, 2, 3, 4, 5, 6, 7), (1, 2, 3), (1, 1, 1, 2), (2, 2, 3, 6)))
        members += [among[i % len(among)] for i in range(len(more))]
    size = len(pool)
    return {
        "pool": pool,
        "a": [i for i in range(size) if members[i] & 1],
        "b": [i for i in range(size) if members[i] & 2],
        "c": [i for i in range(size) if members[i] & 4],
        "pattern": [draw(st.integers(0, size - 1)), draw(st.integers(0, 7))],
        "changes": draw(st.lists(st.integers(0, size - 1), max_size=4)),
        "uri": draw(st.sampled_from([None, "http://e/g"])),
    }


def content(graph, terms):
    listed = terms.describe_all(islice(graph, len(graph) + 1))
    assert len(listed) == len(set(listed)) == len(graph)
    return set(listed)


def check(graph, terms, expected, what):
    actual = content(graph, terms)
    assert actual == expected, (what, actual ^ expected)
    c01.check_contents(graph, terms, expected)
    some = sorted(expected, key=repr)
    for t in {*some[:3], *some[:: len(some) // 3 + 1]}:
        for mask in range(1, 8):
            assert c01.query(graph, terms, t, mask) == c01.select(expected, t, mask), what


def change(graph, model, terms, pool, changes):
    """Add what isn't there, and remove what is."""
    for i in changes:
        t = freeze(pool[i])
        if t in model:
            graph.remove(terms.triple(t))
            model.remove(t)
        else:
            graph.add(terms.triple(t))
            model.add(t)


def body(case, rec):
    pool = case["pool"]
    terms = Terms()
    env = RDFEnvironment()

    def make(indexes, name):
        uri = case["uri"] and case["uri"] + name
        graph = Graph(uri) if uri else Graph()
        graphs.append((graph, uri))
        for i in indexes:
            graph.add(terms.triple(pool[i]))
        return graph, {freeze(pool[i]) for i in indexes}

    graphs = []
    a, model_a = make(case["a"], "")
    b, model_b = make(case["b"], "b")
    c, model_c = make(case["c"], "c")
    rec.interesting(
        bool(model_a & model_b and model_a - model_b and model_b - model_a)
    )

    # merge makes a new graph.
    merged = a.merge(b)
    model_merged = model_a | model_b
    assert merged is not a and merged is not b
    check(merged, terms, model_merged, "merge")
    check(a, terms, model_a, "merged graph")
    check(b, terms, model_b, "merged argument")
    assert content(b.merge(a), terms) == model_merged
    assert content(a.merge(b).merge(c), terms) == content(a.merge(b.merge(c)), terms)
    assert content(a.merge(a), terms) == model_a

    # Snapshots and graphs made of them.
    snapshot = a.toArray()
    frozen_a = set(model_a)
    recreated = env.createGraph(snapshot)
    model_recreated = set(model_a)
    check(recreated, terms, model_recreated, "createGraph(toArray())")
    # Nor is it the graph that the other one is, with the URI of that.
    another, model_another = env.createGraph(a), set(model_a)
    check(another, terms, model_another, "createGraph(a)")
    for new in (recreated, another, merged, env.createGraph(), env.createGraph([])):
        assert new.uri is None, f"a new graph is {new.uri}"

    # Changes to one don't show in the others.
    change(merged, model_merged, terms, pool, case["changes"])
    change(recreated, model_recreated, terms, pool, case["changes"][::-1])
    change(another, model_another, terms, pool, case["changes"][1:])
    for graph, model, what in (
        (merged, model_merged, "merge, changed"),
        (recreated, model_recreated, "recreated, changed"),
        (another, model_another, "another, changed"),
        (a, model_a, "a"),
        (b, model_b, "b"),
        (c, model_c, "c"),
    ):
        check(graph, terms, model, what)
    change(a, model_a, terms, pool, case["changes"])
    check(a, terms, model_a, "a, changed")
    check(merged, terms, model_merged, "merge, after changing its origin")
    check(recreated, terms, model_recreated, "recreated, after changing its origin")
    assert set(terms.describe_all(snapshot)) == frozen_a, "a snapshot changed"

    # addAll imports all there is, and leaves where it comes from alone.
    assert c.addAll(b) is c
    model_c |= model_b
    check(c, terms, model_c, "addAll")
    empty, model_empty = make([], "empty")
    assert empty.addAll(b) is empty
    check(empty, terms, model_b, "addAll to an empty graph")
    change(empty, set(model_b), terms, pool, case["changes"])
    check(b, terms, model_b, "addAll's argument")
    assert c.addAll([]) is c
    assert c.addAll(terms.triple(t) for t in sorted(model_a, key=repr)) is c
    model_c |= model_a
    check(c, terms, model_c, "addAll of an iterator")
    assert a.addAll(snapshot) is a
    model_a |= frozen_a
    check(a, terms, model_a, "addAll of a snapshot")

    # removeMatches removes what match would have returned, and nothing else.
    index, mask = case["pattern"]
    pattern = freeze(pool[index])
    args = [terms.make(pattern[i]) if mask >> i & 1 else None for i in range(3)]
    gone = c01.query(c, terms, pattern, mask)
    assert gone == c01.select(model_c, pattern, mask)
    assert c.removeMatches(*args) is c
    check(c, terms, model_c - gone, "removeMatches")
    assert not list(c.match(*args))
    check(a, terms, model_a, "a, after removeMatches")
    check(b, terms, model_b, "b, after removeMatches")
    # Whatever was done, graphs keep their names.
    for graph, uri in graphs:
        assert graph.uri == uri, f"{graph.uri!r} instead of {uri!r}"
    rec.label("gone" if gone else "nothing gone", f"mask {mask}")


PROPS = [
    Prop("large", lambda: cases(1200), body, quick=80, thorough=1500),
    Prop("bulk", cases, body, quick=2400),
]
