"""C18: writing to a resource by key replaces just what the key says."""

import datetime

from hypothesis import strategies as st

from pbt import gen, mined, resmodel
from pbt.core import Prop
from pbt.resmodel import NS, World, make_key
from pbt.terms import XSD, freeze

from pymantic.primitives import Literal, NamedNode
from pymantic.rdf import Resource

ID = "C18"
RULE = (
    "A case is a graph, a class with its scalars and language, and a history of"
    " assignments r[key] = value (and deletions in between) with values of all kinds:"
    " strings, numbers, dates, literals, nodes, resources, and sets, lists and tuples of"
    " them. After each the graph has to be as the model says: exactly what the key is"
    " about is replaced, everything else stays; what doesn't fit is refused with a"
    " ValueError that leaves the graph as it was. Non-trivial: an assignment with a"
    " filter or to a scalar replaces some objects while other objects of the predicate"
    " stay, or is refused."
)
ASSUMPTIONS = [
    "Not decided: sequences assigned to scalars with a filter, whether assigning with a"
    " language to a scalar replaces plain literals, and whether assigning with an empty"
    " or xsd:string filter replaces references.",
]


def values():
    return st.one_of(
        st.tuples(st.just("str"), resmodel.words()),
        st.tuples(st.just("str"), resmodel.words()),
        st.tuples(st.just("int"), st.integers(-5, 5)),
        st.tuples(st.just("date"), st.integers(1, 9999)),
        st.tuples(st.just("term"), resmodel.objects()),
        st.tuples(st.just("term"), resmodel.objects()),
        st.tuples(st.just("resource"), resmodel.references()),
    ).map(list)


def ops():
    one = st.tuples(st.just("set"), resmodel.subjects(), resmodel.keys(), st.just("one"), values().map(lambda v: [v]))
    many = st.tuples(
        st.just("set"),
        resmodel.subjects(),
        resmodel.keys(),
        gen.pick("set", "frozenset", "list", "tuple"),
        st.one_of(
            st.lists(values(), max_size=3),
            st.lists(values(), max_size=3),
            st.lists(st.tuples(st.just("str"), resmodel.words()).map(list), min_size=2, max_size=3),
        ),
    )
    fitting = st.tuples(
        st.just("fit"), resmodel.subjects(), resmodel.keys(), gen.pick("one", "one", "list", "set"), st.lists(values(), min_size=1, max_size=3)
    )
    delete = st.tuples(st.just("del"), resmodel.subjects(), resmodel.keys())
    return st.one_of(one, one, many, fitting, fitting, delete).map(list)


def cases():
    return st.tuples(resmodel.graphs(), resmodel.schemas(), gen.histories(ops(), 6)).map(list)


def adapt(values, filter_):
    """Values that go with a filter more often than not."""
    if filter_ is None or filter_[0] == "none":
        return values
    kind, wanted = filter_
    result = []
    for i, value in enumerate(values):
        if value[0] == "term" and value[1][0] == "L":
            text = value[1][1]
            if kind == "lang":
                value = ["term", ["L", text, wanted or None, None]]
            elif kind == "datatype":
                value = ["term", ["L", text, None, wanted]]
        elif value[0] in ("int", "date") and kind == "lang":
            value = ["str", str(value[1])]
        if kind == "class":
            value = ["term", ["I", NS + "o%d" % (1 + i % 3)]]
        result.append(value)
    return result


def resolve(world, value, key):
    """What to assign, and the term that it amounts to."""
    kind, data = value
    predicate, filter_, _ = key
    if kind == "str":
        lang = datatype = None
        if filter_ is None:
            if predicate in world.model.scalars:
                lang = world.model.lang
        elif filter_[0] == "lang":
            lang = filter_[1] or None
        elif filter_[0] == "datatype" and filter_[1] != XSD + "string":
            datatype = filter_[1]
        return data, ("L", data, lang, datatype)
    if kind == "int":
        return data, ("L", str(data), None, XSD + "integer")
    if kind == "date":
        date = datetime.datetime(data, 1, 2, 3, 4, 5)
        return date, ("L", date.isoformat(), None, XSD + "dateTime")
    term = world.terms.make(data)
    if kind == "resource":
        return Resource.classify(world.graph, term), freeze(data)
    return term, freeze(data)


def check_set(world, subject, key, shape, values, rec):
    predicate, filter_, _ = key
    scalar = predicate in world.model.scalars
    if shape != "one" and scalar and filter_ is not None:
        rec.label("undecided")
        return
    resource = world.resource(subject)
    given, wanted = [], []
    for value in values:
        g, w = resolve(world, value, key)
        given.append(g)
        wanted.append(w)
    if shape in ("set", "frozenset"):
        # A string and an IRI that are the same to Python are one in there.
        kept = {}
        for g, w in zip(given, wanted):
            kept.setdefault(g, w)
        given, wanted = list(kept), list(kept.values())
    if shape == "one":
        assigned = given[0]
    elif shape == "set":
        assigned = set(given)
    elif shape == "frozenset":
        assigned = frozenset(given)
    else:
        assigned = given if shape == "list" else tuple(given)
    refused = (
        shape != "one"
        and scalar
        or not all(world.model.acceptable(w, filter_) for w in wanted)
    )
    before = set(world.model.triples)
    name = ("I", NS + predicate)
    try:
        resource[make_key(key)] = assigned
    except ValueError:
        assert refused, f"refuses {key} = {values}"
        world.check_graph()
        rec.interesting()
        rec.label("refused")
        return
    assert not refused, f"accepts {key} = {values}"
    gone, perhaps = world.model.replaced(subject, key, wanted if shape == "one" else [])
    if shape != "one":
        gone, perhaps = world.model.replaced(subject, key, wanted or [None])
        if filter_ is None or filter_[0] == "none":
            gone, perhaps = world.model.objects(subject, predicate), set()
    after = {t for t in before if not (t[0] == subject and t[1] == name and t[2] in gone)}
    rec.interesting(
        bool(gone) and any(t[0] == subject and t[1] == name for t in after)
    )
    rec.label(
        ("scalar " if scalar else "plural ") + ("no filter" if filter_ is None else filter_[0])
    )
    after |= {(subject, name, w) for w in wanted}
    found = set(world.terms.describe_all(world.graph))
    optional = {(subject, name, o) for o in perhaps} - {(subject, name, w) for w in wanted}
    assert found - optional == after - optional, (
        f"{key} = {values}: missing {after - found}, unexpected {found - after}"
    )
    assert found <= after | optional
    world.model.triples = found
    world.check_graph()
    if not scalar:
        read = world.read(resource, key)
        assert set(wanted) <= read or filter_ is not None, f"{wanted} set, {read} read"


def body(case, rec):
    triples, schema, history = case
    world = World(triples, schema)
    for op in history:
        subject, key = freeze(op[1]), op[2]
        if op[0] == "del":
            gone = world.model.select(subject, key)
            name = ("I", NS + key[0])
            world.model.triples = {
                t
                for t in world.model.triples
                if not (t[0] == subject and t[1] == name and t[2] in gone)
            }
            resource = world.resource(subject)
            del resource[make_key(key)]
            world.check_graph()
        else:
            values = op[4]
            if op[0] == "fit":
                values = adapt(values, key[1])
                if op[3] == "one":
                    values = values[:1]
            check_set(world, subject, key, op[3], values, rec)
        world.check_read(world.resource(subject), subject, key)
    world.check_unknown(world.resource(("I", NS + "s")), "set")


@st.composite
def crowd_cases(draw):
    """Histories that replace many objects, and set many."""
    history = draw(gen.histories(ops(), 3))
    many = [
        "many",
        draw(resmodel.subjects()),
        draw(resmodel.keys()),
        draw(gen.pick("set", "frozenset", "list", "tuple")),
        draw(mined.sizes(300)),
        draw(values()),
    ]
    history.insert(draw(gen.ints(len(history))), many)
    return [draw(resmodel.crowds()), draw(resmodel.schemas()), history]


def crowd_body(case, rec):
    spec, schema, history = case
    expanded = []
    for op in history:
        if op[0] == "many":
            count, last = op[4:]
            chosen = []
            for k in range(count):
                if k % 3 == 0 and last[0] in ("str", "int", "date"):
                    value = {"str": "x%d" % k, "int": k, "date": 1 + k}[last[0]]
                    chosen.append([last[0], value])
                elif last[0] == "term" and last[1][0] == "L":
                    chosen.append(["term", ["L", str(k)] + last[1][2:]])
                else:
                    chosen.append([("term", "resource")[k % 2], ["I", NS + "o%d" % k]])
            op = ["set" if spec["at"] % 2 else "fit", *op[1:4], chosen + [last]]
        expanded.append(op)
    body([resmodel.crowd(spec), schema, expanded], rec)


PROPS = [
    Prop("crowds", crowd_cases, crowd_body, quick=120, thorough=2500),
    Prop("histories", cases, body, quick=5000),
]
