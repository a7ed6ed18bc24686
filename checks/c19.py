"""C19: deleting by key removes just what reading by that key returns."""

from hypothesis import strategies as st

from pbt import gen, resmodel
from pbt.core import Prop
from pbt.resmodel import NS, World, make_key
from pbt.terms import freeze

from pymantic.primitives import Triple

ID = "C19"
RULE = (
    "A case is a graph, a class with its scalars and language, and a few deletions by"
    " keys with all kinds of filters. What del r[key] removes has to be what r[key]"
    " returned (for an ambiguous scalar: all that it is ambiguous about), and nothing"
    " else; key in r tells whether there is anything. erase() removes all of the"
    " resource's triples and no others. Non-trivial: a deletion removes some, but not all"
    " objects of the predicate."
)


def cases():
    return st.tuples(
        resmodel.graphs(),
        resmodel.schemas(),
        st.lists(st.tuples(resmodel.subjects(), resmodel.keys()).map(list), min_size=1, max_size=5),
        resmodel.subjects(),
    ).map(list)


def body(case, rec):
    triples, schema, deletions, erased = case
    world = World(triples, schema)
    model = world.model
    for subject, key in deletions:
        subject = freeze(subject)
        resource = world.resource(subject)
        name = ("I", NS + key[0])
        wanted = model.select(subject, key)
        everything = model.objects(subject, key[0])
        returned = world.read(resource, key)
        if returned != "several":
            assert returned == wanted, f"{key}: {returned}, not {wanted}"
        assert (make_key(key) in resource) == bool(wanted), f"{key} in"
        del resource[make_key(key)]
        model.triples -= {(subject, name, o) for o in wanted}
        world.check_graph()
        rec.interesting(0 < len(wanted) < len(everything))
        rec.label(
            ("scalar " if key[0] in model.scalars else "plural ")
            + ("no filter" if key[1] is None else key[1][0]),
            "some" if wanted else "none",
        )
        # Deleting once more removes what is returned now.
        wanted = model.select(subject, key)
        del resource[make_key(key)]
        model.triples -= {(subject, name, o) for o in wanted}
        world.check_graph()
    subject = freeze(erased)
    world.check_unknown(world.resource(subject), "delete")
    resource = world.resource(subject)
    resource.erase()
    model.triples = {t for t in model.triples if t[0] != subject}
    world.check_graph()
    assert list(resource) == []


def crowd_cases():
    return st.tuples(
        resmodel.crowds(),
        resmodel.schemas(),
        st.lists(st.tuples(resmodel.subjects(), resmodel.keys()).map(list), min_size=1, max_size=4),
        resmodel.subjects(),
    ).map(list)


def crowd_body(case, rec):
    body([resmodel.crowd(case[0]), *case[1:]], rec)


PROPS = [
    Prop("crowds", crowd_cases, crowd_body, quick=120, thorough=2500),
    Prop("deletions", cases, body, quick=5000),
]
