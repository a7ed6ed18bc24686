"""C17: reading from a resource by key selects just what the key says."""

from hypothesis import strategies as st

from pbt import gen, resmodel
from pbt.core import Prop
from pbt.resmodel import NS, PREDICATES, World, make_key
from pbt.terms import RDFS, freeze, plain

from pymantic.primitives import BlankNode, Literal, NamedNode
from pymantic.rdf import Resource

ID = "C17"
RULE = (
    "A case is a graph (literals of many languages and datatypes, references, typed"
    " objects), a class with its scalars and language, and a few keys: predicates as"
    " CURIE or IRI, with and without language, datatype, class, empty and None filters."
    " r[key] and key in r are compared with a selection from the set of triples;"
    " object_of, iteration, get_scalar, str and comparison likewise, and again by the same resources after"
    " triples were replaced. Non-trivial: the"
    " predicate has two or more objects of which the key selects some but not all, or the"
    " scalar falls back."
)


def cases():
    return st.tuples(
        resmodel.graphs(),
        resmodel.schemas(),
        st.lists(resmodel.keys(), min_size=1, max_size=6),
        st.lists(st.tuples(gen.ints(30), resmodel.changes()).map(list), max_size=3),
    ).map(list)


def body(case, rec):
    triples, schema, keys, *changes = case
    world = World(triples, schema)
    resources = {
        subject: world.resource(subject, as_text=len(keys) & 1)
        for subject in (("I", NS + "s"), ("B", "0"))
    }
    check_all(world, resources, keys, rec)
    if changes:
        # The same resources say what there is after the graph has changed, even
        # if there is as much as before.
        for index, new in changes[0]:
            world.swap(index, new)
        if changes[0]:
            rec.label("changed")
            check_all(world, resources, keys, rec)


def check_all(world, resources, keys, rec):
    for subject, resource in resources.items():
        for key in keys:
            wanted = world.check_read(resource, subject, key)
            everything = world.model.objects(subject, key[0])
            scalar = key[0] in world.model.scalars
            rec.interesting(len(everything) > 1 and (0 < len(wanted) < len(everything) or scalar))
            rec.label(
                ("scalar " if scalar else "plural ")
                + ("no filter" if key[1] is None else key[1][0])
            )
            if scalar and len(wanted) > 1:
                rec.label("ambiguous scalar")
        check_views(world, subject, resource)
        for which in ("read", "contains", "scalar", "subjects"):
            world.check_unknown(resource, which)
    # Nothing of this changes the graph.
    world.check_graph()


def check_views(world, subject, resource):
    triples = world.model.triples
    describe = world.terms.describe
    pairs = [(describe(p), describe(o)) for p, o in resource]
    assert len(pairs) == len(set(pairs))
    assert set(pairs) == {(p, o) for s, p, o in triples if s == subject}, pairs
    found = sorted((describe(r.subject), describe(p)) for r, p in resource.object_of())
    assert found == sorted((s, p) for s, p, o in triples if o == subject), found
    for name in PREDICATES:
        wanted = sorted(s for s, p, o in triples if o == subject and p == ("I", NS + name))
        for key in ("ex:" + name, NS + name):
            others = list(resource.object_of(key))
            for other in others:
                world.check_class(other)
            assert sorted(describe(r.subject) for r in others) == wanted, key
        everything = world.model.objects(subject, name)
        if len(everything) <= 1:
            value = resource.get_scalar("ex:" + name)
            found = set() if value is None else {world.describe(value)}
            if name not in world.model.scalars:
                assert found == everything, (name, found)
        check_selections(world, resource, subject, name)
    labels = {o for s, p, o in triples if s == subject and p == ("I", RDFS + "label")}
    lang = world.model.lang
    for choice in (
        {o for o in labels if resmodel.lang_match(lang, o[2])},
        {o for o in labels if o[3] is not None},
        {o for o in labels if o[2] is None and o[3] is None},
    ):
        if choice:
            break
    if not choice:
        assert str(resource) == str(world.terms.make(list(subject))), str(resource)
    elif len(choice) == 1:
        assert str(resource) == min(choice)[1], str(resource)
    repr(resource)
    # It is the subject that matters for equality.
    term = world.terms.make(list(subject))
    twin = Resource(world.graph, term)
    assert twin == resource and not twin != resource and hash(twin) == hash(resource)
    other = Resource(world.graph, NamedNode(NS + "other"))
    assert other != resource and not other == resource
    if isinstance(term, NamedNode):
        assert resource == term and resource == plain(term) and hash(resource) == hash(term)
        assert resource != NamedNode(NS + "other") and resource != NS + "other"
    else:
        # A blank node is called by its identifier, if at all.
        assert resource == str(term) and resource != term.value and resource != "_:" + str(term)
    for wrong in (str(term)[:-1], str(term) + "x", str(term).swapcase(), "", "<%s>" % term):
        assert resource != wrong or wrong == str(term), wrong
    assert resource.as_(Resource) == resource and type(resource.as_(resmodel.A)) is resmodel.A
    assert resource.as_(resmodel.A).graph is world.graph


def check_selections(world, resource, subject, name):
    """The ways to select objects of a predicate by what they are."""
    predicate = NamedNode(NS + name)
    everything = world.model.objects(subject, name)
    literals = {o for o in everything if resmodel.is_literal(o)}
    plain_ones = {o for o in literals if o[2] is None and o[3] is None}

    def same(found, wanted, what):
        found = [world.describe(o) if isinstance(o, Literal) else world.terms.describe(o) for o in found]
        assert len(found) == len(set(found)) and set(found) == wanted, f"{what}: {found}, not {wanted}"

    same(resource.objects(predicate), everything, "objects")
    same(resource.bare_literals(predicate), plain_ones, "bare_literals")
    same(resource.objects_by_lang(predicate), {o for o in literals if o[2] is not None}, "any language")
    same(resource.objects_by_lang(predicate, ""), plain_ones, "no language")
    same(resource.objects_by_datatype(predicate), {o for o in literals if o[3] is not None}, "any datatype")
    same(resource.objects_by_datatype(predicate, ""), plain_ones, "no datatype")
    same(resource.objects_by_type(predicate), everything - literals, "references")
    for lang in resmodel.LANGS:
        wanted = {o for o in literals if resmodel.lang_match(lang, o[2])}
        same(resource.objects_by_lang(predicate, lang), wanted, lang)
    for datatype in resmodel.DATATYPES:
        wanted = {o for o in literals if o[3] == datatype}
        same(resource.objects_by_datatype(predicate, NamedNode(datatype)), wanted, datatype)
    for cls in resmodel.CLASSES:
        wanted = {o for o in everything - literals if world.model.instance(o, cls)}
        same(resource.objects_by_type(predicate, resmodel.CLASSES[cls]), wanted, cls)


def crowd_cases():
    return st.tuples(
        resmodel.crowds(),
        resmodel.schemas(),
        st.lists(resmodel.keys(), min_size=1, max_size=4),
        st.lists(st.tuples(gen.ints(300), resmodel.changes()).map(list), max_size=2),
    ).map(list)


def crowd_body(case, rec):
    spec, *rest = case
    body([resmodel.crowd(spec), *rest], rec)


PROPS = [
    Prop("crowds", crowd_cases, crowd_body, quick=120, thorough=2500),
    Prop("reads", cases, body, quick=5000),
]
