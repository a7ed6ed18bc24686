"""C25: differences and changesets turn one graph into the other."""

import datetime

from hypothesis import strategies as st
import rdflib

from pbt import gen, large, near
from pbt.core import Prop
from pbt.rdfdocs import one_case, rdflib_graph, to_rdflib, triples_of
from pbt.terms import freeze

from pymantic.sparql import changeset, differences

ID = "C25"
RULE = (
    "graphs: two graphs that have some statements in common, some that differ in a language,"
    " a datatype or a letter of an IRI only, and shared blank nodes; a graph URI and predicates to exclude."
    " Removals and additions must be exactly the set differences, less the excluded"
    " predicates, each once; applying a changeset, read as RDF by its reified statements,"
    " to the first graph must yield the second, and say nothing about any other; neither"
    " graph may change. Non-trivial: statements are both removed and added."
)

CS = rdflib.Namespace("http://purl.org/vocab/changeset/schema#")
# Some are alike, for excluding one isn't excluding the other.
PREDICATES = (
    "http://e.example/p",
    "http://e.example/q",
    "http://e.example/P",
    "http://e.example/pq",
    "http://e.example/",
    "http://e.example/q#p",
    "http://other.example/p",
    str(rdflib.RDF),
    str(rdflib.RDF.type),
    str(rdflib.RDF.object),
)


def statements():
    iris = st.one_of(gen.pool_iris(3), gen.pool_iris(3), gen.iris(), gen.pick(*PREDICATES)).map(lambda i: ["I", i])
    literals = st.one_of(
        st.tuples(
            st.just("L"),
            gen.pick("a", "1", "", "é"),
            gen.pick(None, None, "en", "fr"),
            st.none(),
        ),
        st.tuples(
            st.just("L"),
            gen.pick("a", "1", "01", ""),
            st.none(),
            gen.pick("http://e.example/dt", "http://www.w3.org/2001/XMLSchema#integer"),
        ),
        gen.literals(gen.pick("en", "fr")),
    ).map(list)
    return st.tuples(
        st.one_of(iris, gen.nodes(2)),
        gen.pick(*PREDICATES[:2], *PREDICATES).map(lambda i: ["I", i]),
        st.one_of(iris, gen.nodes(2), literals),
    ).map(list)


def cases():
    some = near.with_near(gen.several(statements(), 8))
    return st.fixed_dictionaries(
        {
            "common": some,
            "removed": some,
            "added": some,
            "uri": gen.iris(),
            "exclude": st.lists(gen.pick(*PREDICATES[:2], *PREDICATES), max_size=2),
            "as_nodes": st.booleans(),
        }
    )



def body(case, rec):
    case = one_case(case)
    before = {freeze(s) for s in case["common"] + case["removed"]}
    after = {freeze(s) for s in case["common"] + case["added"]}
    a, b = rdflib_graph(before), rdflib_graph(after)
    # rdflib may take two of them for the same.
    before, after = set(triples_of(a)), set(triples_of(b))
    assert len(a) == len(before) and len(b) == len(after)
    rec.interesting(bool(before - after and after - before))
    rec.label("equal" if before == after else "different")
    removes, adds = differences(a, b)
    check_list("removals", removes, before - after)
    check_list("additions", adds, after - before)
    excluded = set(case["exclude"])
    exclude = [rdflib.URIRef(u) if case["as_nodes"] else u for u in case["exclude"]]
    removes, adds = differences(a, b, exclude)
    check_list("removals", removes, {s for s in before - after if s[1][1] not in excluded})
    check_list("additions", adds, {s for s in after - before if s[1][1] not in excluded})
    assert [str(u) for u in exclude] == case["exclude"]
    removes, adds = differences(a, b)
    check_list("removals after one with exclusions", removes, before - after)

    start = datetime.datetime.now(datetime.timezone.utc)
    result = changeset(a, b, case["uri"])
    end = datetime.datetime.now(datetime.timezone.utc)
    sets = list(result.subjects(rdflib.RDF.type, CS["ChangeSet"]))
    assert len(sets) == 1, sets
    node = sets[0]
    subject = list(result.objects(node, CS["subjectOfChange"]))
    assert [str(s) for s in subject] == [case["uri"]] and isinstance(subject[0], rdflib.URIRef)
    dates = list(result.objects(node, CS["createdDate"]))
    assert len(dates) == 1, dates
    second = datetime.timedelta(seconds=1)
    assert start - second <= datetime.datetime.fromisoformat(str(dates[0])) <= end + second
    accounted = 3
    found = {}
    for kind in ("removal", "addition"):
        found[kind] = []
        for statement in result.objects(node, CS[kind]):
            # An IRI could be that of a resource in the graphs.
            assert isinstance(statement, rdflib.BNode), statement
            assert (statement, rdflib.RDF.type, rdflib.RDF.Statement) in result
            parts = []
            for part in (rdflib.RDF.subject, rdflib.RDF.predicate, rdflib.RDF.object):
                values = list(result.objects(statement, part))
                assert len(values) == 1, f"{part} of a statement: {values}"
                parts.append(values[0])
            found[kind].append(tuple(parts))
            accounted += 5
    assert len(result) == accounted, f"{len(result)} triples, {accounted} accounted for"
    removal = triples_of(rdflib_list(found["removal"]))
    addition = triples_of(rdflib_list(found["addition"]))
    check_list("removals of the changeset", found["removal"], before - after)
    check_list("additions of the changeset", found["addition"], after - before)
    assert (before - set(removal)) | set(addition) == after
    assert set(triples_of(a)) == before and set(triples_of(b)) == after, "a graph has changed"


def rdflib_list(statements):
    graph = rdflib.Graph()
    for s in statements:
        graph.add(s)
    return graph


def check_list(what, actual, expected):
    actual = list(actual)
    graph = rdflib_list(actual)
    found = triples_of(graph)
    assert len(actual) == len(found), f"{what}: repeated, {actual!r}"
    assert set(found) == expected, f"{what}: {found!r} instead of {expected!r}"


def large_cases():
    return st.tuples(
        cases(), large.specs(600), gen.pick("common", "removed", "added", "each"), gen.ints(3)
    ).map(list)


def large_body(case, rec):
    """Many statements in common, or to remove, or to add."""
    case, spec, kind, step = case
    many = [list(map(list, t)) for t in large.triples(spec)]
    case = dict(case)
    if kind == "each":
        for k, name in enumerate(("common", "removed", "added")):
            case[name] = case[name] + many[k::3]
    else:
        case[kind] = case[kind] + many
        if step:
            case["added"] = case["added"] + many[:: step * 10]
    body(case, rec)


PROPS = [
    Prop("large", large_cases, large_body, quick=80, thorough=2000),
    Prop("graphs", cases, body, quick=4000),
]
