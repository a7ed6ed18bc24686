"""C29: whatever isn't a change leaves everything as it was."""

import copy
import io
import json

from hypothesis import strategies as st

from pbt import gen, http, resmodel
from pbt.core import Prop
from pbt.rdfdocs import rdflib_graph
from pbt.resmodel import CLASSES, CLS, NS, PREDICATES
from pbt.terms import RDF, RDFS, Terms, freeze

from pymantic.parsers import jsonld_parser, nquads_parser, ntriples_parser, turtle_parser
from pymantic.primitives import (
    Dataset,
    Graph,
    Literal,
    NamedNode,
    PrefixMap,
    RDFEnvironment,
    TermMap,
    parse_curie,
    parse_curies,
    to_curie,
)
from pymantic.rdf import List, Resource, register_class
from pymantic.serializers import serialize_nquads, serialize_ntriples, serialize_turtle, turtle_sorted_names
from pymantic.sparql import SPARQLServer, UpdateableGraphStore, changeset, differences
from pymantic.util import grouper, one_or_none

ID = "C29"
RULE = (
    "readings: a graph (with lists, types and labels), a dataset, an environment with prefixes"
    " and terms, classes, rdflib graphs, and a history of calls none of which is to change any of"
    " these: all kinds of lookups, of what is there and what isn't, finished or not; reading"
    " resources and lists; classification; writing in three formats; CURIEs; merges and copies,"
    " which are then changed; documents parsed, of which some fail; requests sent; and changes"
    " that have to be refused. After each all is as it was, seen from all sides, and when a"
    " question is asked again the answer is the same; when things are then removed, it doesn't"
    " show that anything was asked. inputs: lists, sets and dictionaries given"
    " to calls that do change something come out as they went in, and aren't kept. Non-trivial:"
    " the graph has three or more triples and three or more kinds of calls are made (readings),"
    " there is something in what is given (inputs)."
)

ABSENT = ["I", NS + "absent"]


@st.composite
def lists(draw):
    """The cells of a list, some of which may be broken."""
    items = draw(st.lists(resmodel.objects(), max_size=3))
    nodes = [["B", "cell%d" % i] for i in range(len(items))] + [["I", RDF + "nil"]]
    result = []
    for i, item in enumerate(items):
        result.append([nodes[i], ["I", RDF + "first"], item])
        result.append([nodes[i], ["I", RDF + "rest"], nodes[i + 1]])
    if result and draw(gen.ints(5)) == 0:
        result.pop(draw(gen.ints(len(result) - 1)))
    return result


PREFIXES = ["ex", "c", "a", "", "rdf", "none"]
IRIS = [NS, CLS, NS + "p", "http://e.example/", "urn:a", RDF]


def calls():
    which = gen.ints(30)
    mask = gen.ints(15)
    names = gen.pick("serialize_ntriples", "serialize_nquads", "serialize_turtle", "serialize_turtle")
    return st.one_of(
        st.tuples(st.just("match"), which, mask, gen.ints(3)),
        st.tuples(st.just("match"), which, mask, gen.ints(3)),
        st.tuples(st.just("dataset match"), which, mask, gen.ints(3)),
        st.tuples(st.just("dataset match"), which, mask, gen.ints(3)),
        st.tuples(st.just("cross"), which, which, mask, gen.ints(1)),
        st.tuples(st.just("cross"), which, which, mask, gen.ints(1)),
        st.tuples(st.just("contains"), which, gen.ints(2)),
        st.tuples(st.just("listings"), gen.ints(6)),
        st.tuples(st.just("merge"), which),
        st.tuples(st.just("write"), names, gen.ints(3)),
        st.tuples(st.just("write"), names, gen.ints(3)),
        st.tuples(st.just("read"), which, resmodel.keys(), gen.ints(4)),
        st.tuples(st.just("read"), which, resmodel.keys(), gen.ints(4)),
        st.tuples(st.just("resource"), which, gen.ints(11)),
        st.tuples(st.just("resource"), which, gen.ints(11)),
        st.tuples(st.just("classes"), which, gen.pick(*CLASSES)),
        st.tuples(st.just("curie"), gen.pick(*PREFIXES), gen.pick("", "a", "a:b"), gen.ints(3)),
        st.tuples(st.just("shrink"), gen.pick(*IRIS), gen.pick("", "a", "p0"), gen.ints(3)),
        st.tuples(st.just("copies"), gen.ints(4)),
        st.tuples(st.just("parse"), gen.pick("nt", "nq", "ttl", "jsonld"), gen.ints(2)),
        st.tuples(st.just("refused"), which, gen.ints(7)),
        st.tuples(st.just("request"), gen.ints(5)),
        st.tuples(st.just("difference"), gen.ints(2)),
        st.tuples(st.just("declare"), gen.ints(3)),
    ).map(list)  # fmt: skip


@st.composite
def cases(draw):
    triples = gen.unique(draw(resmodel.graphs()) + draw(lists()))
    return {
        "triples": triples,
        "graphs": [draw(gen.pick(None, 0, 0, 1, 2)) for _ in triples],
        "prefixes": draw(st.dictionaries(gen.pick(*PREFIXES), gen.pick(*IRIS), max_size=4)),
        "terms": draw(st.dictionaries(gen.pick("a", "b", "p0"), gen.pick(*IRIS), max_size=3)),
        "default": draw(gen.pick(None, None, NS)),
        "without": list(draw(gen.pick((), (), ("xsd",), ("rdf", "xsd")))),
        "schema": draw(resmodel.schemas()),
        "base": draw(gen.pick(None, NS, "http://e.example/a")),
        "calls": draw(gen.histories(calls(), 12)),
        "edits": draw(st.lists(st.tuples(gen.pick("row", "term", "term", "add"), gen.ints(30)).map(list), max_size=4)),
    }


class World(resmodel.World):
    def __init__(self, case):
        super().__init__(case["triples"], case["schema"])
        make = self.terms.make
        self.rows = [freeze(t) for t in case["triples"]]
        self.quads = []
        self.dataset = Dataset()
        for row, graph in zip(self.rows, case["graphs"]):
            name = None if graph is None else ("B", "g") if graph == 2 else ("I", NS + "g%d" % graph)
            self.quads.append(row + (name,))
            self.dataset.add(self.terms.quad(self.quads[-1]))
        self.env = RDFEnvironment()
        for name, iri in case["prefixes"].items():
            self.env.setPrefix(name, iri)
        for name, iri in case["terms"].items():
            self.env.setTerm(name, iri)
        for name in case.get("without", ()):
            if name not in case["prefixes"]:
                del self.env.prefixes[name]
        if case["default"]:
            self.env.setDefaultVocabulary(case["default"])
        self.base = case["base"]
        self.foreign = rdflib_graph(self.rows)
        self.other = rdflib_graph(self.rows[1::2] + [(("I", NS + "s"), ("I", NS + "p9"), ("I", NS + "o"))])
        # Terms to ask about: all there are, and one that there isn't.
        self.vocabulary = sorted({t for row in self.rows for t in row} | {freeze(ABSENT)}, key=repr)
        self.all_terms = [make(list(t)) for t in self.vocabulary]
        self.graph_names = [make(n) for n in (("I", NS + "g0"), ("I", NS + "g1"), ("B", "g"), tuple(ABSENT))]
        self.server = SPARQLServer("http://sparql.example/q", post_queries=True)
        self.store = UpdateableGraphStore("http://sparql.example/q", "http://sparql.example/data")

    def row(self, which):
        return self.rows[which % len(self.rows)] if self.rows else (("I", NS + "s"), ("I", NS + "p0"), freeze(ABSENT))

    def edit(self, edits):
        """Remove single statements and all with a term, and add one again."""
        rows = dict.fromkeys(self.rows)
        quads = dict.fromkeys(self.quads)
        for what, which in edits:
            if what == "term":
                term = self.vocabulary[which % len(self.vocabulary)]
                gone = [q for q in quads if term in q]
            elif what == "row":
                gone = [q for q in quads if q[:3] == self.row(which)]
            else:
                for q in self.quads[which % (len(self.quads) or 1) :][:1]:
                    self.graph.add(self.terms.triple(q[:3]))
                    self.dataset.add(self.terms.quad(q))
                    rows[q[:3]] = quads[q] = None
                continue
            for q in gone:
                del quads[q]
                self.dataset.remove(self.terms.quad(q))
                if q[:3] in rows:
                    del rows[q[:3]]
                    self.graph.remove(self.terms.triple(q[:3]))

    def snapshot(self):
        """Everything there is to see, from all sides."""
        graph, dataset, describe_all = self.graph, self.dataset, self.terms.describe_all
        result = {
            "triples": set(describe_all(graph)),
            "length": len(graph),
            "uri": graph.uri,
            "array": set(describe_all(graph.toArray())),
            "subjects": {self.terms.describe(t) for t in graph.subjects()},
            "predicates": {self.terms.describe(t) for t in graph.predicates()},
            "objects": {self.terms.describe(t) for t in graph.objects()},
            "quads": set(describe_all(dataset)),
            "count": len(dataset),
            "graphs": sorted((repr(self.terms.describe(g.uri)), len(g)) for g in dataset.graphs),
            "prefixes": list(self.env.prefixes.items()),
            "terms": dict(self.env.terms),
            "default": getattr(self.env.terms, "default", None),
            "class prefixes": list(self.cls.prefixes.items()),
            "class scalars": self.cls.scalars,
            "all prefixes": list(Resource.prefixes.items()),
            "global": list(Resource.global_profile.prefixes.items()),
            "foreign": set(self.foreign),
            "other": set(self.other),
            "session": dict(self.server.s.headers),
        }
        for i, term in enumerate(self.all_terms):
            for position in range(3):
                args = [None] * 3
                args[position] = term
                result[i, position] = set(describe_all(graph.match(*args)))
                result[i, position, "dataset"] = set(describe_all(dataset.match(*args)))
        for i, name in enumerate(self.graph_names):
            result["graph", i] = set(describe_all(dataset.match(graph=name)))
        return result

    def answer(self, value):
        """Something to compare answers by, whatever it is."""
        if isinstance(value, Resource):
            return ["resource", sorted(n for n, c in CLASSES.items() if isinstance(value, c)), repr(self.terms.describe(value.subject))]
        if isinstance(value, (list, tuple, set, frozenset)) and not isinstance(value, Literal):
            return sorted(repr(self.answer(v)) for v in value)
        return repr(value)


def first(n, iterator):
    """The first n of an iterator, which is then left alone; all for 0."""
    result = []
    for item in iterator:
        result.append(item)
        if len(result) == n:
            break
    return result


def run(world, call):
    """One call; returns its answer, or None if that need not be the same again."""
    name, *args = call
    graph, dataset, env, make = world.graph, world.dataset, world.env, world.terms.make
    describe_all = world.terms.describe_all
    if name == "cross":
        # Terms that are there, but perhaps not together.
        one, two, mask, whole = args
        pattern = [make(list(world.row((one, two)[mask >> i & 1])[i])) for i in range(3)]
        pattern[(one + two) % 3] = None
        if whole:
            pattern.append(world.graph_names[one % 4])
        return world.answer(describe_all((dataset if whole else graph).match(*pattern)))
    if name in ("match", "dataset match"):
        which, mask, how = args
        pattern = list(world.row(which)) + [world.graph_names[which % 4]]
        pattern = [
            (t if i == 3 else make(list(t))) if mask >> i & 1 else None for i, t in enumerate(pattern)
        ]
        if how == 2:
            pattern[which % 3] = NamedNode(ABSENT[1])
        found = graph.match(*pattern[:3]) if name == "match" else dataset.match(*pattern)
        answer = first(0 if how else 1, found)
        return sorted(map(repr, describe_all(answer))) if how else None
    if name == "contains":
        which, how = args
        row = world.row(which)
        if how == 2:
            row = row[:2] + (freeze(ABSENT),)
        quad = row + ((None, ("I", NS + "g0"), freeze(ABSENT))[which % 3],)
        triple, quad = world.terms.triple(row), world.terms.quad(quad)
        return [triple in graph, bool(triple in dataset), bool(quad in dataset)]
    if name == "listings":
        things = (graph, dataset, graph.subjects(), graph.predicates(), graph.objects(), dataset.graphs, graph.toArray())
        return len(first(0, things[args[0]]))
    if name == "merge":
        other = Graph()
        other.add(world.terms.triple(world.row(args[0])))
        merged = [graph.merge(other), other.merge(graph), Graph().merge(graph), graph.merge(Graph())]
        merged += [graph.merge(graph), Graph().addAll(graph), env.createGraph(graph), env.createGraph(graph.toArray())]
        copied = Dataset().addAll(dataset)
        answer = [sorted(map(repr, describe_all(g))) for g in merged]
        for g in merged + [other]:
            g.add(world.terms.triple(("I", NS + "new%d" % i) for i in range(3)))
            g.removeMatches(make(list(world.row(args[0])[0])), None, None)
        copied.removeMatches(None, make(list(world.row(args[0])[1])), None)
        for g in list(copied.graphs):
            copied.remove_graph(g)
        return answer
    if name == "write":
        f = io.StringIO()
        if args[0] == "serialize_ntriples":
            serialize_ntriples(graph, f)
        elif args[0] == "serialize_nquads":
            serialize_nquads(dataset, f)
        else:
            serialize_turtle(
                graph, f, base=world.base if args[1] & 1 else None, profile=env if args[1] & 2 else None
            )
            return f.getvalue()
        return sorted(f.getvalue().split("\n"))
    if name == "read":
        which, key, how = args
        resource = world.cls(graph, make(list(subject_of(world, which))))
        key = resmodel.make_key(key)
        try:
            if how == 0:
                return bool(key in resource)
            if how == 1:
                return world.answer(resource.get_scalar(key))
            found = resource[key]
            if isinstance(found, (Resource, Literal)) or found is None:
                return world.answer(found)
            return world.answer(first(1 if how == 2 else 0, found)) if how != 2 else len(first(1, found))
        except ValueError:
            return "refused"
    if name == "resource":
        which, how = args
        node = make(list(subject_of(world, which)))
        resource = world.cls(graph, node)
        predicate = NamedNode(NS + PREDICATES[which % 3])
        try:
            if how == 0:
                return str(resource)
            if how == 1:
                return world.answer(list(resource))
            if how == 2:
                return world.answer(list(resource.object_of()))
            if how == 3:
                return world.answer(list(resource.object_of(predicate)))
            if how == 4:
                return world.answer(Resource.classify(graph, node))
            if how == 5:
                found = [resource.objects(predicate), resource.bare_literals(predicate)]
                found += [resource.objects_by_lang(predicate, lang) for lang in (None, "", "en")]
                found += [resource.objects_by_datatype(predicate, NamedNode(d)) for d in resmodel.DATATYPES]
                found += [resource.objects_by_type(predicate, cls) for cls in (None, *CLASSES.values())]
                answer = [world.answer(f) for f in found]
                for f in found:  # what was handed out isn't the graph's
                    if isinstance(f, list):
                        f.clear()
                return answer
            if how == 6:
                return [resource.is_a(), bool(resource == node), repr(resource) and len({resource, node})]
            if how == 7:
                return bool(List.is_list(node, graph))
            if how == 8:
                # Lists in the graph have few cells, but others could be cyclic.
                return world.answer(first(8, List(graph, node)))
            if how == 9:
                return world.answer(resource.as_(resmodel.A))
            if how == 10:
                return world.answer(list(resource[RDFS + "label", None]))
            return [hash(resource) == hash(node), resource.resolve("ex:p0"), bool("ex:p0" in resource)]
        except (ValueError, AttributeError, TypeError):
            return "refused"
    if name == "classes":
        which, cls = args
        cls = CLASSES[cls]
        return [world.answer(cls.in_graph(graph)), cls(graph, make(list(subject_of(world, which)))).is_a()]
    if name in ("curie", "shrink"):
        first_part, second, how = args
        text = first_part + (":" if name == "curie" else "") + second
        try:
            if name == "curie":
                methods = (env.resolve, env.prefixes.resolve, env.terms.resolve, world.cls.resolve)
            else:
                methods = (env.prefixes.shrink, env.terms.shrink, env.terms.resolve, env.prefixes.shrink)
            return repr(methods[how](text))
        except (ValueError, KeyError):
            return "refused"
    if name == "copies":
        made = (
            env.createProfile(),
            RDFEnvironment().importProfile(env),
            PrefixMap(env.prefixes),
            env.createPrefixMap(),
            env.createTermMap(),
        )[args[0]]
        for profile in [made] if hasattr(made, "setPrefix") else []:
            profile.setPrefix("ex", "http://other/")
            profile.setTerm("a", "http://other/")
            profile.setDefaultPrefix("http://other/")
            profile.setDefaultVocabulary("http://other/")
        if isinstance(made, (PrefixMap, TermMap)):
            made.setDefault("http://other/")
            made["ex"] = "http://other/"
            made.addAll({"c": "http://other/", "a": "http://other/"}, override=True)
        return None
    if name == "parse":
        kind, how = args
        if kind == "jsonld":
            data = {"@id": "http://a/s", "http://a/p": [{"@value": "x"}, {"@id": "_:b"}], "http://a/q": {"@list": [1, "a"]}}
            if how:
                data = {"@context": {"a": "http://a/", "p": {"@id": "a:p", "@type": "@id"}}, "@id": "a:s", "p": ["a:o", "_:b"]}
            if how == 2:
                data["@type"] = 1  # which isn't valid
            before, options = copy.deepcopy(data), {"base": "http://a/"}
            try:
                found = len(jsonld_parser.parse_json(data, options=options))
            except Exception:
                found = "refused"
            assert data == before and json.dumps(data) == json.dumps(before), "the data was changed"
            assert options == {"base": "http://a/"}, "the options were changed"
            return found
        parser = {"nt": ntriples_parser, "nq": nquads_parser, "ttl": turtle_parser}[kind]
        text = "<http://ex.example/s> <http://ex.example/p0> _:0 .\n" + ("", "<a> b", "_:0 <urn:p> 'a' .\n")[how]
        try:
            return len(parser.parse(text))
        except Exception:
            return "refused"
    if name == "refused":
        return refused(world, *args)
    if name == "request":
        return request(world, *args)
    if name == "difference":
        if args[0] == 0:
            exclude = [NS + "p9"]
            removed, added = differences(world.foreign, world.other, exclude)
            answer = [len(removed), len(added)]
            removed.clear(), added.clear()
            assert exclude == [NS + "p9"]
            return answer
        if args[0] == 1:
            return len(changeset(world.foreign, world.other, NS + "s"))
        return [len(d) for d in differences(world.foreign, world.foreign)]
    if name == "declare":
        prefixes, scalars = {"ex": "http://other/", "rdfs": "http://other/"}, ["ex:x", "rdfs:y"]
        made = type(Resource)("Made", ((Resource,), (world.cls,), (resmodel.C,), (resmodel.B, world.cls))[args[0]], {
            "prefixes": prefixes, "scalars": scalars})
        assert made.resolve("ex:x") == "http://other/x" and "http://other/y" in made.scalars
        assert prefixes == {"ex": "http://other/", "rdfs": "http://other/"}, f"prefixes became {prefixes}"
        assert scalars == ["ex:x", "rdfs:y"], f"scalars became {scalars}"
        made.prefixes["c"] = "http://other/"
        return None
    raise ValueError(name)


def subject_of(world, which):
    subjects = sorted({t for row in world.rows for t in (row[0], row[2]) if t[0] != "L"}, key=repr)
    subjects.append(("I", NS + "absent"))
    return subjects[which % len(subjects)]


def refused(world, which, how):
    """Changes that have to be refused, or don't apply to anything."""
    graph, dataset, make = world.graph, world.dataset, world.terms.make
    row = world.row(which)
    absent = world.terms.triple(row[:2] + (freeze(ABSENT),))
    resource = world.cls(graph, make(list(subject_of(world, which))))
    name = NamedNode(NS + PREDICATES[which % 3])
    wrong = [
        lambda: graph.remove(absent),
        lambda: dataset.remove(world.terms.quad(row[:2] + (freeze(ABSENT), ("I", NS + "g0")))),
        lambda: dataset.remove(world.terms.quad(row + (freeze(ABSENT),))),
        lambda: dataset.remove_graph(NamedNode(ABSENT[1])),
        lambda: dataset.add_graph(Graph()),
        lambda: resource.__setitem__((name, "fr"), Literal("x", language="de")),
        lambda: resource.__setitem__((name, resmodel.B), "not one"),
        lambda: graph.removeMatches(NamedNode(ABSENT[1]), None, None),
    ][how]
    try:
        wrong()
    except (KeyError, ValueError):
        return "refused"
    return None


def request(world, how):
    sent = []

    def respond(message):
        sent.append(message.body)
        if how == 3:
            return 500, {"content-type": "text/plain"}, b"no"
        if message.method == "GET":
            return 200, {"content-type": "text/turtle"}, b"<urn:a> <urn:b> <urn:c> ."
        return 200 if how < 2 else 204, {"content-type": "application/sparql-results+json"}, b"{}"

    graphs = ["urn:g0", "urn:g1"]
    named = ("urn:g2",)
    with http.network(respond):
        try:
            if how == 0:
                world.server.query("ASK {}", default_graph=graphs, named_graph=named)
            elif how == 1:
                world.server.query("ASK {}", output="xml", default_graph=graphs)
            elif how == 2:
                world.server.update("CLEAR ALL", default_graph=graphs, named_graph=named)
            elif how == 3:
                world.store.put(NS + "g0", world.foreign)
            elif how == 4:
                world.store.put(NS + "g0", world.foreign)
                world.store.post(NS + "g0", world.other)
            else:
                world.store.get(NS + "g0")
        except Exception:
            assert how == 3, "an exception without a failure"
    assert graphs == ["urn:g0", "urn:g1"] and named == ("urn:g2",), "arguments were changed"
    return len(sent)


def body(case, rec):
    world = World(case)
    before = world.snapshot()
    answers = {}
    for call in case["calls"]:
        answer = run(world, call)
        key = json.dumps(call)
        if answer is not None:
            assert answers.setdefault(key, answer) == answer, f"{call}: first {answers[key]}, now {answer}"
        after = world.snapshot()
        for what in before:
            assert before[what] == after[what], f"{call} changed {what}: {before[what]} to {after[what]}"
        rec.label(call[0])
    # And all of it once more.
    for call in case["calls"]:
        answer = run(world, call)
        if answer is not None:
            key = json.dumps(call)
            assert answers.setdefault(key, answer) == answer, f"{call}: first {answers[key]}, now {answer}"
    after = world.snapshot()
    assert before == after, "the second time something changed"
    rec.interesting(len(world.rows) > 2 and len({c[0] for c in case["calls"]}) > 2)
    # Nor does it show later, when changes are made, that questions were asked before.
    if case.get("edits"):
        fresh = World(case)
        for one in (world, fresh):
            one.edit(case["edits"])
        asked, unasked = world.snapshot(), fresh.snapshot()
        for what in asked:
            if what not in ("foreign", "other"):
                assert asked[what] == unasked[what], f"{what} is {asked[what]}, without the calls {unasked[what]}"


# inputs


@st.composite
def input_cases(draw):
    return {
        "quads": draw(gen.datasets(6)),
        "container": draw(gen.pick("list", "set", "dict", "deque", "tuple", "generator")),
        "values": draw(st.lists(resmodel.objects(), max_size=3)),
        "key": draw(resmodel.keys()),
        "prefixes": draw(st.dictionaries(gen.pick(*PREFIXES), gen.pick(*IRIS), max_size=4)),
        "override": draw(gen.pick(None, False, True)),
    }


def input_body(case, rec):
    from collections import deque

    terms = Terms()
    make = {"list": list, "set": set, "dict": dict.fromkeys, "deque": deque, "tuple": tuple, "generator": list}[
        case["container"]
    ]
    rec.label(case["container"])
    rec.interesting(len(case["quads"]) > 1 or len(case["prefixes"]) > 1)
    quads = [terms.quad(q) for q in case["quads"]]
    triples = [terms.triple(q[:3]) for q in case["quads"]]
    env = RDFEnvironment()
    for things, targets in (
        (triples, [Graph().addAll, env.createGraph]),
        (quads, [Dataset().addAll, env.createDataset]),
    ):
        for target in targets:
            given = make(things)
            kept = list(given)
            result = target(t for t in given) if case["container"] == "generator" else target(given)
            assert list(given) == kept, "what was given changed"
            if hasattr(given, "clear"):
                given.clear()
            elif hasattr(given, "append"):
                given.append(None)
            assert set(result) == set(things), "the result changed with what was given"
            assert len(result) == len(set(things))
            kept = make(things)
            if kept and hasattr(kept, "clear"):
                for thing in set(things):
                    result.remove(thing)
                assert len(result) == 0
                assert list(kept) == list(make(things))
    # Values assigned.
    graph = Graph()
    resource = resmodel.make_class((), None)(graph, NS + "s")
    values = {"list": list, "set": set, "tuple": tuple}.get(case["container"], list)(terms.make(v) for v in case["values"])
    kept = list(values)
    try:
        resource[resmodel.make_key(case["key"])] = values
    except ValueError:
        assert len(graph) == 0, "refused, but something was stored"
    else:
        assert {t.object for t in graph} == set(kept)
        if hasattr(values, "clear"):
            values.clear()
            assert {t.object for t in graph} == set(kept), "the graph changed with the values"
            values = kept
    assert list(values) == kept, "the values changed"
    # Lists and maps that helpers are given.
    nodes = [t.subject for t in triples]
    literals = [terms.make(v) for v in case["values"]]
    curies = [p + ":x" for p in case["prefixes"]]
    namespaces = dict(case["prefixes"])
    given = (nodes, literals, curies, namespaces)
    kept = [list(nodes), list(literals), list(curies), dict(namespaces)]
    named = turtle_sorted_names(list(dict.fromkeys(nodes)), str)
    assert sorted(str(n) for n in set(nodes)) == [name for name, _ in named]
    assert list(parse_curies(curies, namespaces)) == [parse_curie(c, namespaces) for c in curies]
    turtle_sorted_names(nodes[:0] or nodes, str) if len(set(nodes)) == len(nodes) else None
    for node in nodes:
        to_curie(str(node), namespaces)
    list(grouper(nodes, 2))
    assert one_or_none(literals[:1]) == (literals[0] if literals else None)
    if len(literals) < 2:
        one_or_none(literals)
    assert [*map(list, given[:3])] == kept[:3] and list(namespaces.items()) == list(kept[3].items())
    # Maps.
    for cls in (PrefixMap, TermMap):
        given = dict(case["prefixes"])
        made = cls(given)
        grown = cls().addAll(given, **({} if case["override"] is None else {"override": case["override"]}))
        made["new"], grown["new"] = "urn:new", "urn:new"
        assert given == case["prefixes"] and list(given) == list(case["prefixes"])
        given["later"] = "urn:later"
        for one in (made, grown):
            assert dict(one) == {**case["prefixes"], "new": "urn:new"}, dict(one)
            assert "later" not in one


PROPS = [
    Prop("readings", cases, body, quick=2400),
    Prop("inputs", input_cases, input_body, quick=1000),
]
