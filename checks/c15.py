"""C15: profiles and environments are maps of one's own."""

from hypothesis import strategies as st

from pbt import gen, mined
from pbt.core import Prop
from pbt.terms import RDF, XSD, Terms, plain

from pymantic.primitives import (
    BlankNode,
    Dataset,
    Graph,
    Literal,
    NamedNode,
    PrefixMap,
    Profile,
    RDFEnvironment,
    TermMap,
)

ID = "C15"
RULE = (
    "A case is a history of calls on a few profiles and environments (setPrefix, setTerm,"
    " defaults, importProfile and addAll with and without override, createProfile,"
    " createPrefixMap and createTermMap, of which some are then modified), each compared"
    " with a pair of dictionaries of its own: after every call (or every few) all of them resolve and"
    " shrink as their dictionaries say. Non-trivial: an import or a creation is followed"
    " by a change to either side."
)
PREFIXES = ["", "ex", "foo", "rdf", "xsd", "a"]
TERMS = ["label", "member", "a", "ex", "", "é"]
# Terms that look like CURIEs, and are such to profiles.
COLONS = ["ex:x", ":x", "foo:x"]
IRIS = [
    "http://e.example/",
    "http://e.example/a",
    "http://e.example/a#",
    "urn:x:",
    RDF,
    XSD,
    "http://e.example/label",
]


def ops():
    which = gen.ints(5)
    override = st.one_of(st.none(), st.booleans())
    return st.one_of(
        st.tuples(st.just("setPrefix"), which, gen.pick(*PREFIXES), gen.pick(*IRIS)),
        st.tuples(st.just("prefixes[]"), which, gen.pick(*PREFIXES), gen.pick(*IRIS)),
        st.tuples(st.just("setTerm"), which, gen.pick(*TERMS, *COLONS), gen.pick(*IRIS)),
        st.tuples(st.just("terms[]"), which, gen.pick(*TERMS, *COLONS), gen.pick(*IRIS)),
        st.tuples(st.just("setDefaultPrefix"), which, gen.pick(*IRIS)),
        st.tuples(st.just("setDefaultVocabulary"), which, gen.pick(*IRIS)),
        st.tuples(st.just("importProfile"), which, which, override),
        st.tuples(st.just("importProfile"), which, which, override),
        st.tuples(st.just("prefixes.addAll"), which, which, override),
        st.tuples(st.just("terms.addAll"), which, which, override),
        st.tuples(st.just("del"), which, gen.pick(*PREFIXES), gen.pick(*TERMS)),
        st.tuples(st.just("new"), gen.ints(4), which),
        st.tuples(st.just("createProfile"), which, st.one_of(st.none(), st.booleans())),
        st.tuples(st.just("createProfile"), which, st.one_of(st.none(), st.booleans())),
        st.tuples(st.just("createMaps"), which, st.one_of(st.none(), st.booleans())),
        st.tuples(st.just("quiet"), gen.ints(3)),
    ).map(list)


class Model:
    def __init__(self, prefixes, terms, default=None):
        self.prefixes = prefixes
        self.terms = terms
        self.default = default
        self.complete()

    def complete(self):
        self.prefixes.setdefault("rdf", RDF)
        self.prefixes.setdefault("xsd", XSD)


def add_all(mine, other, override):
    for k, v in other.items():
        if override or k not in mine:
            mine[k] = v


def check(profile, model):
    assert dict(profile.prefixes) == model.prefixes, (dict(profile.prefixes), model.prefixes)
    assert dict(profile.terms) == model.terms, (dict(profile.terms), model.terms)
    for name in PREFIXES:
        curie = name + ":x"
        for resolve in (profile.resolve, profile.prefixes.resolve):
            if name in model.prefixes:
                assert plain(resolve(curie)) == model.prefixes[name] + "x", curie
            else:
                try:
                    result = resolve(curie)
                except ValueError:
                    pass
                else:
                    assert result is None, f"{curie!r} resolves to {result!r}"
    for term in TERMS + COLONS:
        if term in model.terms:
            expected = model.terms[term]
        elif model.default is not None:
            expected = model.default + term
        else:
            expected = None
        for resolve in (profile.resolve, profile.terms.resolve)[":" in term :]:
            assert resolve(term) == expected, f"{term!r}: {resolve(term)!r}, {expected!r}"
    for iri in IRIS + ["http://e.example/zz"]:
        shrunk = profile.terms.shrink(iri)
        known = {t for t, i in model.terms.items() if i == iri}
        assert shrunk in known if known else shrunk == iri, (iri, shrunk, known)
        shrunk = profile.prefixes.shrink(iri + "x")
        matches = {n: ns for n, ns in model.prefixes.items() if (iri + "x").startswith(ns)}
        longest = max(map(len, matches.values()), default=0)
        forms = {n + ":" + (iri + "x")[longest:] for n, ns in matches.items() if len(ns) == longest}
        assert shrunk in (forms or {iri + "x"}), (iri + "x", shrunk, forms)


def keyword(override):
    return {} if override is None else {"override": override}


def body(case, rec):
    profiles = [RDFEnvironment(), Profile()]
    models = [Model({}, {}), Model({}, {})]
    linked = False
    quiet = 0
    for op in case:
        name = op[0]
        if name == "quiet":
            # Nobody asks for anything in between the next calls.
            quiet = 1 + op[1]
            continue
        i = op[1] % len(profiles)
        profile, model = profiles[i], models[i]
        if name == "new":
            j = op[2] % len(profiles)
            if op[1] == 0:
                profiles.append(RDFEnvironment())
                models.append(Model({}, {}))
            elif op[1] == 1:
                profiles.append(Profile())
                models.append(Model({}, {}))
            elif op[1] == 2:
                # The maps given are the profile's maps.
                prefixes, terms = PrefixMap(), TermMap()
                profiles.append(Profile(prefixes, terms))
                assert profiles[-1].prefixes is prefixes and profiles[-1].terms is terms
                models.append(Model({}, {}))
            elif op[1] == 3:
                profiles.append(Profile(PrefixMap(profiles[j].prefixes)))
                models.append(Model(dict(models[j].prefixes), {}))
            else:
                profiles.append(RDFEnvironment(terms=TermMap(profiles[j].terms)))
                models.append(Model({}, dict(models[j].terms)))
        elif name in ("setPrefix", "prefixes[]"):
            if name == "setPrefix":
                profile.setPrefix(op[2], op[3])
            else:
                profile.prefixes[op[2]] = op[3]
            model.prefixes[op[2]] = op[3]
            rec.interesting(linked)
        elif name in ("setTerm", "terms[]"):
            if name == "setTerm":
                profile.setTerm(op[2], op[3])
            else:
                profile.terms[op[2]] = op[3]
            model.terms[op[2]] = op[3]
            rec.interesting(linked)
        elif name == "setDefaultPrefix":
            profile.setDefaultPrefix(op[2])
            model.prefixes[""] = op[2]
            rec.interesting(linked)
        elif name == "setDefaultVocabulary":
            profile.setDefaultVocabulary(op[2])
            model.default = op[2]
            rec.interesting(linked)
        elif name in ("importProfile", "prefixes.addAll", "terms.addAll"):
            j = op[2] % len(profiles)
            other, override = models[j], op[3]
            if name == "importProfile":
                result = profile.importProfile(profiles[j], **keyword(override))
                assert result is profile
            elif name == "prefixes.addAll":
                result = profile.prefixes.addAll(profiles[j].prefixes, **keyword(override))
                assert result is profile.prefixes
            else:
                result = profile.terms.addAll(profiles[j].terms, **keyword(override))
                assert result is profile.terms
            if name != "terms.addAll":
                add_all(model.prefixes, other.prefixes, override)
            if name != "prefixes.addAll":
                add_all(model.terms, other.terms, override)
            linked = True
        elif name == "del":
            if op[2] in model.prefixes:
                del profile.prefixes[op[2]], model.prefixes[op[2]]
            if op[3] in model.terms:
                del profile.terms[op[3]], model.terms[op[3]]
        elif isinstance(profile, RDFEnvironment):
            kwargs = {} if op[2] is None else {"empty": op[2]}
            new = (
                Model({}, {})
                if op[2]
                else Model(dict(model.prefixes), dict(model.terms), model.default)
            )
            if name == "createProfile":
                profiles.append(profile.createProfile(**kwargs))
            else:
                prefixes = profile.createPrefixMap(**kwargs)
                terms = profile.createTermMap(**kwargs)
                assert isinstance(prefixes, PrefixMap) and isinstance(terms, TermMap)
                if op[2]:
                    assert not prefixes and not terms
                profiles.append(Profile(prefixes, terms))
            models.append(new)
            linked = True
        rec.label(name)
        del profiles[6:], models[6:]
        quiet = max(0, quiet - 1)
        if not quiet:
            for profile, model in zip(profiles, models):
                check(profile, model)
    for profile, model in zip(profiles, models):
        check(profile, model)


def factory_cases():
    return gen.datasets(6)


def factory_body(case, rec):
    """create... methods make what they are asked for."""
    rec.interesting(len(case) > 1)
    env = RDFEnvironment()
    terms = Terms()

    def make(t):
        if t is None:
            return None
        if t[0] == "I":
            node = env.createNamedNode(t[1])
            assert type(node) is NamedNode
            return node
        if t[0] == "B":
            return terms.node(t[1])
        return env.createLiteral(
            t[1], t[2], None if t[3] is None else env.createNamedNode(t[3])
        )

    quads = [env.createQuad(*map(make, q)) for q in case]
    triples = [env.createTriple(*map(make, q[:3])) for q in case]
    for q, t, data in zip(quads, triples, case):
        assert q == terms.quad(data) and t == terms.triple(data[:3])
        assert (q.subject, q.predicate, q.object, q.graph) == tuple(q)
        assert (t.subject, t.predicate, t.object) == tuple(t) == tuple(q)[:3]
    dataset = env.createDataset(quads)
    assert isinstance(dataset, Dataset)
    assert set(dataset) == set(quads) and len(dataset) == len(set(quads))
    graph = env.createGraph(triples)
    assert isinstance(graph, Graph)
    assert set(graph) == set(triples) and len(graph) == len(set(triples))
    assert env.createGraph(graph.toArray()).toArray() == graph.toArray()
    assert len(env.createGraph()) == 0 and len(env.createDataset()) == 0
    nodes = {env.createBlankNode() for _ in range(len(case) + 2)}
    assert len(nodes) == len(case) + 2
    assert all(isinstance(n, BlankNode) for n in nodes)


def many_cases():
    return st.fixed_dictionaries(
        {
            "count": mined.sizes(700),
            "nested": st.booleans(),
            "start": gen.ints(3),
            "override": st.one_of(st.none(), st.booleans()),
            "again": gen.ints(4),
        }
    )


def many_body(case, rec):
    """Maps with many entries, of which some are replaced and deleted later."""
    n = case["count"]
    rec.interesting(n > 30)
    rec.label("nested" if case["nested"] else "side by side")

    def namespace(i, version=0):
        if case["nested"]:
            return "http://e.example/" + "x/" * (i % 300) + "%d/" % i * (version + i // 300)
        return "http://e.example/%d/%d/" % (i, version)

    env = RDFEnvironment()
    prefixes, terms = {"rdf": RDF, "xsd": XSD}, {}
    for i in range(n):
        env.setPrefix("p%d" % i, namespace(i))
        env.setTerm("t%d" % i, namespace(i) + "t")
        prefixes["p%d" % i] = namespace(i)
        terms["t%d" % i] = namespace(i) + "t"
    copies = [env.createProfile(), Profile().importProfile(env, override=True)]
    other = Profile()
    for i in range(case["start"], n, 2 + case["again"]):
        other.setPrefix("p%d" % i, namespace(i, 1))
        other.setTerm("t%d" % i, namespace(i, 1) + "t")
    for i in range(case["start"], n, 3 + case["again"]):
        del env.prefixes["p%d" % i], env.terms["t%d" % i]
    expected = [(dict(prefixes), dict(terms)) for _ in copies]
    for profile, (mine, my_terms) in zip(copies, expected):
        profile.importProfile(other, **keyword(case["override"]))
        add_all(mine, dict(other.prefixes), case["override"])
        add_all(my_terms, dict(other.terms), case["override"])
    for i in range(case["start"], n, 3 + case["again"]):
        del prefixes["p%d" % i], terms["t%d" % i]
    for profile, (mine, my_terms) in zip([env] + copies, [(prefixes, terms)] + expected):
        assert dict(profile.prefixes) == mine, "prefixes"
        assert dict(profile.terms) == my_terms, "terms"
        names = {}
        for name, ns in mine.items():
            names.setdefault(ns, set()).add(name)
        for i in sorted({*range(0, n, 1 + n // 30), 0, n - 1}):
            name = "p%d" % i
            if name in mine:
                assert plain(profile.resolve(name + ":a")) == mine[name] + "a", name
            else:
                try:
                    result = profile.resolve(name + ":a")
                except ValueError:
                    result = None
                assert result is None, f"{name} resolves to {result!r}"
            term = "t%d" % i
            assert profile.resolve(term) == my_terms.get(term), term
            for iri in (namespace(i) + "a", namespace(i, 1) + "a/x"):
                best = max((ns for ns in names if iri.startswith(ns)), key=len, default=None)
                forms = {iri} if best is None else {f"{p}:{iri[len(best):]}" for p in names[best]}
                shrunk = profile.prefixes.shrink(iri)
                assert shrunk in forms, f"{iri} becomes {shrunk!r}"
            iri = namespace(i) + "t"
            known = {t for t, value in my_terms.items() if value == iri}
            assert profile.terms.shrink(iri) in (known or {iri}), iri


PROPS = [
    Prop("many", many_cases, many_body, quick=80),
    Prop("histories", lambda: gen.histories(ops(), 14), body, quick=1500),
    Prop("factories", factory_cases, factory_body, quick=500),
]
