"""C27: classes of resources inherit prefixes and scalars from all their parents."""

import itertools

from hypothesis import strategies as st

from pbt import gen, mined
from pbt.core import Prop
from pbt.terms import RDF, RDFS, XSD, plain

from pymantic.primitives import Graph, Literal, NamedNode, Prefix, Profile, Triple
from pymantic.rdf import Resource

ID = "C27"
RULE = (
    "hierarchies: up to eight classes, each with up to three of the earlier ones as parents,"
    " prefixes that may be those of its parents, scalars given by CURIE or IRI, and a"
    " profile of its own or not, and prefixes bound to classes that are there already, which"
    " are theirs and of classes derived from them later; after each of these all classes so far are asked to"
    " resolve CURIEs, IRIs and unknown prefixes, and read, as resources, labels in some languages and predicates which"
    " are and aren't scalars. A model merges what is declared from the top down; where"
    " unrelated parents disagree about a prefix, either's will do. skos: a graph of concepts"
    " and schemes, accessed by the classes that are part of the package. Non-trivial: a class"
    " overrides a prefix of a parent, or has several parents with declarations"
    " (hierarchies); two or more nodes have a type and a label (skos)."
)

PREFIXES = ("a", "b", "c", "", "rdfs", "rdf", "x-y")
IRIS = tuple("http://ns.example/%d#" % i for i in range(5))
NAMES = ("p", "q", "label")
LANGS = ("en", "fr", "de")
counter = itertools.count()


def profiles():
    """Prefixes, terms, and a default vocabulary."""
    iris = gen.pick(*IRIS)
    return st.tuples(
        st.dictionaries(gen.pick("a", "d", "e", ""), iris, max_size=2),
        st.dictionaries(gen.pick("n", "p", "term"), iris.map(lambda i: i + "term"), max_size=1),
        st.one_of(st.none(), st.none(), iris),
    ).map(list)


@st.composite
def class_cases(draw):
    prefixes = draw(st.dictionaries(gen.pick(*PREFIXES), gen.pick(*IRIS), max_size=3))
    scalars = draw(
        st.lists(
            st.one_of(
                st.tuples(gen.pick(*PREFIXES), gen.pick(*NAMES)).map(":".join),
                gen.pick(*NAMES),
                st.tuples(gen.pick(*IRIS), gen.pick(*NAMES)).map("".join),
            ),
            max_size=3,
        )
    )
    return {
        "bases": draw(st.lists(gen.ints(7), max_size=3)),
        "prefixes": draw(gen.pick(True, True, False)) and prefixes,
        "scalars": draw(gen.pick(True, True, False)) and scalars,
        "kind": draw(gen.pick("list", "set", "frozenset", "tuple")),
        "profile": draw(st.one_of(st.none(), st.none(), profiles())),
        "lang": draw(gen.pick(None, None, *LANGS)),
    }


def cases():
    # Prefixes can be bound to a class that is there already as well.
    bindings = st.tuples(st.just("bind"), gen.ints(7), gen.pick(*PREFIXES), gen.pick(*IRIS)).map(list)
    return st.lists(
        st.one_of(class_cases(), class_cases(), class_cases(), bindings), min_size=1, max_size=10
    )


class Model:
    def __init__(self):
        self.shadow = type("Shadow", (), {})
        self.real = Resource
        # Each prefix with all values that may be right.
        self.prefixes = {"rdf": {RDF}, "rdfs": {RDFS}}
        self.scalars = {RDFS + "label"}


def top():
    model = Model()
    model.shadow.profile = {"rdf": RDF, "xsd": XSD}
    model.shadow.words = ({}, None)
    model.shadow.lang = "en"
    return model


def define(spec, models):
    """Define a class; returns its model or None if Python doesn't allow it."""
    bases = []
    for index in spec["bases"]:
        base = models[index % len(models)]
        if base not in bases:
            bases.append(base)
    bases = bases or [models[0]]
    model = Model()
    try:
        model.shadow = type("Shadow", tuple(b.shadow for b in bases), {})
    except TypeError:
        return None  # no consistent order of methods
    merged = {}
    for base in bases:
        for prefix, values in base.prefixes.items():
            merged.setdefault(prefix, set()).update(values)
    inherited = {p: set(v) for p, v in merged.items()}
    own = spec["prefixes"] or {}
    merged.update({p: {v} for p, v in own.items()})
    model.prefixes = merged
    model.scalars = set().union(*(b.scalars for b in bases))
    namespace = {}
    if spec["prefixes"] is not False:
        namespace["prefixes"] = dict(own)
    scalars = []
    for scalar in spec["scalars"] or []:
        prefix, _, name = (scalar if ":" in scalar else ":" + scalar).partition(":")
        if not scalar.startswith("http:"):
            # Only such as can be resolved, and only one way.
            if len(merged.get(prefix, ())) != 1:
                continue
            (value,) = merged[prefix]
            model.scalars.add(value + name)
        else:
            model.scalars.add(scalar)
        scalars.append(scalar)
    if spec["scalars"] is not False:
        namespace["scalars"] = {"list": list, "set": set, "frozenset": frozenset, "tuple": tuple}[
            spec["kind"]
        ](scalars)
    # Other attributes are inherited as those of any class are.
    if spec["profile"] is not None:
        profile = Profile()
        prefixes, terms, vocabulary = spec["profile"]
        for prefix, value in prefixes.items():
            if prefix:
                profile.setPrefix(prefix, value)
            else:
                profile.setDefaultPrefix(value)
        for term, value in terms.items():
            profile.setTerm(term, value)
        if vocabulary is not None:
            profile.setDefaultVocabulary(vocabulary)
        namespace["global_profile"] = profile
        model.shadow.profile = {"rdf": RDF, "xsd": XSD, **prefixes}
        model.shadow.words = (terms, vocabulary)
    if spec.get("lang") is not None:
        namespace["lang"] = model.shadow.lang = spec["lang"]
    declared = dict(namespace.get("prefixes", {}))
    model.real = type(Resource)("C%d" % next(counter), tuple(b.real for b in bases), namespace)
    assert declared == own
    model.overrides = any(p in inherited and inherited[p] != {v} for p, v in own.items())
    model.several = sum(bool(len(b.prefixes) > 2 or len(b.scalars) > 1) for b in bases) > 1
    return model


def body(case, rec):
    root = top()
    models = [root]
    before = list(Resource.prefixes.items())
    try:
        for spec in case:
            if isinstance(spec, list):
                _, index, prefix, iri = spec
                bind(models[index % len(models)], prefix, iri)
                rec.label("bound")
                rec.interesting(len(models) > 2)
            else:
                model = define(spec, models)
                if model is None:
                    rec.label("no such class")
                    continue
                rec.label("class", *(["overrides"] if model.overrides else []))
                rec.interesting(model.overrides or model.several)
                models.append(model)
            for m in models:
                check(m)
    finally:
        Resource.prefixes.clear()
        Resource.prefixes.update(before)


def bind(model, prefix, iri):
    if model.real is Resource and prefix in ("rdf", "rdfs"):
        return
    model.real.prefixes[prefix] = Prefix(iri)
    # That is about classes derived from it later, and not about its parents.
    model.prefixes = {**model.prefixes, prefix: {iri}}


UNKNOWN = "unknown"


def attempt(cls, name):
    """What a name stands for, UNKNOWN if it's refused."""
    try:
        return cls.resolve(name)
    except ValueError:
        return UNKNOWN


def check(model):
    cls = model.real
    for prefix in PREFIXES + ("d", "e", "xsd"):
        if prefix in model.prefixes:
            values = model.prefixes[prefix]
        else:
            values = {model.shadow.profile[prefix]} if prefix in model.shadow.profile else set()
        for curie in (prefix + ":n", f"[{prefix}:n]"):
            found = attempt(cls, curie)
            if not values:
                assert found is UNKNOWN, f"{curie} is {found!r}, without a prefix for it"
            else:
                assert found is not UNKNOWN, f"{curie} can't be resolved"
                assert plain(found) in {v + "n" for v in values}, f"{curie} is {found!r}, not of {values}"
                assert isinstance(found, NamedNode)
    terms, vocabulary = model.shadow.words
    for word in ("n", "term", "other"):
        # A word is of the default prefix if there is one, or else the profile's.
        if "" in model.prefixes:
            values = {v + word for v in model.prefixes[""]}
        elif word in terms:
            values = {terms[word]}
        else:
            values = {vocabulary + word} if vocabulary is not None else set()
        found = attempt(cls, word)
        if values:
            assert found is not UNKNOWN and plain(found) in values, f"{word} is {found!r}"
        else:
            assert found is UNKNOWN, f"{word} is {found!r}, but isn't defined"
    iri = "http://ns.example/0#p"
    assert plain(cls.resolve(iri)) == iri
    # What is a scalar is seen when it is read.
    graph = Graph()
    subject = NamedNode("http://s.example/")
    resource = cls(graph, subject)
    for predicate in [v + n for v in IRIS for n in NAMES] + [RDFS + "label", RDF + "p"]:
        scalar = predicate in model.scalars
        empty = resource[predicate]
        if scalar:
            assert empty is None, f"scalar {predicate} reads {empty!r}"
        else:
            assert empty is not None and list(empty) == [], f"{predicate} reads {empty!r}"
    expected = Literal("v", language=model.shadow.lang)
    graph.add(Triple(subject, NamedNode(IRIS[0] + "p"), expected))
    value = resource[IRIS[0] + "p"]
    if IRIS[0] + "p" in model.scalars:
        assert value == expected, repr(value)
    else:
        assert list(value) == [expected], repr(value)
    for language in LANGS:
        graph.add(Triple(subject, NamedNode(RDFS + "label"), Literal(language, language=language)))
    value = resource["rdfs:label"] if model.prefixes["rdfs"] == {RDFS} else resource[RDFS + "label"]
    lang = model.shadow.lang
    assert value == Literal(lang, language=lang), f"{value!r} for a class with language {lang}"


# skos

SKOS = "http://www.w3.org/2004/02/skos/core#"


def skos_cases():
    label = st.tuples(gen.text(4), gen.pick("en", "en-us", "fr", "de")).map(list)
    node = st.fixed_dictionaries(
        {
            "types": st.lists(gen.pick("Concept", "ConceptScheme", "Collection"), unique=True, max_size=3),
            "labels": st.lists(label, max_size=3, unique_by=lambda l: l[1]),
            "broader": st.lists(gen.ints(3), max_size=3),
        }
    )
    return st.lists(node, min_size=1, max_size=4)


def skos_body(case, rec):
    from pymantic.vocab.skos import Concept, ConceptScheme, SKOSResource

    graph = Graph()
    names = [NamedNode("http://c.example/%d" % i) for i in range(len(case))]
    for name, node in zip(names, case):
        for t in node["types"]:
            graph.add(Triple(name, NamedNode(RDF + "type"), NamedNode(SKOS + t)))
        for value, language in node["labels"]:
            graph.add(Triple(name, NamedNode(SKOS + "prefLabel"), Literal(value, language=language)))
        for index in node["broader"]:
            graph.add(Triple(name, NamedNode(SKOS + "broader"), names[index % len(names)]))
    rec.interesting(sum(bool(n["types"]) and bool(n["labels"]) for n in case) > 1)

    def check_class(resource, node):
        assert isinstance(resource, Concept) is ("Concept" in node["types"]), resource
        assert isinstance(resource, ConceptScheme) is ("ConceptScheme" in node["types"]), resource

    for name, node in zip(names, case):
        resource = Resource.classify(graph, name)
        check_class(resource, node)
        if "Concept" in node["types"] or "ConceptScheme" in node["types"]:
            assert isinstance(resource, SKOSResource)
            labels = {l: v for v, l in node["labels"]}
            for language in ("fr", "de"):
                found = resource["skos:prefLabel", language]
                assert (found.value if found is not None else None) == labels.get(language)
            english = [v for v, l in node["labels"] if l.startswith("en")]
            if len(english) < 2:
                found = resource["skos:prefLabel"]
                assert (found.value if found is not None else None) == (english or [None])[0]
            broader = {b.subject: b for b in resource["skos:broader"]}
            assert set(broader) == {names[i % len(names)] for i in node["broader"]}
            for i in node["broader"]:
                check_class(broader[names[i % len(names)]], case[i % len(names)])
    for cls, t in ((Concept, "Concept"), (ConceptScheme, "ConceptScheme")):
        found = [r.subject for r in cls.in_graph(graph)]
        assert sorted(found) == [n for n, c in zip(names, case) if t in c["types"]], found
        made = cls.new(graph, "http://new.example/" + t)
        assert Triple(made.subject, NamedNode(RDF + "type"), NamedNode(SKOS + t)) in graph


def large_cases():
    return st.fixed_dictionaries(
        {
            "case": cases(),
            "kind": gen.pick("deep", "wide", "prefixes", "scalars"),
            "size": mined.sizes(150),
            "bases": st.integers(1, 3),
        }
    )


def large_body(spec, rec):
    """Many classes, one below the other or side by side, or many declarations."""
    n, kind = spec["size"], spec["kind"]
    rec.label(kind)
    rec.interesting(n > 20)
    many = range(n)
    root = {"bases": [0], "prefixes": {}, "scalars": [], "kind": "list", "profile": None}
    if kind == "prefixes":
        specs = [{**root, "prefixes": {"m%d" % i: "http://many.example/%d#" % i for i in many}}]
    elif kind == "scalars":
        specs = [{**root, "scalars": ["http://many.example/s%d" % i for i in many]}]
    else:
        specs = [
            {
                **root,
                "bases": [i] if kind == "deep" else [0],
                "prefixes": {"m%d" % i: "http://many.example/%d#" % i},
                "scalars": ["m%d:s" % i],
            }
            for i in many
        ]
    if kind == "wide":
        # One with many parents.
        specs.append({**root, "bases": list(range(1, n + 1)), "prefixes": {}, "scalars": []})
    models = [top()]
    for s in specs:
        models.append(define(s, models))
    last = models[-1]
    check(last)
    check(models[len(models) // 2])
    for prefix, values in sorted(last.prefixes.items())[:: 1 + n // 30]:
        assert {plain(last.real.resolve(prefix + ":x"))} == {v + "x" for v in values}, prefix
    resource = last.real(Graph(), NamedNode("http://s.example/"))
    for predicate in sorted(last.scalars)[:: 1 + n // 30]:
        assert resource[predicate] is None, f"scalar {predicate} reads {resource[predicate]!r}"
    assert list(resource["http://many.example/other"]) == []
    # Those of the usual kind go on with them.
    models = [last]
    for s in spec["case"]:
        model = define(s, models) if isinstance(s, dict) else None
        if model is not None:
            models.append(model)
            check(model)
            for prefix in ("m0", "m%d" % (n - 1)):
                if prefix in model.prefixes:
                    values = {v + "x" for v in model.prefixes[prefix]}
                    assert plain(model.real.resolve(prefix + ":x")) in values


PROPS = [
    Prop("large", large_cases, large_body, quick=80, thorough=1500),
    Prop("hierarchies", cases, body, quick=1500),
    Prop("skos", skos_cases, skos_body, quick=600),
]
