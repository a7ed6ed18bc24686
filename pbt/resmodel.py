"""What access to resources by key has to amount to: a model of it in terms of
sets of triples as JSON, and generators of graphs, keys and values for it."""

from functools import cache

from hypothesis import strategies as st

from . import gen, mined
from .terms import RDF, RDFS, XSD, Terms, freeze

from pymantic.primitives import BlankNode, Graph, Literal, NamedNode
from pymantic.rdf import Resource, register_class

NS = "http://ex.example/"
CLS = "http://classes.example/"
PREDICATES = ["p0", "p1", "p2"]
LANGS = ["en", "en-us", "en-gb", "fr", "fr-ca", "de", "eng", "en-us-x-a"]
DATATYPES = [
    XSD + "integer",
    XSD + "string",
    NS + "dt",
    XSD + "boolean",
    # Like these in their last parts only, or but for those.
    NS + "integer",
    NS + "x#string",
    XSD + "dt",
]
TYPE = ("I", RDF + "type")


@register_class(CLS + "A")
class A(Resource):
    pass


@register_class(CLS + "B")
class B(Resource):
    pass


@register_class(CLS + "C")
class C(A):
    pass


CLASSES = {"A": A, "B": B, "C": C, "Resource": Resource}
# Which types make something an instance of a class.
TYPES = {
    "A": {CLS + "A", CLS + "C"},
    "B": {CLS + "B"},
    "C": {CLS + "C"},
}


@cache
def make_class(scalars, lang):
    namespace = {
        "prefixes": {"ex": NS, "xsd": XSD},
        "scalars": ["ex:" + p for p in scalars],
    }
    if lang is not None:
        namespace["lang"] = lang
    return type(Resource)("Test", (Resource,), namespace)


# Generators


@cache
def words():
    return st.one_of(
        gen.pick("x", "y", ""),
        # What could be taken for something else.
        gen.pick("en", "fr", "p0", "ex:p0", NS + "p0", NS + "o1", XSD + "integer", "_:0"),
        gen.text(4),
    )


@cache
def literals():
    return st.one_of(
        st.tuples(st.just("L"), words(), st.none(), st.none()),
        st.tuples(st.just("L"), words(), gen.pick(*LANGS), st.none()),
        st.tuples(st.just("L"), words(), gen.pick(*LANGS), st.none()),
        st.tuples(st.just("L"), words(), st.none(), gen.pick(*DATATYPES)),
    ).map(list)


@cache
def references():
    return st.one_of(
        st.tuples(st.just("I"), gen.pick(NS + "s", NS + "o1", NS + "o2", NS + "o3")),
        st.tuples(st.just("B"), gen.pick("0", "1")),
    ).map(list)


@cache
def objects():
    return st.one_of(literals(), literals(), references())


@cache
def subjects():
    return gen.pick(("I", NS + "s"), ("I", NS + "s"), ("I", NS + "s"), ("B", "0"), ("I", NS + "o1")).map(list)


@cache
def graphs(max_size=10):
    triple = st.tuples(
        subjects(), gen.pick("p0", "p0", "p0", "p1", "p1", "p2").map(lambda p: ["I", NS + p]), objects()
    ).map(list)
    typing = st.tuples(
        references(), st.just(list(TYPE)), gen.pick("A", "B", "C", "Unknown").map(lambda c: ["I", CLS + c])
    ).map(list)
    label = st.tuples(subjects(), st.just(["I", RDFS + "label"]), literals()).map(list)
    return st.tuples(
        st.one_of(
            st.lists(triple, max_size=max_size),
            st.lists(triple, min_size=max_size // 2, max_size=max_size),
            st.lists(triple, min_size=max_size, max_size=max_size * 2),
        ),
        st.lists(typing, max_size=4), st.lists(label, max_size=2)
    ).map(lambda parts: gen.unique(parts[0] + parts[1] + parts[2]))


@cache
def changes():
    """What comes in the place of a triple: another triple, object, or nothing."""
    typing = st.tuples(
        references(), st.just(list(TYPE)), gen.pick("A", "B", "C", "Unknown").map(lambda c: ["I", CLS + c])
    )
    return st.one_of(
        objects(),
        objects(),
        st.just([]),
        st.tuples(subjects(), gen.pick(*PREDICATES).map(lambda p: ["I", NS + p]), objects()).map(list),
        typing.map(list),
    )


@cache
def crowds(limit=300):
    """Numbers of which to make a graph with many objects of a predicate."""
    return st.fixed_dictionaries(
        {
            "count": mined.sizes(limit),
            "kind": gen.pick("literals", "languages", "references", "blank nodes", "types", "labels", "mixed", "subjects"),
            "at": gen.ints(3),
            "step": gen.pick(1, 7, 101),
            "others": graphs(4),
        }
    )


def crowd(spec):
    """The triples of it: the others somewhere in between."""
    n, kind = spec["count"], spec["kind"]
    triples = []
    s, p0 = ["I", NS + "s"], ["I", NS + "p0"]
    for k in range(n):
        k = k * spec["step"] % n if n % spec["step"] else k
        which = kind if kind != "mixed" else ("literals", "languages", "references", "types")[k % 4]
        if which == "literals":
            typed = DATATYPES[k % len(DATATYPES)] if k % 3 == 0 else None
            lang = LANGS[k % 8] if k % 3 == 1 else None
            triples.append([s, p0, ["L", str(k), lang, typed]])
        elif which == "languages":
            triples.append([s, p0, ["L", str(k // 2), "x%d" % k if k % 4 else LANGS[k // 4 % 8], None]])
        elif which == "references":
            triples.append([s, p0, ["I", NS + "many%d" % k]])
        elif which == "blank nodes":
            triples.append([s, p0, ["B", "many%d" % k]])
            triples.append([["B", "many%d" % k], p0, ["B", "many%d" % (k // 2)]])
        elif which == "types":
            triples.append([s, p0, ["I", NS + "many%d" % k]])
            cls = ["A", "B", "C", "Unknown", "U%d" % k][k % 5]
            triples.append([["I", NS + "many%d" % k], list(TYPE), ["I", CLS + cls]])
        elif which == "labels":
            triples.append([s, ["I", RDFS + "label"], ["L", str(k), LANGS[k % 8] if k % 2 else None, None]])
            triples.append([s, ["I", NS + "q%d" % k], ["L", str(k), None, None]])
        else:
            triples.append([["I", NS + "many%d" % k], p0, ["I", NS + "o1"]])
            triples.append([["I", NS + "many%d" % k], ["I", NS + "p1"], s])
    at = len(triples) * spec["at"] // 3
    return gen.unique(triples[:at] + spec["others"] + triples[at:])


@cache
def filters():
    """None, or [kind, value]; kind is "none" for a filter of None."""
    return st.one_of(
        st.none(),
        st.none(),
        st.just(["none", None]),
        st.tuples(st.just("lang"), gen.pick(*LANGS)).map(list),
        st.tuples(st.just("lang"), gen.pick(*LANGS)).map(list),
        st.just(["lang", ""]),
        st.tuples(st.just("datatype"), gen.pick(*DATATYPES)).map(list),
        st.tuples(st.just("class"), gen.pick("A", "B", "C", "Resource")).map(list),
    )


@cache
def keys():
    return st.tuples(gen.pick("p0", "p0", "p0", "p1", "p1", "p2"), filters(), gen.ints(2)).map(list)


def make_key(key):
    """The key as to be written between brackets."""
    predicate, filter_, spelling = key
    if spelling == 0:
        name = "ex:" + predicate
    elif spelling == 1:
        name = NS + predicate
    else:
        name = NamedNode(NS + predicate)
    if filter_ is None:
        return name
    kind, value = filter_
    if kind == "datatype":
        value = NamedNode(value)
    elif kind == "class":
        value = CLASSES[value]
    return name, value


@cache
def schemas():
    """Scalar predicates, and the language of the class."""
    return st.tuples(
        st.lists(gen.pick(*PREDICATES), unique=True, max_size=3).map(sorted),
        gen.pick(None, None, "en", "fr", "en-us"),
    ).map(list)


# The model


def lang_match(a, b):
    if a is None or b is None:
        return False
    a, b = a.split("-", 1), b.split("-", 1)
    return a[0] == b[0] and (len(a) == 1 or len(b) == 1 or a[1] == b[1])


def is_literal(o):
    return o[0] == "L"


class Model:
    def __init__(self, triples, scalars, lang):
        self.triples = set(freeze(triples))
        self.scalars = set(scalars)
        self.lang = "en" if lang is None else lang

    def objects(self, subject, predicate):
        return {o for s, p, o in self.triples if s == subject and p == ("I", NS + predicate)}

    def instance(self, node, name):
        if name == "Resource":
            return True
        types = {o[1] for s, p, o in self.triples if s == node and p == TYPE and o[0] == "I"}
        return bool(types & TYPES[name])

    def select(self, subject, key):
        """The objects that a key is about."""
        predicate, filter_, _ = key
        everything = self.objects(subject, predicate)
        scalar = predicate in self.scalars
        references = {o for o in everything if not is_literal(o)}
        literals = everything - references
        plain = {o for o in literals if o[2] is None and o[3] is None}
        typed = {o for o in literals if o[3] is not None}
        if filter_ is None and not scalar or filter_ is not None and filter_[0] == "none":
            return everything
        if filter_ is None:
            for choice in (
                {o for o in literals if lang_match(self.lang, o[2])},
                references,
                typed,
                plain,
            ):
                if choice:
                    return choice
            return set()
        kind, value = filter_
        if kind == "lang" and value == "":
            return plain
        if kind == "lang":
            found = {o for o in literals if lang_match(value, o[2])}
            return found if scalar else found | references
        if kind == "class":
            return {o for o in references if self.instance(o, value)}
        if value == XSD + "string":
            return plain | {o for o in typed if o[3] == value}
        found = {o for o in typed if o[3] == value}
        return found if scalar else found | references

    def acceptable(self, value, filter_):
        """May a value be set with a filter?"""
        if filter_ is None or filter_[0] == "none":
            return True
        kind, wanted = filter_
        if kind == "class":
            return not is_literal(value) and self.instance(value, wanted)
        if not is_literal(value):
            return True
        _, _, language, datatype = value
        if kind == "lang" and wanted == "":
            return language is None and datatype is None
        if kind == "lang":
            return lang_match(language, wanted)
        if wanted == XSD + "string":
            return language is None and datatype in (None, wanted)
        return datatype == wanted

    def replaced(self, subject, key, values):
        """What is removed when a key is set, and what else may be or not."""
        predicate, filter_, _ = key
        everything = self.objects(subject, predicate)
        scalar = predicate in self.scalars
        references = {o for o in everything if not is_literal(o)}
        plain = {o for o in everything if is_literal(o) and o[2] is None and o[3] is None}
        if filter_ is None or filter_[0] == "none":
            value = values[0] if len(values) == 1 else None
            if filter_ is None and scalar and is_literal(value) and value[2] is not None:
                # Languages coexist.
                return {
                    o
                    for o in everything
                    if not is_literal(o) or o[2] is None or lang_match(o[2], value[2])
                }, set()
            return everything, set()
        kind, wanted = filter_
        if scalar:
            value = values[0]
            if kind == "lang" and wanted != "" and is_literal(value):
                gone = {
                    o
                    for o in everything
                    if not is_literal(o) or o[3] is not None or lang_match(o[2], wanted)
                }
                return gone, plain
            return everything, set()
        gone = self.select(subject, key)
        if kind == "lang" and wanted == "" or kind == "datatype" and wanted == XSD + "string":
            return gone, references
        return gone, set()


class World:
    """A graph of the code under test along with the model."""

    def __init__(self, triples, schema):
        scalars, lang = schema
        self.terms = Terms()
        self.graph = Graph()
        for t in triples:
            self.graph.add(self.terms.triple(t))
        self.model = Model(triples, scalars, lang)
        self.cls = make_class(tuple(scalars), lang)

    def resource(self, subject, as_text=False):
        term = self.terms.make(list(subject))
        if as_text and isinstance(term, NamedNode):
            term = str(term)
        return self.cls(self.graph, term)

    def swap(self, index, new):
        """One triple is replaced."""
        ordered = sorted(self.model.triples, key=repr)
        if not ordered:
            return
        old = ordered[index % len(ordered)]
        new = freeze(new)
        if new and isinstance(new[0], str):
            fits = old[1] != TYPE and (old[1] != ("I", RDFS + "label") or is_literal(new))
            new = ((old[0], old[1], new),) if fits else ()
        else:
            new = (new,) if new else ()
        self.graph.remove(self.terms.triple(old))
        self.model.triples.discard(old)
        for t in new:
            self.graph.add(self.terms.triple(t))
            self.model.triples.add(t)

    def describe(self, value):
        """The term of what was read."""
        if isinstance(value, Resource):
            assert value.graph is self.graph, "of another graph"
            return self.terms.describe(value.subject)
        assert isinstance(value, Literal), f"{value!r} is neither"
        return self.terms.describe(value)

    def check_class(self, value):
        """References come as instances of what their types say."""
        if isinstance(value, Resource):
            node = self.terms.describe(value.subject)
            for name in ("A", "B", "C"):
                wanted = self.model.instance(node, name)
                assert isinstance(value, CLASSES[name]) == wanted, f"{value!r}, {name}"

    def check_graph(self, model=None):
        found = self.terms.describe_all(self.graph)
        wanted = self.model.triples if model is None else model
        assert len(found) == len(set(found))
        assert set(found) == wanted, (
            f"missing {wanted - set(found)}, unexpected {set(found) - wanted}"
        )

    def check_unknown(self, resource, which):
        """A key that no prefix or term stands for is about nothing at all."""
        for name in ("nosuch", "no:p", "[no:p]", "p", "[p]", ":p", "EX:p"):
            for key in (name, (name, "en"), (name, None), (name, A), (name, NamedNode(NS + "d"))):
                try:
                    if which == "read":
                        list(resource[key] or ())
                    elif which == "contains":
                        key in resource
                    elif which == "scalar":
                        resource.get_scalar(key)
                    elif which == "subjects":
                        list(resource.object_of(name))
                    elif which == "set":
                        resource[key] = NamedNode(NS + "o1")
                    else:
                        del resource[key]
                except ValueError:
                    pass
                else:
                    raise AssertionError(f"{which} works with the key {key}")
        self.check_graph()

    def read(self, resource, key):
        """What r[key] yields, as a set, or "several" for a refused scalar."""
        scalar = key[0] in self.model.scalars
        if scalar and not (key[1] is not None and key[1][0] == "none"):
            try:
                value = resource[make_key(key)]
            except ValueError:
                return "several"
            if value is None:
                return set()
            self.check_class(value)
            return {self.describe(value)}
        values = list(resource[make_key(key)])
        for value in values:
            self.check_class(value)
        found = [self.describe(v) for v in values]
        assert len(found) == len(set(found)), f"{found} has the same more than once"
        return set(found)

    def check_read(self, resource, subject, key):
        wanted = self.model.select(subject, key)
        found = self.read(resource, key)
        scalar = key[0] in self.model.scalars
        if scalar and len(wanted) > 1 and not (key[1] is not None and key[1][0] == "none"):
            assert found == "several", f"{key}: {found} out of {wanted}"
        else:
            assert found == wanted, f"{key}: {found}, not {wanted}"
        present = make_key(key) in resource
        assert present is bool(wanted) or present == bool(wanted), f"{key} in: {present}"
        return wanted
