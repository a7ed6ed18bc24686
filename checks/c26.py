"""C26: terms and statements are values, and blank nodes are themselves only."""

import copy
import datetime
import gc
import pickle
import re

from hypothesis import strategies as st

from pbt import gen, large, near
from pbt.core import Prop
from pbt.ntref import as_uri, read
from pbt.terms import XSD, Terms, describe, freeze, plain

from pymantic.primitives import (
    BlankNode,
    Graph,
    Literal,
    NamedNode,
    Prefix,
    Quad,
    RDFEnvironment,
    Triple,
    lang_match,
    q_as_t,
    t_as_q,
)
from pymantic.rdf import Resource
from pymantic.util import de, en

ID = "C26"
RULE = (
    "values: several terms, triples and quads, many of them equal to or one component away"
    " from another; they must be equal and hash alike exactly if all their components are,"
    " survive pickling and copying, be told apart by their N-Triples form, and _replace,"
    " _asdict, _make and conversions must do what they say. natives: integers and datetimes"
    " as literals, read back by Python. nodes: a history of blank nodes created, used and"
    " dropped; labels are legal, unique among all nodes alive (many nodes: up to hundreds of thousands),"
    " and never change. long values: terms of up to 3000 characters"
    " against ones with one character changed, dropped or doubled. languages:"
    " pairs of language tags. Non-trivial: some values are equal and some differ in exactly"
    " one component (values), the number or date is outside of the everyday (natives), nodes"
    " are dropped in between (nodes), there are more than 255 characters (long values), tags share their first subtag (languages)."
)

LABEL = re.compile(r"_:[A-Za-z0-9_](?:[A-Za-z0-9_.\-]*[A-Za-z0-9_\-])?")


# values


def close_terms():
    """Terms that often differ in one component only."""
    value = st.one_of(gen.pick("", "a", "http://e.example/0", "en", "_:a"), gen.text(4))
    return st.one_of(
        st.tuples(st.just("L"), value, gen.pick(None, "en", "en-us", "fr"), st.none()),
        st.tuples(st.just("L"), value, st.none(), gen.pick(None, XSD + "string", XSD + "integer")),
        st.tuples(st.just("I"), st.one_of(gen.pool_iris(3), gen.iris(), gen.pick("en", "a"))),
        st.tuples(st.just("B"), gen.pick("0", "1", "2")),
    ).map(list)


def value_cases():
    pool = st.lists(close_terms(), min_size=1, max_size=4)

    @st.composite
    def cases(draw):
        terms = draw(pool)
        terms += [near.term(t, draw(gen.ints(4 * 28 - 1))) for t in terms[:2]]
        term = st.sampled_from(terms)
        return {
            "terms": terms,
            "triples": draw(st.lists(st.tuples(term, term, term).map(list), max_size=4)),
            "quads": draw(
                st.lists(st.tuples(term, term, term, st.one_of(st.none(), term)).map(list), max_size=4)
            ),
        }

    return cases()


def value_body(case, rec):
    first, second = Terms(), Terms()
    second.nodes, second.labels = first.nodes, first.labels
    terms = case["terms"] + [t for s in case["triples"] for t in s]
    makers = [
        (terms, "make", None),
        (case["triples"], "triple", ("subject", "predicate", "object")),
        (case["quads"], "quad", ("subject", "predicate", "object", "graph")),
    ]
    equal = different = False
    for items, make, fields in makers:
        for a in items:
            for b in items:
                x, y = getattr(first, make)(a), getattr(second, make)(b)
                assert (x == y) is (freeze(a) == freeze(b)), f"{x!r} == {y!r}"
                assert (x != y) is (freeze(a) != freeze(b)), f"{x!r} != {y!r}"
                if freeze(a) == freeze(b):
                    assert hash(x) == hash(y), f"hashes of {x!r} and {y!r}"
                    assert len({x, y}) == 1 and x in [y] and {x: 1}[y] == 1
                    equal = equal or a is not b
                elif fields or a[0] == b[0]:
                    different = different or sum(map(ne, freeze(a), freeze(b))) == 1
        for item in items:
            value = getattr(first, make)(item)
            if fields:
                statement(value, item, fields, first)
            check_copies(value, item)
    rec.interesting(equal and different)
    for item in case["terms"]:
        single(first.make(item), item)
    iris = [t[1] for t in case["terms"] if t[0] == "I"]
    for a in iris:
        for b in iris:
            x, y = Prefix(a), Prefix(b)
            assert (x == y) is (a == b) and (x != y) is (a != b), f"{x!r} == {y!r}"
            assert a != b or hash(x) == hash(y) and {x: 1}[y] == 1
    for item in case["terms"]:
        if item[0] == "L":
            assert en(item[1]) == Literal(item[1], language="en") and de(item[1]).language == "de"
            assert describe(de(item[1])) == ("L", item[1], "de", None)
    # N-Triples tells them apart, and tells what they are.
    forms = {}
    for item in case["terms"]:
        form = first.make(item).toNT()
        assert str(form) == form
        # Characters beyond ASCII are encoded, so some IRIs look alike.
        key = ("I", as_uri(item[1])) if item[0] == "I" else freeze(item)
        if item[0] == "L" and item[3] is not None:
            key = key[:3] + (as_uri(item[3]),)
        assert forms.setdefault(form, key) == key, f"{form} stands for {key!r} and {forms[form]!r}"


def ne(a, b):
    return a != b


def single(term, item):
    if item[0] == "I":
        assert plain(term) == item[1] and plain(term.value) == item[1] and str(term) == item[1]
        assert term.interfaceName == "NamedNode"
        assert isinstance(term, str)
        made = Prefix(item[1])("x")
        assert type(made) is NamedNode and plain(made) == item[1] + "x", repr(made)
        resource, other = Resource(Graph(), item[1]), Resource(Graph(), term)
        assert resource == other and hash(resource) == hash(other)
        assert resource == term and not resource != term
        assert resource != Resource(Graph(), item[1] + "x")
    elif item[0] == "B":
        assert term.interfaceName == "BlankNode"
        assert str(term) == term.toNT() == "_:" + term.value
        assert Resource(Graph(), term) == Resource(Graph(), term)
        assert Resource(Graph(), term) != Resource(Graph(), BlankNode())
    else:
        assert term.interfaceName == "Literal"
        assert describe(term) == freeze(item), repr(term)
        assert str(term) == item[1]
        assert term == Literal(value=item[1], language=item[2], datatype=item[3] and NamedNode(item[3]))
        assert Literal._fields == ("value", "language", "datatype")
        assert term._asdict() == {"value": term.value, "language": term.language, "datatype": term.datatype}
        for field, new in (
            ("value", "new"), ("language", "xx"), ("datatype", NamedNode("urn:new")),
            ("value", ""), ("language", None), ("datatype", None), ("language", ""), ("datatype", ""),
        ):  # fmt: skip
            changed = term._replace(**{field: new})
            expected = {**term._asdict(), field: new}
            assert type(changed) is Literal and changed._asdict() == expected, repr(changed)
        assert Literal._make(tuple(term)) == term and type(Literal._make(iter(term))) is Literal
        unknown_field(term)
        wrong_length(Literal, tuple(term))


def statement(value, item, fields, terms):
    cls = type(value)
    for field, part in zip(fields, item):
        assert getattr(value, field) == terms.make(part), f"{field} of {value!r}"
    asdict = value._asdict()
    assert cls._fields == tuple(fields), cls._fields
    assert list(asdict) == list(fields) and list(asdict.values()) == list(value), asdict
    assert cls(**asdict) == value and cls._make(iter(value)) == value
    assert type(cls._make(list(value))) is cls
    for field in fields:
        for new in (NamedNode("urn:new"), None, Literal(""), NamedNode("")):
            changed = value._replace(**{field: new})
            assert type(changed) is cls
            assert changed._asdict() == {**asdict, field: new}, f"{changed!r} from {value!r}"
            assert value._asdict() == asdict
    swapped = value._replace(subject=value.object, object=value.subject)
    assert swapped == cls(**{**asdict, "subject": value.object, "object": value.subject})
    assert value._replace() == value
    unknown_field(value)
    wrong_length(cls, tuple(value))
    if cls is Triple:
        quad = t_as_q(NamedNode("urn:g"), value)
        assert type(quad) is Quad and quad == Quad(*value, NamedNode("urn:g"))
        for name in (None, NamedNode(""), BlankNode()):
            assert t_as_q(name, value).graph is name
        assert type(q_as_t(quad)) is Triple and q_as_t(quad) == value
    else:
        triple = q_as_t(value)
        assert type(triple) is Triple and tuple(triple) == tuple(value)[:3], repr(triple)
        assert t_as_q(value.graph, triple) == value


def unknown_field(value):
    try:
        value._replace(nonsense=1)
    except (ValueError, TypeError):
        return
    raise AssertionError("_replace accepts a field that isn't there")


def wrong_length(cls, parts):
    for wrong in (parts[:-1], parts + (None,), ()):
        try:
            cls._make(wrong)
        except TypeError:
            continue
        raise AssertionError(f"{cls} of {len(wrong)} parts")


def check_copies(value, item):
    nodes = "B" in str(item) and any(
        t is not None and t[0] == "B" for t in ([item] if isinstance(item[0], str) else item)
    )
    if nodes:
        return  # a copy of a blank node would be another blank node
    for protocol in range(2, pickle.HIGHEST_PROTOCOL + 1):
        again = pickle.loads(pickle.dumps(value, protocol))
        assert again == value and type(again) is type(value), repr(again)
    for again in (copy.copy(value), copy.deepcopy(value)):
        assert again == value and type(again) is type(value), repr(again)
        assert hash(again) == hash(value)


# natives


def native_cases():
    # Around what fits in the number types of other languages, and beyond.
    big = st.builds(
        lambda sign, power, base, offset: sign * (base**power + offset),
        gen.pick(1, -1), gen.pick(7, 15, 16, 31, 32, 53, 63, 64, 128, 400), gen.pick(2, 10), st.integers(-2, 2),
    )  # fmt: skip
    return st.one_of(
        st.tuples(st.just("int"), st.one_of(st.integers(-5, 5), st.integers(), big).map(str)),
        st.tuples(
            st.just("datetime"),
            st.one_of(
                st.datetimes(),
                st.datetimes(
                    timezones=st.integers(-14 * 60, 14 * 60).map(
                        lambda m: datetime.timezone(datetime.timedelta(minutes=m))
                    )
                ),
            ).map(lambda d: repr_datetime(d)),
        ),
    ).map(list)


def repr_datetime(d):
    offset = d.utcoffset()
    return [
        d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond,
        None if offset is None else int(offset.total_seconds() // 60),
    ]  # fmt: skip


DATETIME = re.compile(r"\d{4,}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d+)?(Z|[+-]\d\d:\d\d)?")


def native_body(case, rec):
    kind, data = case
    if kind == "int":
        value = int(data)
        literal = Literal(value)
        rec.interesting(abs(value) > 1000)
        assert describe(literal) == ("L", data, None, XSD + "integer"), repr(literal)
        assert int(literal.value) == value
    else:
        *parts, offset = data
        tz = None if offset is None else datetime.timezone(datetime.timedelta(minutes=offset))
        value = datetime.datetime(*parts, tzinfo=tz)
        rec.interesting(value.year < 1000 or bool(value.microsecond) or offset is not None)
        literal = Literal(value)
        _, text, language, datatype = describe(literal)
        assert (language, datatype) == (None, XSD + "dateTime"), repr(literal)
        assert DATETIME.fullmatch(text), text
        back = datetime.datetime.fromisoformat(text)
        assert back == value and back.utcoffset() == value.utcoffset(), (text, value)
    rec.label(kind)
    given = Literal(value, datatype=NamedNode("urn:other"))
    assert given.datatype == NamedNode("urn:other") and given.value == literal.value


# nodes


def node_cases():
    op = st.one_of(
        st.tuples(st.just("new"), st.integers(1, 5)),
        st.tuples(st.just("drop"), gen.ints(20)),
        st.tuples(st.just("use"), gen.ints(20)),
        st.tuples(st.just("collect")),
    ).map(list)
    return st.lists(op, min_size=1, max_size=25)


def node_body(case, rec):
    alive = []
    graph = Graph()
    dropped = False
    makers = [BlankNode, RDFEnvironment().createBlankNode]
    for op, *rest in case:
        if op == "new":
            for _ in range(rest[0]):
                node = makers[len(alive) % 2 if rest[0] % 2 else 0]()
                alive.append((node, node.toNT()))
        elif op == "drop" and alive:
            node, _ = alive.pop(rest[0] % len(alive))
            dropped = True
            del node
        elif op == "use" and alive:
            node, label = alive[rest[0] % len(alive)]
            graph.add(Triple(node, NamedNode("urn:p"), Literal(label)))
        elif op == "collect":
            gc.collect()
        labels = [label for _, label in alive]
        assert len(set(labels)) == len(labels), f"two nodes are {labels!r}"
        for node, label in alive:
            assert node.toNT() == label and str(node) == label, f"{label} became {node}"
            assert LABEL.fullmatch(label), label
            assert "_:" + node.value == label
            assert sum(node == other for other, _ in alive) == 1
        assert len({node for node, _ in alive}) == len(alive)
        for triple in graph:
            # The graph holds nodes, so that they are still what they were.
            assert triple.subject.toNT() == triple.object.value
            (parsed,) = read(str(triple))
            assert parsed[0] == ("B", triple.object.value[2:])
    rec.interesting(dropped and len(alive) > 1)


def many_body(case, rec):
    """Labels are unique among many nodes as well."""
    nodes = []
    create = RDFEnvironment().createBlankNode
    for count, keep in case:
        if count % 2:
            made = [BlankNode() for _ in range(count)]
        else:
            made = [create() for _ in range(count)]
        nodes += made[::keep]
        del made
    rec.interesting(len(nodes) > 1000)
    labels = {str(node) for node in nodes}
    assert len(labels) == len(nodes), f"{len(nodes)} nodes have {len(labels)} labels"
    assert len({node.value for node in nodes}) == len(nodes)
    assert len(set(nodes)) == len(nodes)


def long_body(case, rec):
    """Long terms are equal only if all of their characters are."""
    size, unit, char, where = case
    text = large.long_text(*case)
    rec.interesting(size > 255)
    rec.label(["beginning", "middle", "end"][where])
    at = {0: 0, 1: size // 2, 2: len(text) - 1}[where]
    others = {text[:at] + c + text[at + 1 :] for c in (chr(ord(char) ^ 1), "", char * 2)} - {text}
    others = {o for o in others if not any("\ud800" <= c <= "\udfff" for c in o)}
    iri = large.NS + "a" * size
    for kind in (
        lambda t: ["L", t, None, None],
        lambda t: ["L", t, "en", None],
        lambda t: ["L", t, None, XSD + "string"],
        lambda t: ["I", large.NS + t],
        lambda t: ["L", "a", None, large.NS + t],
    ):
        item, terms = kind(text), Terms()
        value, same = terms.make(item), Terms().make(kind("".join(list(text))))
        assert value == same and hash(value) == hash(same) and len({value, same}) == 1
        statements = [Triple(value, NamedNode(iri), value), Quad(value, value, value, NamedNode(iri))]
        assert Triple(same, NamedNode(iri[:-1] + "a"), same) == statements[0]
        for other in others:
            close = terms.make(kind(other))
            assert value != close and len({value, close}) == 2, f"{size} characters, one is different"
            for statement, fields in zip(statements, (3, 4)):
                for field in range(fields):
                    if describe(statement[field]) == describe(close):
                        continue
                    parts = list(statement)
                    parts[field] = close
                    changed = type(statement)(*parts)
                    assert changed != statement and statement in {changed, statement}
                    assert len({changed, statement}) == 2
                    assert tuple(changed) == tuple(parts)
        check_copies(value, item)
        for statement in statements:
            check_copies(statement, item)
        if item[0] == "L":
            single(value, item)
        if item[0] == "L" and not item[3]:
            # What N-Triples says is all of it.
            ((_, _, back),) = read(f"<urn:s> <urn:p> {value.toNT()} .\n")
            assert back == freeze(item), f"{size} characters"


# languages


def language_cases():
    tag = st.lists(gen.pick("en", "eng", "e", "fr", "us", "usa", "x", "1996"), min_size=1, max_size=3).map("-".join)
    language = st.one_of(st.none(), tag, tag, gen.languages())
    return st.tuples(language, language).map(list)


def language_body(case, rec):
    a, b = case
    result = lang_match(a, b)
    assert result == lang_match(b, a), f"{a} and {b} match depends on the order"
    if a is None or b is None:
        assert bool(result) is (a is None and b is None), (a, b, result)
        return
    first, second = a.split("-"), b.split("-")
    rec.interesting(first[0] == second[0] and a != b)
    if a == b or (first[0] == second[0] and 1 in (len(first), len(second))):
        assert result, f"{a} doesn't match {b}"
        rec.label("match")
    elif first[0] != second[0] and first[0].lower() != second[0].lower():
        assert not result, f"{a} matches {b}"
        rec.label("no match")
    elif all(x.lower() != y.lower() for x, y in zip(first[1:], second[1:])):
        assert not result, f"{a} matches {b}"
        rec.label("no match of variants")


PROPS = [
    Prop("values", value_cases, value_body, quick=3000),
    Prop("natives", native_cases, native_body, quick=2000),
    Prop("nodes", node_cases, node_body, quick=1500),
    Prop(
        "many nodes",
        lambda: st.lists(st.tuples(st.integers(1, 20000), st.integers(1, 4)).map(list), max_size=6),
        many_body,
        quick=64,
        thorough=600,
    ),
    Prop(
        "very many nodes",
        lambda: st.lists(st.tuples(st.integers(100000, 300000), st.just(1)).map(list), min_size=2, max_size=3),
        many_body,
        quick=4,
        thorough=40,
    ),
    Prop("long values", large.long_ones, long_body, quick=300, thorough=10000),
    Prop("languages", language_cases, language_body, quick=2000),
]
