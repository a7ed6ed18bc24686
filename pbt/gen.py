"""Strategies for RDF terms, statements and text, biased to where code that
handles them tends to go wrong."""

import re
from functools import cache

from hypothesis import strategies as st

from . import mined
from .terms import RDF, RDFS, XSD

# First, last and neighbouring characters of the ranges that the grammars of
# RDF syntaxes distinguish, and characters that some code splits lines at.
BOUNDARIES = [
    0x00, 0x01, 0x08, 0x09, 0x0B, 0x0C, 0x0E, 0x1C, 0x1D, 0x1E, 0x1F, 0x7E, 0x7F,
    0x80, 0x85, 0x9F, 0xA0, 0xB6, 0xB7, 0xB8, 0xBF, 0xC0, 0xD6, 0xD7, 0xD8, 0xE9,
    0xF6, 0xF7, 0xF8, 0xFF, 0x100, 0x2FF, 0x300, 0x36F, 0x370, 0x37D, 0x37E, 0x37F,
    0x7FF, 0x800, 0xFFF, 0x1000, 0x1FFF, 0x2000, 0x200B, 0x200C, 0x200D, 0x200E,
    0x2028, 0x2029, 0x203E, 0x203F, 0x2040, 0x2041, 0x206F, 0x2070, 0x218F, 0x2190,
    0x2BFF, 0x2C00, 0x2FEF, 0x2FF0, 0x3000, 0x3001, 0x4E00, 0xD7FF, 0xE000, 0xF8FF,
    0xF900, 0xFDCF, 0xFDD0, 0xFDEF, 0xFDF0, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF,
    0x10000, 0x1F600, 0xEFFFF, 0xF0000, 0x10FFFD, 0x10FFFF,
]  # fmt: skip
SPECIAL = list(" \t\n\r\b\f\"'\\<>{}|^`%#?&=+-_.:;,/@!$()*~[]0aAzZ9nu")
FRAGMENTS = [
    "\\u0041", "\\U0001F600", "\\n", "\\\\", "\\", '"', '""', '"""', "'''", "''",
    "\r\n", "\n\n", "%41", "%C3%A9", "%2F", "%", "<", ">", "<a>", "@en", "^^", " .",
    ". ", ".\n", "# c", "_:b", "ex:a", "true", "1", "1.", "-1.5e3", "é", "\u2028",
    "\x85", "\x00", "\U0001F600", "e\u0301", " ", "\t", "[]", "()", ";", ",",
]  # fmt: skip


@cache
def chars():
    return st.one_of(
        st.sampled_from([chr(c) for c in BOUNDARIES]),
        st.sampled_from(SPECIAL),
        st.sampled_from("abcxyz019"),
        mined.chars(),
        st.characters(exclude_categories=("Cs",)),
    )


@cache
def text(max_size=12):
    """Any string at all, but for surrogates, which aren't characters."""
    return st.one_of(
        st.sampled_from(["", "a", "foo", " ", "0", "x y"]),
        st.lists(chars(), max_size=max_size).map("".join),
        st.lists(st.one_of(st.sampled_from(FRAGMENTS), chars()), max_size=6).map(
            "".join
        ),
        line_breaks(),
        long_text(),
        mined.words(),
    )


@cache
def line_breaks():
    return st.lists(st.sampled_from(["\r\n", "\n", "\r", " ", "a", "\t", "b"]), max_size=8).map(
        "".join
    )


@cache
def long_text():
    return st.builds(
        lambda unit, count, tail: unit * count + tail,
        st.sampled_from(["a", "é", "\\", '"', "\n", "ab ", "\U0001F600"]),
        st.sampled_from([15, 63, 64, 255, 256, 1000]),
        chars(),
    )


LEGAL_BOUNDARIES = [
    chr(c)
    for c in BOUNDARIES
    if c >= 0xA0
    and not 0xE000 <= c <= 0xF8FF
    and not 0xFDD0 <= c <= 0xFDEF
    and c & 0xFFFE != 0xFFFE
    and c < 0xF0000
]


@cache
def legal_iri_chars(extra=""):
    """Characters that may be in a path, query or fragment of an IRI."""
    return st.one_of(
        st.sampled_from("abcxyzABC019"),
        st.sampled_from("-._~!$&'()*+,;=:@" + extra),
        st.sampled_from(LEGAL_BOUNDARIES),
        st.sampled_from(["%41", "%20", "%C3%A9", "%2F", "%25", "%00", "%FF"]),
    )


LEGAL = re.compile(r"[A-Za-z][A-Za-z0-9+.-]*:[a-zA-Z0-9/#.:_-]+")
SCHEMES = ["http", "https", "urn", "mailto", "tag", "ex", "x-a.b+c", "HTTP"]
HOSTS = ["example.com", "a", "a.example", "user@h:80", "é.example", "", "[::1]", "1.2.3.4"]


@cache
def segments(extra=""):
    return st.lists(legal_iri_chars(extra), max_size=5).map("".join)


@cache
def ints(most):
    return st.integers(0, most)


@cache
def pick(*values):
    return st.sampled_from(values)


@cache
def known_iris():
    """IRIs that the code mentions, and what is made of them."""
    known = [w for w in mined.constants()[1] if LEGAL.fullmatch(w)]
    return st.tuples(pick(*known or ["urn:a"]), pick("", "", "a", "/", "#")).map("".join)


@cache
@st.composite
def iris(draw):
    """Absolute IRIs of any shape, legal characters only."""
    if draw(ints(3)) == 0:
        return draw(pick(*COMMON_IRIS) if draw(ints(3)) else known_iris())
    scheme = draw(pick(*SCHEMES))
    kind = draw(ints(5))
    if kind == 0:
        return scheme + ":" + draw(segments("/"))
    iri = scheme + "://" + draw(pick(*HOSTS))
    for _ in range(draw(ints(3))):
        iri += "/" + draw(segments() if draw(st.booleans()) else pick("a", "b", "..", "."))
    if draw(st.booleans()) and draw(st.booleans()):
        iri += "?" + draw(segments("/?"))
    if draw(st.booleans()) and draw(st.booleans()):
        iri += "#" + draw(segments("/?"))
    return iri


COMMON_IRIS = [
    "http://example.com/",
    "http://example.com/a",
    "http://example.com/b",
    "http://example.com/a#b",
    "http://example.com/a/b",
    "http://example.com/ns#",
    "http://example.com/ns#a",
    "http://a",
    "urn:a",
    "urn:isbn:1234567890123",
    RDF + "type",
    RDF + "first",
    RDF + "rest",
    RDF + "nil",
    RDFS + "label",
    XSD + "integer",
    XSD + "string",
    # What isn't quite what it looks like.
    "http://example.com/22-rdf-syntax-ns#type",
    "https://www.w3.org/1999/02/22-rdf-syntax-ns#type",
    "http://www.w3.org/1999/02/22-rdf-syntax-ns#Type",
    "http://example.com/ns#nil",
    "http://example.com/1999/02/22-rdf-syntax-ns#nil",
    "http://example.com/22-rdf-syntax-ns#first",
    "http://example.com/22-rdf-syntax-ns#rest",
    "http://example.com/XMLSchema#string",
]


@cache
def pool_iris(count=5):
    """A few IRIs which are likely to be used again and again."""
    return st.sampled_from(["http://e.example/%d" % i for i in range(count)])


@cache
def languages():
    return st.one_of(
        st.sampled_from(["en", "fr", "de", "en-us", "en-gb", "de-1996", "zh-hant"]),
        st.sampled_from(["en-x-a", "x-private", "EN", "en-US-x-b", "i-klingon", "eng", "e"]),
        st.from_regex(r"[a-zA-Z]{1,8}(-[a-zA-Z0-9]{1,8}){0,3}", fullmatch=True),
    )


DATATYPES = [
    XSD + "integer",
    XSD + "decimal",
    XSD + "double",
    XSD + "boolean",
    XSD + "string",
    XSD + "dateTime",
    RDF + "XMLLiteral",
    RDF + "langString",
    XSD + "int",
    XSD + "normalizedString",
    "http://example.com/XMLSchema#integer",
    "http://example.com/dt",
]

# Every datatype of XML Schema, and others that are well-known.
KNOWN_DATATYPES = [
    XSD + name
    for name in (
        "string boolean decimal integer double float date time dateTime dateTimeStamp gYear gMonth"
        " gDay gYearMonth gMonthDay duration yearMonthDuration dayTimeDuration byte short int long"
        " unsignedByte unsignedShort unsignedInt unsignedLong positiveInteger nonNegativeInteger"
        " negativeInteger nonPositiveInteger hexBinary base64Binary anyURI language"
        " normalizedString token NMTOKEN Name NCName QName anySimpleType anyAtomicType ID"
    ).split()
] + [RDF + "XMLLiteral", RDF + "HTML", RDF + "PlainLiteral", "http://www.opengis.net/ont/geosparql#wktLiteral"]

# Some have other spellings of the same value, and some aren't valid at all.
SPELLINGS = [
    "2020-01-02T03:04:05", "2020-01-02T03:04:05Z", "2020-01-02T03:04:05+00:00", "2020-01-02T24:00:00",
    "2020-01-02T03:04:05.000", "2020-01-02", "2020-01-02Z", "03:04:05", "20-1-2", "-0001", "--01-02", "---31",
    "P1D", "PT24H", "P12M", "0a", "0A", "AA==", "A A = =", "http://a b/", " http://a/ ", "a  b", " a\tb ",
    "<b/>", "<b></b>", "&amp;", "POINT(1 2)", "en-US", "a:b", "-0", "-0.0", "0.10", "1.0E0", "1.0e00",
    "100000000000000000000000000000000000000001", "0.1000000000000000055511151231257827", "1e400", "+INF",
    "256", "-129", "nan", "Infinity", "0x10", "1e", "yes", "",
]  # fmt: skip

LEXICAL = [
    "1", "0", "-1", "+1", "007", "1.0", "1.", ".5", "-.5", "+0.0", "1e0", "1.5E-3",
    "1.e1", ".5e+7", "1e", "e1", "true", "false", "True", "TRUE", "0", "1 ", " 1",
    "NaN", "INF", "-INF", "", "1,5", "--1", "1\n", "٣", "１", "true\n", "1_000", "²",
]  # fmt: skip


@cache
def literals(langs=None):
    return st.one_of(
        st.tuples(st.just("L"), text(), st.none(), st.none()),
        st.tuples(st.just("L"), text(), languages() if langs is None else langs, st.none()),
        st.tuples(
            st.just("L"), text(), st.none(), st.one_of(st.sampled_from(DATATYPES), iris())
        ),
        st.tuples(
            st.just("L"),
            st.sampled_from(LEXICAL),
            st.none(),
            st.sampled_from(DATATYPES[:5]),
        ),
        typed(),
    ).map(list)


@cache
def typed():
    """Of the datatypes that are defined somewhere."""
    return st.tuples(
        st.just("L"),
        st.one_of(st.sampled_from(SPELLINGS), st.sampled_from(LEXICAL), text()),
        st.none(),
        st.sampled_from(KNOWN_DATATYPES),
    ).map(list)


@st.composite
def one_datatype(draw):
    """Literals of one datatype (or language), with everything that's ever written so."""
    kind = draw(st.sampled_from(KNOWN_DATATYPES + ["en", "x-klingon", None]))
    if draw(pick(False, True, True, True)):
        values = list(dict.fromkeys(SPELLINGS + LEXICAL))
    else:
        values = draw(st.lists(st.sampled_from(SPELLINGS + LEXICAL), min_size=1, max_size=3, unique=True))
    edge = draw(pick("", "", " ", "\n", "\t", "\u3000", "0", "é"))
    values += [v for v in (edge + values[-1] + edge, values[0] + edge) if v not in values]
    typed = kind is not None and ":" in kind
    return [["L", v, None if typed else kind, kind if typed else None] for v in dict.fromkeys(values)]


def about(literals):
    """Statements, each with one of the literals."""
    return [
        [["I", "http://e.example/s%d" % (i % 3)], ["I", "http://e.example/p"], literal]
        for i, literal in enumerate(literals)
    ]


@cache
def named(strategy=None):
    return st.tuples(st.just("I"), iris() if strategy is None else strategy).map(list)


@cache
def nodes(count=4):
    return st.tuples(st.just("B"), st.integers(0, count - 1).map(str)).map(list)


@cache
def subjects(strategy=None):
    return st.one_of(named(strategy), nodes())


@cache
def objects(strategy=None):
    return st.one_of(named(strategy), nodes(), literals())


@cache
def mixed_iris():
    return st.one_of(pool_iris(), pool_iris(), iris())


@cache
def triples(strategy=None):
    strategy = mixed_iris() if strategy is None else strategy
    return st.tuples(subjects(strategy), named(strategy), objects(strategy)).map(list)


def unique(statements):
    """Without duplicates, in order."""
    return list({repr(s): s for s in reversed(statements)}.values())[::-1]


@cache
def graphs(max_size=12, strategy=None):
    return several(triples(strategy), max_size).map(unique)


@cache
def quads(strategy=None):
    strategy = mixed_iris() if strategy is None else strategy
    return st.tuples(
        subjects(strategy),
        named(strategy),
        objects(strategy),
        st.one_of(st.none(), named(strategy), nodes()),
    ).map(list)


@cache
def datasets(max_size=12, strategy=None):
    return several(quads(strategy), max_size).map(unique)


def histories(ops, length=25):
    """Short histories for the sake of shrinking, but mostly long ones."""
    return st.one_of(
        st.lists(ops, min_size=1, max_size=length),
        st.lists(ops, min_size=length // 2, max_size=length),
        st.lists(ops, min_size=length // 2, max_size=length * 2),
    )


def several(elements, size=10):
    """Lists that aren't mostly as small as they can be."""
    return st.one_of(
        st.lists(elements, max_size=size),
        st.lists(elements, min_size=min(3, size), max_size=size),
    )
