"""C16: IRIs are normalized without becoming other IRIs."""

import re

from hypothesis import strategies as st

from pbt import gen, mined
from pbt.core import Prop
from pbt.ntref import RESERVED, UNRESERVED, as_uri

from pymantic.primitives import NamedNode
from pymantic.util import normalize_iri, quote_normalized_iri

ID = "C16"
RULE = (
    "iris: a string of legal IRI characters, percent-encodings of all octets and their"
    " runs (UTF-8 sequences whole, cut short and overlong, in upper and lower case), and"
    " some illegal characters; normalizing must be idempotent, keep the IRI what it is"
    " (judged by canonical URIs), decode no reserved, control or illegal character, and"
    " quoting must yield a URI. spellings: an IRI and the same with some of its characters"
    " percent-encoded; both must normalize to the same. Non-trivial: there is a run of"
    " two or more percent-encodings, or one of them isn't decoded."
)

HEX = re.compile("%([0-9A-Fa-f]{2})")
LEGAL_URI = re.compile(r"(?:%[0-9A-F]{2}|[A-Za-z0-9\-._~:/?#\[\]@!$&'()*+,;=])*")


@st.composite
def strings(draw):
    out = ""
    for _ in range(draw(gen.ints(6)) + 1):
        kind = draw(gen.ints(8))
        if kind == 0:
            out += draw(gen.segments("/?#"))
        elif kind in (1, 2):
            code = draw(gen.ints(255))
            out += "%%%02x" % code if kind == 1 else "%%%02X" % code
        elif kind in (3, 4):
            char = draw(gen.chars())
            encoded = "".join("%%%02x" % b for b in char.encode("utf-8"))
            if draw(gen.ints(5)) == 0:
                encoded = encoded[: -3 * draw(gen.ints(2)) or None]
            out += encoded.upper() if kind == 3 else encoded
        elif kind == 5:
            out += draw(gen.pick("%25", "%2541", "%25zz", "%25%34%31", "%c3", "%C3%a9", "%2f", "%0a", "%20", "%e2%80%a8", "%C0%AF", "%ed%a0%80", "%7f", "%c2%80", "%5b%5D"))
        elif kind == 6:
            out += draw(gen.pick("é", "\u00a0", "\U0001F600", "ü", "e\u0301", "\ufeff"))
        elif kind == 7:
            out += draw(gen.pick(*":/?#[]@!$&'()*+,;="))
        else:
            out += draw(gen.pick("a", "http://e.example/", "?q=", "A", "~", "-", "_"))
    return out


def canonical(uri):
    """Case and percent-encoding normalization of RFC 3986, 6.2.2."""

    def one(match):
        char = chr(int(match.group(1), 16))
        return char if char in UNRESERVED else match.group(0).upper()

    return HEX.sub(one, uri)


def body(case, rec):
    normal = normalize_iri(case)
    rec.interesting(bool(re.search("(?:%[0-9A-Fa-f]{2}){2}", case) or HEX.search(normal)))
    rec.label("changes" if normal != case else "stays")
    again = normalize_iri(normal)
    assert again == normal, f"{case!r} becomes {normal!r} and then {again!r}"
    uri, original = quote_normalized_iri(normal), quote_normalized_iri(case)
    assert canonical(uri) == canonical(original), f"{case!r} becomes {normal!r}"
    for quoted in (uri, original):
        assert LEGAL_URI.fullmatch(canonical(quoted)), f"{quoted!r} is no URI"
        assert quote_normalized_iri(quoted) == quoted
    assert original == as_uri(case), (original, as_uri(case))
    assert NamedNode(case).toNT() == f"<{as_uri(case)}>"
    # Characters with a meaning of their own stay what they were.
    for char in RESERVED - {"%"}:
        assert normal.count(char) == case.count(char), f"{char} in {case!r} and {normal!r}"
    for char in map(chr, (*range(0x21), 0x22, 0x3C, 0x3E, 0x5C, 0x5E, 0x60, 0x7B, 0x7C, 0x7D, *range(0x7F, 0xA0))):
        assert normal.count(char) == case.count(char), f"{char!r} appears in {normal!r}"
    for match in HEX.finditer(normal):
        assert match.group(0) == match.group(0).upper(), f"{match.group(0)} stays in {normal!r}"


def spelling_cases():
    char = st.one_of(
        gen.pick(*"abzAZ09-._~"),
        gen.pick(*gen.LEGAL_BOUNDARIES),
        gen.pick(*"/?#:@!$&'()*+,;="),
    )
    mark = gen.ints(7)
    return st.lists(st.tuples(char, mark).map(list), max_size=14)


def spelling_body(case, rec):
    first = second = ""
    for char, mark in case:
        encoded = "".join("%%%02X" % b for b in char.encode("utf-8"))
        if char in RESERVED:
            # To encode these or not makes a difference, but case does not.
            if mark & 1:
                first += encoded
                second += encoded.lower() if mark & 2 else encoded
            else:
                first += char
                second += char
        else:
            first += char
            if mark & 1:
                second += encoded.lower() if mark & 2 else encoded
            else:
                second += char
    rec.interesting(bool(re.search("(?:%[0-9A-Fa-f]{2}){2}", second)))
    a, b = normalize_iri(first), normalize_iri(second)
    assert a == first, f"{first!r} is normal, but becomes {a!r}"
    assert a == b, f"{first!r} and {second!r} become {a!r} and {b!r}"


@st.composite
def long_strings(draw):
    """One piece or two, very often."""
    piece = st.one_of(
        gen.pick(
            "a", "%41", "%C3%A9", "%c3%a9", "%2F", "%2f", "%25", "%F0%9F%98%80", "é", "%C3",
            "%20", "/", "\U0001F600", "%E2%80%A8", "%7E",
        ),
        strings(),
    )
    out = draw(gen.pick("", "http://e.example/"))
    for _ in range(draw(gen.ints(2)) + 1):
        unit = draw(piece)
        times = draw(st.one_of(st.just(1), mined.sizes(1500)))
        out += unit * min(times, 1 + 9000 // (1 + len(unit)))
    return out


def long_spelling_cases():
    char = st.one_of(gen.pick(*"az09-~/?#%&"), gen.pick(*gen.LEGAL_BOUNDARIES))
    pair = st.tuples(char, gen.ints(7)).map(list)
    return st.tuples(st.lists(pair, min_size=1, max_size=3), mined.sizes(1000)).map(list)


def long_spelling_body(case, rec):
    pairs, times = case
    spelling_body(pairs * times, rec)


PROPS = [
    Prop("long iris", long_strings, body, quick=150),
    Prop("long spellings", long_spelling_cases, long_spelling_body, quick=100),
    Prop("iris", strings, body, quick=6000),
    Prop("spellings", spelling_cases, spelling_body, quick=4000),
]
