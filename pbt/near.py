"""Terms that differ from others in what something may not look at."""

import unicodedata

from hypothesis import strategies as st

from . import gen

IRI = [
    lambda i: i[:-1] + i[-1].swapcase() if i[-1:].isascii() and i[-1:].isalpha() else i + "A",
    lambda i: before(i, i.find(":") + 1) + i[i.find(":") + 1 :].swapcase() if i.isascii() and "%" not in i else i + "a",
    lambda i: i + "/",
    lambda i: i + "#",
    lambda i: i + "?",
    lambda i: i + "0",
    lambda i: i + i[-1],
    lambda i: i[:-1] if ":" in i[:-1] and i[-2:-1] not in ("", ":", "/", "%") and i[-3:-2] != "%" else i + "b",
    lambda i: swap(i, "#", "/"),
    lambda i: swap(i, "/", "#", last=True),
    lambda i: swap(i, "http:", "https:"),
    lambda i: swap(i, "a", "%61"),
    lambda i: swap(i, "e", "%65"),
    lambda i: swap(i, "~", "%7E"),
    lambda i: i.replace("%4", "%5") if "%4" in i else i + "%41",
    lambda i: other_form(i) or i + "e\u0301",
    lambda i: i + "\u00e9",
    lambda i: i + "%C3%A9",
    lambda i: i + "%c3%a9",
    lambda i: "http://near.example/" + i.rpartition("/")[2].replace("#", "").replace("[", "").replace("]", ""),
    lambda i: "http://near.example/ns#" + i.rpartition("#")[2].rpartition("/")[2].replace("[", "").replace("]", ""),
    lambda i: swap(i, ".", "-"),
    lambda i: i + "." if i[-1] != "." else i + "a",
    lambda i: i + "-",
    lambda i: i + "_",
    lambda i: i + "%20",
    lambda i: i + "/.",
    lambda i: i + "a" * 300,
]  # fmt: skip

TEXT = [
    lambda t: t.swapcase() if t.isascii() and t.swapcase() != t else t + "A",
    lambda t: t + " ",
    lambda t: " " + t,
    lambda t: t + "\n",
    lambda t: t + "\r",
    lambda t: t + "\x00",
    lambda t: t + "0",
    lambda t: "0" + t,
    lambda t: t[:-1] if t else "a",
    lambda t: t[1:] if t else "b",
    lambda t: other_form(t) or t + "e\u0301",
    lambda t: t + "\u00e9",
    lambda t: t + "\ufeff",
    lambda t: "\ufeff" + t,
    lambda t: t + "\\",
    lambda t: t + '"',
    lambda t: t.replace("\r\n", "\n") if "\r\n" in t else t + "\r\n",
    lambda t: t.replace("\n", " ") if "\n" in t else t + "\n\n",
    lambda t: t.replace("\\", "\\\\") if "\\" in t else t + "\\n",
    lambda t: t * 2 if t else "aa",
    lambda t: t + "a" * 300,
    lambda t: t[::-1] if t[::-1] != t else t + "ab",
]  # fmt: skip

LANGUAGE = [
    lambda l: l.swapcase() if l.swapcase() != l else l + "a",
    lambda l: l + "-x",
    lambda l: l + "-x-a",
    lambda l: l.partition("-")[0] if "-" in l else l + "-a",
    lambda l: l[:-1] if len(l) > 1 and l[-2] != "-" else l + "b",
    lambda l: "e" if l != "e" else "f",
]


def before(text, end):
    return text[:end]


def swap(iri, old, new, last=False):
    """With one thing instead of another, after the authority."""
    if old == "http:":
        return iri.replace(old, new, 1) if iri.startswith(old) else "http:" + iri.partition(":")[2]
    start = iri.find("//") + 2 if "//" in iri[:12] else 0
    start = max(start, iri.find(":") + 1, iri.find("/", start) + 1 if start else 0)
    head, tail = iri[:start], iri[start:]
    if old not in tail:
        return iri + new
    if last:
        front, _, back = tail.rpartition(old)
        return head + front + new + back
    return head + tail.replace(old, new, 1)


def other_form(text):
    for form in ("NFC", "NFD"):
        if unicodedata.normalize(form, text) != text:
            return unicodedata.normalize(form, text)


def term(t, how):
    """A term (as in pbt.terms) near to another."""
    if t is None or t[0] == "B":
        return t
    if t[0] == "I":
        if not t[1]:
            return ["I", "http://near.example/"]
        return ["I", IRI[how % len(IRI)](t[1])]
    _, value, language, datatype = t
    kind = how % 4
    how //= 4
    if kind == 1 and language:
        return ["L", value, LANGUAGE[how % len(LANGUAGE)](language), None]
    if kind == 1 and datatype:
        return ["L", value, None, IRI[how % len(IRI)](datatype)]
    if kind == 2:
        others = ["en", "fr", None, None, None, None]
        types = [None, None, None, "http://www.w3.org/2001/XMLSchema#string", "http://www.w3.org/2001/XMLSchema#integer", "http://near.example/#string"]
        how %= 6
        return ["L", value, others[how], types[how]]
    return ["L", TEXT[how % len(TEXT)](value), language, datatype]


def more(statements_at_how):
    """Statements, and some of them again with a term that's near to the one they have."""
    statements, at, how = statements_at_how
    statements = list(statements)
    if not statements:
        return statements
    chosen = statements[at % len(statements)]
    place = at // 16 % len(chosen)
    old = chosen[place]
    if old is None or old[0] == "B":
        place = 1
        old = chosen[1]
    new = term(old, how)
    for s in statements[:]:
        if old in s:
            statements.append([new if t == old and (t[0] == "I" or i == 2) else t for i, t in enumerate(s)])
    return gen.unique(statements)


def with_near(strategy):
    """Lists of statements that more often than not have something alike in them."""
    return st.one_of(
        strategy,
        st.tuples(strategy, gen.ints(95), gen.ints(4 * len(IRI) - 1)).map(more),
        st.tuples(strategy, gen.ints(95), gen.ints(4 * len(TEXT) - 1)).map(more),
    )
