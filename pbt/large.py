"""Graphs of many statements, made from a few numbers: one size at a time is large,
so that whatever depends on how many there are of something gets to see many."""

from functools import cache

from hypothesis import strategies as st

from . import gen, mined
from .terms import XSD

NS = "http://many.example/"


@cache
def specs(limit=1500):
    """Numbers of subjects, predicates, objects, graphs (and blank nodes among them)."""
    few = st.integers(1, 4)
    many = mined.sizes(limit)

    @st.composite
    def build(draw):
        count = draw(many)
        kinds = draw(gen.pick("s", "p", "o", "so", "spo", "g", "sg"))
        return {
            "count": count,
            "s": count if "s" in kinds else draw(few),
            "p": min(count, 400) if "p" in kinds else draw(few),
            "o": count if "o" in kinds else draw(few),
            "g": min(count, 300) if "g" in kinds else draw(few),
            "anonymous": draw(st.booleans()),
            "literals": draw(gen.ints(3)),
            "step": draw(gen.pick(1, 1, 7, 101)),
        }

    return build()


def term(kind, i, spec):
    """The term of a number."""
    if kind in "so" and spec["anonymous"] and i % 2:
        return ("B", "%s%d" % (kind, i))
    if kind == "g" and spec["anonymous"] and i % 3 == 1:
        return ("B", "g%d" % i)
    if kind == "o" and spec["literals"]:
        how = i % 4
        if how < spec["literals"]:
            if how == 0:
                return ("L", "value %d" % i, None, None)
            if how == 1:
                return ("L", str(i), None, XSD + "integer")
            return ("L", str(i), "en", None)
    return ("I", NS + kind + str(i))


def quads(spec):
    """As many different quads as there can be, up to the count, in some order."""
    result = []
    for n in range(spec["count"]):
        i = n * spec["step"]
        result.append(
            (
                term("s", i % spec["s"], spec),
                term("p", (i // spec["s"] if spec["p"] <= 4 else i) % spec["p"], spec),
                term("o", (i // 2 if spec["o"] <= 4 else i) % spec["o"], spec),
                None if i % spec["g"] == 0 else term("g", i % spec["g"], spec),
            )
        )
    return list(dict.fromkeys(result))


@cache
def long_ones(limit=3000):
    """Numbers for terms that are large themselves."""
    return st.tuples(
        mined.sizes(limit),
        gen.pick("a", "é", " ", "\\", '"', "\n", "ab ", "\U0001F600", "%"),
        gen.chars(),
        gen.ints(2),
    ).map(list)


def long_text(size, unit, char, where):
    """Text of a size with some character at its beginning, middle or end."""
    text = (unit * size)[: size - 1]
    at = (0, size // 2, len(text))[where]
    return text[:at] + char + text[at:]


def long_triples(size, unit, char, where):
    text = long_text(size, unit, char, where)
    iri = NS + long_text(size, "a/", "b", 2)
    me = ("I", NS + "s")
    return [
        (me, ("I", NS + "p"), ("L", text, None, None)),
        (me, ("I", NS + "p"), ("L", text, "en", None)),
        (me, ("I", NS + "p"), ("L", text, None, NS + "dt")),
        (me, ("I", NS + "p"), ("L", "short", None, iri)),
        (("I", iri), ("I", NS + "p"), me),
        (me, ("I", iri + "p"), ("I", iri + "o")),
        (("B", "0"), ("I", NS + "p"), ("I", iri)),
    ]


def triples(spec):
    return list(dict.fromkeys(q[:3] for q in quads(spec)))
