"""Generates N-Triples and N-Quads documents along with what they mean, with
all the freedom the grammar gives in how to write it down."""

from functools import cache
import itertools

from hypothesis import strategies as st

from . import gen, near
from .ntref import BASE, CHARS, NODE

SHORT = {"\t": "t", "\b": "b", "\n": "n", "\r": "r", "\f": "f", '"': '"', "'": "'", "\\": "\\"}


def boundary_chars(chars_class):
    """Both ends of every range of a character class, and some in between."""
    result = []
    i = 0
    while i < len(chars_class):
        if chars_class[i] == "\\":
            result.append(chars_class[i + 1])
            i += 2
        elif i + 2 < len(chars_class) and chars_class[i + 1] == "-":
            first, last = ord(chars_class[i]), ord(chars_class[i + 2])
            result += [chr(first), chr(last), chr((first + last) // 2)]
            i += 3
        else:
            result.append(chars_class[i])
            i += 1
    return result


BASE_CHARS = boundary_chars(BASE)
LABEL_CHARS = boundary_chars(CHARS)


@cache
def label_rests():
    return st.lists(st.sampled_from(LABEL_CHARS + [".", ".", "-"]), max_size=5)


@cache
@st.composite
def labels(draw, colon=True):
    """Blank node labels, without the _: in front."""
    if draw(gen.ints(2)) == 0:
        return draw(gen.pick("a", "b", "b0", "b1", "x_y", "_", "0", "a.b", "a-", "A", "B0", "a..b", "a.B", "aa", "00"))
    first = draw(gen.pick(*BASE_CHARS, "_", "0", "9", ":" if colon else "_"))
    rest = draw(label_rests())
    label = (first + "".join(rest)).rstrip(".")
    return label if colon else label.replace(":", "c")


def cycle(draw, limit, size=4):
    """Choices for each of any number of things, from a few draws."""
    return itertools.cycle(draw(choices(limit, size)))


@cache
def choices(limit, size):
    return st.lists(st.integers(0, limit), min_size=1, max_size=size)


def uchar(char, choice):
    code = ord(char)
    hexed = "%04x" % code
    if code > 0xFFFF or choice & 1:
        hexed = "%08x" % code
    if choice & 2:
        hexed = hexed.upper()
    return ("\\U" if len(hexed) == 8 else "\\u") + hexed


def spell_string(draw, value, quote='"', long=False):
    """A string between quotes, escaped as need be and somewhat beyond."""
    style = draw(gen.ints(3))
    if len(value) > 40:
        style = 0
    out = []
    marks = cycle(draw, 15) if style in (1, 2, 3) else itertools.repeat(0)
    for i, char in enumerate(value):
        choice = next(marks)
        must = char == "\\" or (not long and char in quote + "\n\r")
        if long and char == quote:
            # Up to two quotes in a row are all right unless they end the string.
            must = out[-2:] == [quote] * 2 or i + 1 == len(value)
        how = 3 if style == 3 else choice & 3
        if how in (1, 2) and char in SHORT and not (how == 1 and not must):
            out.append("\\" + SHORT[char])
        elif how == 3:
            out.append(uchar(char, choice >> 2))
        elif must:
            out.append("\\" + SHORT[char])
        else:
            out.append(char)
    quotes = quote * 3 if long else quote
    return quotes + "".join(out) + quotes


def spell_iri(draw, iri):
    if draw(gen.ints(3)) != 3:
        return f"<{iri}>"
    marks = cycle(draw, 15)
    return "<" + "".join(
        uchar(c, choice >> 2) if choice & 3 == 3 else c for c, choice in zip(iri, marks)
    ) + ">"


def spell(draw, term):
    kind = term[0]
    if kind == "I":
        return spell_iri(draw, term[1])
    if kind == "B":
        return "_:" + term[1]
    _, value, language, datatype = term
    text = spell_string(draw, value)
    gap = draw(gen.pick("", "", "", " "))
    if language is not None:
        return f"{text}{gap}@{language}"
    if datatype is not None:
        return f"{text}{gap}^^{gap}{spell_iri(draw, datatype)}"
    return text


@cache
def comments():
    return st.lists(
        st.one_of(st.sampled_from(["#", "<", ">", '"', " .", "_:a", "\\", "é", "\x85", "\u2028"]), gen.chars()),
        max_size=4,
    ).map(lambda c: "#" + "".join(c).replace("\n", "").replace("\r", ""))


@cache
def spaces():
    return st.sampled_from([" ", " ", "", "\t", "  ", " \t "])


EOLS = ["\n", "\n", "\r\n", "\r", "\n\n", "\r\n\r\n", "\n\r\n"]


def glue(draw, left, right):
    """White space between two tokens, which may not always be left out."""
    space = draw(spaces())
    if space:
        return space
    if left.endswith((">", '"')) and right[0] in '<"_.':
        return ""
    if right[0] == "<" or (right[0] == '"' and left[-1] == '"'):
        return ""
    return " "


@cache
def label_lists():
    """Some labels, often of little difference."""
    others = st.lists(labels(), min_size=1, max_size=3, unique=True)
    return st.one_of(others, st.tuples(others, gen.ints(len(NEAR) - 1)).map(with_near))


# What makes another label out of one: a difference that something may not see.
NEAR = [
    lambda label: "".join(c.swapcase() if c.isascii() else c for c in label) if label.upper() != label.lower() else label + "A",
    lambda label: label + label[-1],
    lambda label: label + "0",
    lambda label: "0" + label,
    lambda label: label + "_",
    lambda label: "_" + label,
    lambda label: label + "-",
    lambda label: label + ".0",
    lambda label: label[:-1].rstrip(".") or "aa",
    lambda label: label[1:],
    lambda label: label + "é",
    lambda label: label + "e\u0301",
    lambda label: label + "·",
    lambda label: label + "\u200d",
    lambda label: swap(label, ".", "-"),
    lambda label: swap(label, "-", "."),
    lambda label: swap(label, ".", "_"),
    lambda label: swap(label, "_", "-"),
    lambda label: swap(label, ".", "0"),
    lambda label: swap(label, ".", ".."),
    lambda label: swap(label, ".", ""),
    lambda label: swap(label, "0", "00"),
    lambda label: label[::-1],
    lambda label: label * 2,
]  # fmt: skip


def swap(label, old, new):
    """The label with one thing instead of another."""
    return label.replace(old, new) if old in label[1:-1] else label[0] + new + label[1:]


def with_near(names_how):
    names, how = names_how
    names = names[:2]
    if 10 <= how < 14:
        names[0] += "eé"[how % 2]
    elif how >= 14:
        names[0] = names[0][0] + ".-_0"[len(names[0]) % 4 if how > 20 else (how - 14) % 4] + names[0][1:] + "z"
    near = NEAR[how](names[0])
    if not NODE.fullmatch("_:" + near):
        near = "aa"
    return list(dict.fromkeys([names[0], near, *names[1:]]))


@st.composite
def documents(draw, quads=False, max_size=8, eols=EOLS):
    """{"text", "expected"}; blank nodes are known by their labels."""
    names = draw(label_lists())

    def node():
        return ["B", names[draw(gen.ints(len(names) - 1))]]

    used = []

    def iri():
        if used and draw(gen.ints(6)) == 6:
            # One that isn't quite one that there is.
            return near.term(used[draw(gen.ints(len(used) - 1))], draw(gen.ints(len(near.IRI) - 1)))
        used.append(["I", draw(gen.mixed_iris())])
        return used[-1]

    def literal():
        if literals and draw(gen.ints(3)) == 3:
            return near.term(literals[-1], draw(gen.ints(4 * len(near.TEXT) - 1)))
        literals.append(draw(gen.literals()))
        return literals[-1]

    literals = []

    text, expected = "", []
    for _ in range(draw(st.integers(0, max_size))):
        kind = draw(gen.ints(7))
        if kind == 7:
            line = draw(spaces()) + draw(comments())
        elif kind == 6:
            line = draw(spaces())
        else:
            statement = [
                node() if draw(gen.ints(2)) == 2 else iri(),
                iri(),
                literal(),
            ]
            kind = draw(gen.ints(4))
            if kind < 2:
                statement[2] = iri() if kind == 0 else node()
            if quads:
                graph = draw(gen.ints(3))
                if graph:
                    statement.append(node() if graph == 3 else iri())
            tokens = [spell(draw, t) for t in statement] + ["."]
            line = draw(spaces())
            for i, token in enumerate(tokens):
                line += token
                if i + 1 < len(tokens):
                    line += glue(draw, token, tokens[i + 1])
            line += draw(spaces())
            if draw(gen.ints(4)) == 4:
                line += draw(comments())
            if quads and len(statement) == 3:
                statement.append(None)
            expected.append(statement)
        text += line + draw(gen.pick(*eols))
    if text and draw(gen.ints(3)) == 3:
        text = text.rstrip("\r\n")
    return {"text": text, "expected": gen.unique(expected)}
