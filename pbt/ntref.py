"""A reader of N-Triples and N-Quads written from the W3C recommendations,
independently of the code under test and strict: it refuses what isn't valid."""

import re

BASE = (
    "A-Za-z\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u0370-\u037D\u037F-\u1FFF"
    "\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD"
    "\U00010000-\U000EFFFF"
)
CHARS = BASE + "_:\\-0-9\u00B7\u0300-\u036F\u203F-\u2040"
UCHAR = r"\\u[0-9A-Fa-f]{4}|\\U[0-9A-Fa-f]{8}"
IRI = re.compile(rf'<((?:[^\x00-\x20<>"{{}}|^`\\]|{UCHAR})*)>')
NODE = re.compile(rf"_:([{BASE}_:0-9](?:[{CHARS}.]*[{CHARS}])?)")
STRING = re.compile(rf'"((?:[^"\\\n\r]|\\[tbnrf"\'\\]|{UCHAR})*)"')
LANG = re.compile(r"@([a-zA-Z]+(?:-[a-zA-Z0-9]+)*)")
SPACE = re.compile(r"[ \t]*")
ESCAPE = re.compile(rf"{UCHAR}|\\.")
SHORT = {"t": "\t", "b": "\b", "n": "\n", "r": "\r", "f": "\f", '"': '"', "'": "'", "\\": "\\"}


class Invalid(Exception):
    pass


def unescape(text):
    def one(match):
        escape = match.group(0)
        if escape[1] in "uU":
            code = int(escape[2:], 16)
            if code > 0x10FFFF or 0xD800 <= code <= 0xDFFF:
                raise Invalid(escape)
            return chr(code)
        return SHORT[escape[1]]

    return ESCAPE.sub(one, text)


def read_line(line, quads):
    position = SPACE.match(line).end()
    terms = []

    def take(pattern):
        nonlocal position
        match = pattern.match(line, position)
        if match:
            position = SPACE.match(line, match.end()).end()
        return match

    if position == len(line) or line[position] == "#":
        return None
    while position < len(line) and line[position] != ".":
        match = take(IRI)
        if match:
            terms.append(("I", unescape(match.group(1))))
            continue
        match = take(NODE)
        if match:
            terms.append(("B", match.group(1)))
            continue
        match = take(STRING)
        if not match:
            raise Invalid(line[position:])
        value, lang, datatype = unescape(match.group(1)), None, None
        match = take(LANG)
        if match:
            lang = match.group(1)
        elif line.startswith("^^", position):
            position = SPACE.match(line, position + 2).end()
            match = take(IRI)
            if not match:
                raise Invalid(line[position:])
            datatype = unescape(match.group(1))
        terms.append(("L", value, lang, datatype))
    if not line.startswith(".", position):
        raise Invalid("no . in " + line)
    rest = line[position + 1 :].lstrip(" \t")
    if rest and not rest.startswith("#"):
        raise Invalid("after the .: " + rest)
    kinds = "".join(t[0] for t in terms)
    if not re.fullmatch("[IB]I[IBL]" + ("[IB]?" if quads else ""), kinds):
        raise Invalid(kinds)
    if quads and len(terms) == 3:
        terms.append(None)
    return tuple(terms)


def read(text, quads=False):
    """The statements of a document, as they come."""
    statements = []
    for line in re.split(r"[\r\n]+", text):
        statement = read_line(line, quads)
        if statement is not None:
            statements.append(statement)
    return statements


UNRESERVED = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~")
RESERVED = set("%:/?#[]@!$&'()*+,;=")


def as_uri(iri):
    """The URI that N-Triples output has in place of an IRI: all but reserved
    and unreserved characters are percent-encoded."""
    return "".join(
        c
        if c in UNRESERVED or c in RESERVED
        else "".join("%%%02X" % b for b in c.encode("utf-8"))
        for c in iri
    )


def expected(statement):
    """What is to be read back of a statement."""
    result = []
    for t in statement:
        if t is None or t[0] == "B":
            result.append(t)
        elif t[0] == "I":
            result.append(("I", as_uri(t[1])))
        else:
            result.append(("L", t[1], t[2], None if t[3] is None else as_uri(t[3])))
    return tuple(result)
