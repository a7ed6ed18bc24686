"""A reader of Turtle written from the W3C recommendation, independently of the
code under test and strict: it refuses what isn't valid."""

import re

from . import rfc3986
from .core import frames
from .ntref import BASE, SHORT, UCHAR
from .terms import RDF, XSD

U = BASE + "_"
CHARS = U + "\\-0-9\u00B7\u0300-\u036F\u203F-\u2040"
PLX = r"%[0-9A-Fa-f]{2}|\\[_~.\-!$&'()*+,;=/?#@%]"
PREFIX = rf"(?:[{BASE}](?:[{CHARS}.]*[{CHARS}])?)?:"
LOCAL = rf"(?:[{U}:0-9]|{PLX})(?:(?:[{CHARS}.:]|{PLX})*(?:[{CHARS}:]|{PLX}))?"
ECHAR = r"\\[tbnrf\"'\\]"
TOKENS = [
    ("IRI", rf'<(?:[^\x00-\x20<>"{{}}|^`\\]|{UCHAR})*>'),
    ("NAME", rf"{PREFIX}(?:{LOCAL})?"),
    ("NODE", rf"_:[{U}0-9](?:[{CHARS}.]*[{CHARS}])?"),
    ("AT", r"@[a-zA-Z]+(?:-[a-zA-Z0-9]+)*"),
    ("DOUBLE", r"[+-]?(?:[0-9]+\.[0-9]*[eE][+-]?[0-9]+|\.?[0-9]+[eE][+-]?[0-9]+)"),
    ("DECIMAL", r"[+-]?[0-9]*\.[0-9]+"),
    ("INTEGER", r"[+-]?[0-9]+"),
    ("LONG", rf'"""(?:"{{0,2}}(?:[^"\\]|{ECHAR}|{UCHAR}))*"""'),
    ("LONG", rf"'''(?:'{{0,2}}(?:[^'\\]|{ECHAR}|{UCHAR}))*'''"),
    ("SHORT", rf'"(?:[^"\\\n\r]|{ECHAR}|{UCHAR})*"'),
    ("SHORT", rf"'(?:[^'\\\n\r]|{ECHAR}|{UCHAR})*'"),
    ("ANON", r"\[[ \t\r\n]*\]"),
    ("WORD", r"[A-Za-z]+"),
    ("PUNCTUATION", r"\^\^|[.;,\[\]()]"),
]
TOKENS = [(kind, re.compile(pattern)) for kind, pattern in TOKENS]
SKIP = re.compile(r"(?:[ \t\r\n]|#[^\r\n]*)*")
ESCAPES = re.compile(rf"{UCHAR}|\\.", re.DOTALL)
ILLEGAL = re.compile(r'[\x00-\x20<>"{}|^`\\]')


class Invalid(Exception):
    pass


def tokenize(text):
    position = SKIP.match(text).end()
    while position < len(text):
        best = None
        for kind, pattern in TOKENS:
            match = pattern.match(text, position)
            if match and (best is None or match.end() > best[1]):
                best = (kind, match.end())
        if best is None:
            raise Invalid(f"at {position}: {text[position:position + 30]!r}")
        kind, end = best
        yield kind, text[position:end]
        position = SKIP.match(text, end).end()


def unescape(text):
    def one(match):
        escape = match.group(0)
        if escape[1] in "uU":
            code = int(escape[2:], 16)
            if code > 0x10FFFF or 0xD800 <= code <= 0xDFFF:
                raise Invalid(escape)
            return chr(code)
        return SHORT[escape[1]]

    return ESCAPES.sub(one, text)


class Reader:
    def __init__(self, text, base="", prefixes=()):
        self.tokens = list(tokenize(text))
        self.position = 0
        self.base = base
        self.prefixes = dict(prefixes)
        self.statements = set()
        self.count = 0

    def peek(self):
        if self.position < len(self.tokens):
            return self.tokens[self.position]
        return ("END", "")

    def next(self):
        token = self.peek()
        self.position += 1
        return token

    def expect(self, text):
        kind, found = self.next()
        if found != text or kind in ("SHORT", "LONG"):
            raise Invalid(f"{found!r} instead of {text!r}")

    def new_node(self):
        self.count += 1
        return ("B", "anon%d" % self.count)

    def read(self):
        while self.peek()[0] != "END":
            self.statement()
        return self.statements

    def statement(self):
        kind, text = self.peek()
        if kind == "AT" and text == "@prefix" or kind == "WORD" and text.lower() == "prefix":
            self.next()
            kind, name = self.next()
            if kind != "NAME" or not name.endswith(":") or name.count(":") != 1:
                raise Invalid(f"prefix {name!r}")
            self.prefixes[name[:-1]] = self.reference()
            if text[0] == "@":
                self.expect(".")
        elif kind == "AT" and text == "@base" or kind == "WORD" and text.lower() == "base":
            self.next()
            self.base = self.reference()
            if text[0] == "@":
                self.expect(".")
        else:
            self.triples()
            self.expect(".")

    def reference(self):
        kind, text = self.next()
        if kind != "IRI":
            raise Invalid(f"{text!r} instead of an IRI")
        reference = unescape(text[1:-1])
        if ILLEGAL.search(reference):
            raise Invalid(reference)
        return rfc3986.absolute(self.base, reference)

    def iri(self):
        kind, text = self.peek()
        if kind == "IRI":
            return ("I", self.reference())
        if kind != "NAME":
            raise Invalid(f"{text!r} instead of an IRI")
        self.next()
        prefix, _, local = text.partition(":")
        if prefix not in self.prefixes:
            raise Invalid(f"prefix {prefix!r} isn't defined")
        return ("I", self.prefixes[prefix] + re.sub(r"\\(.)", r"\1", local))

    def triples(self):
        kind, text = self.peek()
        if text == "[" and kind == "PUNCTUATION":
            subject = self.property_list()
            if self.peek() == ("PUNCTUATION", "."):
                return
        elif kind in ("IRI", "NAME"):
            subject = self.iri()
        elif kind in ("NODE", "ANON"):
            subject = self.node()
        elif text == "(" and kind == "PUNCTUATION":
            subject = self.collection()
        else:
            raise Invalid(f"{text!r} as a subject")
        self.predicate_objects(subject)

    def node(self):
        kind, text = self.next()
        return self.new_node() if kind == "ANON" else ("B", text[2:])

    def predicate_objects(self, subject):
        while True:
            if self.peek() == ("WORD", "a"):
                self.next()
                predicate = ("I", RDF + "type")
            else:
                predicate = self.iri()
            while True:
                self.statements.add((subject, predicate, self.object()))
                if self.peek() != ("PUNCTUATION", ","):
                    break
                self.next()
            if self.peek() != ("PUNCTUATION", ";"):
                return
            while self.peek() == ("PUNCTUATION", ";"):
                self.next()
            kind, text = self.peek()
            if not (kind in ("IRI", "NAME") or (kind, text) == ("WORD", "a")):
                return

    def property_list(self):
        self.expect("[")
        node = self.new_node()
        self.predicate_objects(node)
        self.expect("]")
        return node

    def collection(self):
        self.expect("(")
        items = []
        while self.peek() != ("PUNCTUATION", ")"):
            items.append(self.object())
        self.expect(")")
        head = ("I", RDF + "nil")
        for item in reversed(items):
            cell = self.new_node()
            self.statements.add((cell, ("I", RDF + "first"), item))
            self.statements.add((cell, ("I", RDF + "rest"), head))
            head = cell
        return head

    def object(self):
        kind, text = self.peek()
        if kind in ("IRI", "NAME"):
            return self.iri()
        if kind in ("NODE", "ANON"):
            return self.node()
        if (kind, text) == ("PUNCTUATION", "("):
            return self.collection()
        if (kind, text) == ("PUNCTUATION", "["):
            return self.property_list()
        self.next()
        if kind in ("INTEGER", "DECIMAL", "DOUBLE"):
            return ("L", text, None, XSD + kind.lower())
        if kind == "WORD" and text in ("true", "false"):
            return ("L", text, None, XSD + "boolean")
        if kind not in ("SHORT", "LONG"):
            raise Invalid(f"{text!r} as an object")
        value = unescape(text[1:-1] if kind == "SHORT" else text[3:-3])
        kind, text = self.peek()
        if kind == "AT":
            self.next()
            return ("L", value, text[1:], None)
        if text == "^^":
            self.next()
            return ("L", value, None, self.iri()[1])
        return ("L", value, None, XSD + "string")


def read(text, base="", prefixes=()):
    """The triples of a document, a set of tuples as described by terms.py."""
    with frames(50000):  # it's recursive
        return Reader(text, base, prefixes).read()
