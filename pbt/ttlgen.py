"""Generates Turtle documents along with what they mean.

The document is written token by token, making use of all the freedom that the
W3C grammar gives, while its statements are collected. References are resolved
by rfc3986.py, which is independent of the code under test."""

from functools import cache

from hypothesis import strategies as st

from . import gen, near, ntgen, rfc3986
from .ntref import BASE, CHARS
from .terms import RDF, XSD

NAMESPACES = [
    "http://example.com/",
    "http://example.com/ns#",
    "http://e.example/",
    "urn:x:",
    "http://é.example/ü/",
    "http://e.example/%41?q=",
    "http://www.w3.org/2001/XMLSchema#",
    RDF,
]
BASES = [
    "http://example.com/",
    "http://example.com",
    "http://example.com/a/b/c",
    "http://example.com/a/b/c/",
    "http://example.com/a/b?q=1#f",
    "http://example.com/a/../b/./c",
    "http://user@h:80/x//y/",
    "https://é.example/ü/",
    "urn:a:b",
    "mailto:a@b",
    "file:///a/b",
    "tag:x,1:a/b/c",
    "http://example.com?q",
    "http://example.com/a/b#",
]
REFERENCES = [
    "", "a", "a/b", "./a", "../a", "../../a", "../../../a", "../../../../a", ".", "..",
    "./", "../", "/", "/a", "/./a", "/../a", "/a/b/../c", "a/./b", "a/../b", "a/..", "a/.",
    "//other.example/x", "//other.example", "?q", "?q#f", "#", "#f", "#a/../b", "?a/../b",
    "a?b", "a#b", "a?b#c", "a/b/", "é", "%2e%2e/a", "g;x=1/./y", "g;x=1/../y",
    "...", ".a", "a.", "..a", "a..", "a//b", "//", "./a:b", "?", "a?", "a#", "b%20c",
    "/a/b/c/./../../g", "mid/content=5/../6",
]  # fmt: skip
NUMBERS = [
    ("0", "integer"), ("1", "integer"), ("-5", "integer"), ("+5", "integer"),
    ("007", "integer"), ("1.0", "decimal"), (".5", "decimal"), ("-.5", "decimal"),
    ("+1.50", "decimal"), ("1e0", "double"), ("1E5", "double"), ("1.e5", "double"),
    ("1.5e-3", "double"), (".5E+7", "double"), ("-1.0e10", "double"), ("+.5e0", "double"),
    ("123456789012345678901234567890", "integer"), ("0.1234567890123456789", "decimal"),
]  # fmt: skip

@cache
@st.composite
def numbers(draw):
    """A number, and what its datatype is."""
    if draw(gen.ints(2)):
        return draw(gen.pick(*NUMBERS))
    some = draw(gen.pick(1, 2, 5, 9, 10, 11, 16, 17, 19, 20, 25))
    digits = draw(st.text("0123456789", min_size=1, max_size=some)) + draw(gen.pick("", "", "0", "00", "0" * some))
    sign = draw(gen.pick("", "", "+", "-"))
    fraction = draw(st.text("0123456789", min_size=1, max_size=some)) + draw(gen.pick("", "0"))
    exponent = draw(gen.pick("e", "E")) + draw(gen.pick("", "+", "-")) + draw(st.text("0123456789", min_size=1, max_size=4))
    return draw(
        gen.pick(
            (sign + digits, "integer"),
            (sign + digits, "integer"),
            (f"{sign}{digits}.{fraction}", "decimal"),
            (f"{sign}.{fraction}", "decimal"),
            (f"{sign}{digits}.{fraction}{exponent}", "double"),
            (f"{sign}{digits}.{exponent}", "double"),
            (f"{sign}.{fraction}{exponent}", "double"),
            (f"{sign}{digits}{exponent}", "double"),
        )
    )


PREFIX_CHARS = [c for c in ntgen.boundary_chars(CHARS) if c != ":"]
LOCAL_ESCAPES = "_~.-!$&'()*+,;=/?#@%"


@cache
@st.composite
def prefix_names(draw):
    if draw(gen.ints(3)):
        return draw(gen.pick("", "ex", "p", "a", "b", "rdf", "xsd", "e", "true", "base", "prefix", "p.q", "E", "false"))
    first = draw(gen.pick(*ntgen.BASE_CHARS))
    rest = "".join(draw(prefix_rests()))
    return (first + rest).rstrip(".")


@cache
def prefix_rests():
    return st.lists(st.sampled_from(PREFIX_CHARS + [".", "-"]), max_size=3)


@cache
def locals_():
    """Local parts: of characters to be written as such, escaped or encoded."""
    return st.one_of(
        local_units(),
        local_units(),
        local_units(),
        # Those that look like more of the prefix.
        local_units().map(lambda units: [":"] + units[:5]),
    )


@cache
def local_units():
    return st.lists(
        st.one_of(
            st.sampled_from("abz019_"),
            st.sampled_from(LOCAL_ESCAPES),
            st.sampled_from(ntgen.BASE_CHARS + PREFIX_CHARS + [":"]),
            st.sampled_from(["%41", "%c3%A9", "%00", "."]),
        ),
        max_size=6,
    )


def spell_local(draw, units):
    """A local name for a list of characters and percent-encodings."""
    out = ""
    marks = ntgen.cycle(draw, 3)
    for i, unit in enumerate(units):
        mark = next(marks)
        if len(unit) == 3:
            out += unit
        elif unit in LOCAL_ESCAPES:
            inside = 0 < i < len(units) - 1
            # Some may be written as they are, but not everywhere.
            if unit == "_" and mark != 3:
                out += unit
            elif unit == "-" and i > 0 and mark > 0:
                out += unit
            elif unit == "." and inside and mark > 0:
                out += unit
            else:
                out += "\\" + unit
        else:
            out += unit
    return out


def legal_local(units):
    """Drop what can't be the first of a local name."""
    units = list(units)
    while units and len(units[0]) == 1 and (
        units[0] == "\u00B7"
        or "\u0300" <= units[0] <= "\u036F"
        or "\u203F" <= units[0] <= "\u2040"
    ):
        units.pop(0)
    return units


class Writer:
    """Writes one document."""

    def __init__(self, draw, base, relative, depth):
        self.draw = draw
        self.base = base
        self.relative = relative  # how often IRIs are relative, of 4
        self.depth = depth
        self.prefixes = {}
        self.labels = draw(ntgen.label_lists())
        self.labels = [label.replace(":", "c") for label in self.labels]
        self.used = []
        self.tokens = []
        self.statements = []
        self.count = 0
        self.features = set()

    def emit(self, *tokens):
        self.tokens.extend(tokens)

    def chance(self, most):
        return self.draw(gen.ints(most)) == most

    def new_node(self):
        self.count += 1
        return ["B", "anon%d" % self.count]

    def add(self, s, p, o):
        self.statements.append([s, p, o])

    # Directives

    def directive(self):
        if self.chance(2):
            self.base_directive()
        else:
            self.prefix_directive()

    def prefix_directive(self):
        name = self.draw(prefix_names())
        if self.relative and self.base and self.chance(1):
            reference = self.draw(gen.pick(*REFERENCES))
            self.features.add("relative prefix")
        else:
            reference = self.draw(gen.pick(*NAMESPACES))
        if name in self.prefixes:
            self.features.add("prefix redefined")
        self.prefixes[name] = self.resolve(reference)
        if self.chance(2):
            keyword = self.draw(gen.pick("PREFIX", "prefix", "Prefix", "pReFiX"))
            self.emit(keyword, name + ":", ntgen.spell_iri(self.draw, reference))
            self.features.add("sparql prefix")
        else:
            self.emit("@prefix", name + ":", ntgen.spell_iri(self.draw, reference), ".")

    def base_directive(self):
        if self.relative and self.base and self.chance(1):
            reference = self.draw(gen.pick(*REFERENCES))
            self.features.add("relative base")
        else:
            reference = self.draw(gen.pick(*BASES))
        self.base = self.resolve(reference)
        if self.chance(1):
            keyword = self.draw(gen.pick("BASE", "base", "Base"))
            self.emit(keyword, ntgen.spell_iri(self.draw, reference))
        else:
            self.emit("@base", ntgen.spell_iri(self.draw, reference), ".")

    def resolve(self, reference):
        return rfc3986.absolute(self.base, reference)

    # Terms

    def iri(self):
        """Writes an IRI, and returns the term."""
        kind = self.draw(gen.ints(3))
        if kind < 2 and self.prefixes:
            names = sorted(self.prefixes)
            name = names[self.draw(gen.ints(len(names) - 1))]
            units = legal_local(self.draw(locals_()))
            self.emit(name + ":" + spell_local(self.draw, units))
            self.features.add("prefixed name")
            return ["I", self.prefixes[name] + "".join(units)]
        if self.base and self.draw(gen.ints(4)) < self.relative:
            reference = self.draw(references())
            self.features.add("relative IRI")
        else:
            reference = self.draw(gen.mixed_iris())
            if self.used and self.chance(6):
                # One that isn't quite one that there is.
                reference = self.used[self.draw(gen.ints(len(self.used) - 1))]
                reference = near.IRI[self.draw(gen.ints(len(near.IRI) - 1))](reference)
            self.used.append(reference)
        self.emit(ntgen.spell_iri(self.draw, reference))
        return ["I", self.resolve(reference)]

    def verb(self):
        if self.chance(4):
            self.emit("a")
            self.features.add("a")
            return ["I", RDF + "type"]
        return self.iri()

    def node(self):
        if self.chance(2):
            self.emit(self.draw(gen.pick("[]", "[ ]", "[\n]", "[\t \r\n]")))
            self.features.add("ANON")
            return self.new_node()
        label = self.labels[self.draw(gen.ints(len(self.labels) - 1))]
        self.emit("_:" + label)
        return ["B", "label " + label]

    def literal(self):
        kind = self.draw(gen.ints(7))
        if kind == 0:
            lexical, datatype = self.draw(numbers())
            self.emit(lexical)
            self.features.add(datatype)
            return ["L", lexical, None, XSD + datatype]
        if kind == 1:
            lexical = self.draw(gen.pick("true", "false"))
            self.emit(lexical)
            self.features.add("boolean")
            return ["L", lexical, None, XSD + "boolean"]
        value = self.draw(gen.text())
        quote = self.draw(gen.pick('"', "'"))
        long = self.chance(2)
        self.emit(ntgen.spell_string(self.draw, value, quote, long))
        self.features.add("long string" if long else "string")
        if kind in (2, 3):
            language = self.draw(gen.languages())
            self.join("@" + language)
            return ["L", value, language, None]
        if kind == 4:
            self.join("^^")
            before = len(self.tokens)
            datatype = self.iri()
            # Usually right behind the ^^.
            if self.draw(gen.ints(5)):
                self.tokens[before - 1 :] = ["".join(self.tokens[before - 1 :])]
            return ["L", value, None, datatype[1]]
        return ["L", value, None, XSD + "string"]

    def join(self, token):
        """Usually right behind the string, but it need not be."""
        if self.draw(gen.ints(5)):
            self.tokens[-1] += token
        else:
            self.emit(token)

    def collection(self, depth):
        self.emit("(")
        items = [self.object(depth - 1) for _ in range(self.draw(gen.ints(3)))]
        self.emit(")")
        self.features.add("collection" if items else "empty collection")
        head = ["I", RDF + "nil"]
        for item in reversed(items):
            cell = self.new_node()
            self.add(cell, ["I", RDF + "first"], item)
            self.add(cell, ["I", RDF + "rest"], head)
            head = cell
        return head

    def property_list(self, depth):
        node = self.new_node()
        self.emit("[")
        self.predicate_objects(node, depth - 1)
        self.emit("]")
        self.features.add("property list")
        return node

    def object(self, depth):
        kind = self.draw(gen.ints(7))
        if depth > 0 and kind == 6:
            return self.collection(depth)
        if depth > 0 and kind == 7:
            return self.property_list(depth)
        if kind in (0, 1):
            return self.iri()
        if kind == 2:
            return self.node()
        return self.literal()

    def predicate_objects(self, subject, depth):
        for i in range(1 + self.draw(gen.ints(2))):
            if i:
                self.emit(";")
                if self.chance(3):
                    self.emit(";")
                    self.features.add(";;")
            predicate = self.verb()
            for j in range(1 + self.draw(gen.ints(2))):
                if j:
                    self.emit(",")
                    self.features.add(",")
                self.add(subject, predicate, self.object(depth))
            if i:
                self.features.add(";")
        if self.chance(4):
            self.emit(";")
            self.features.add("trailing ;")

    def triples(self):
        kind = self.draw(gen.ints(7))
        if kind == 7:
            subject = self.property_list(self.depth)
            self.features.add("property list subject")
            if self.draw(st.booleans()):
                self.predicate_objects(subject, self.depth)
        else:
            if kind == 6:
                subject = self.collection(self.depth)
                self.features.add("collection subject")
            elif kind == 5:
                subject = self.node()
            else:
                subject = self.iri()
            self.predicate_objects(subject, self.depth)
        self.emit(".")

    def text(self):
        """The tokens with white space in between where there has to be, and
        with all kinds of it elsewhere."""
        out = ""
        marks = ntgen.cycle(self.draw, 11, 6)
        comment = self.draw(ntgen.comments()) if self.chance(3) else None
        ending = self.draw(gen.ints(3))
        for i, token in enumerate(self.tokens):
            out += token
            if i + 1 == len(self.tokens):
                break
            following = self.tokens[i + 1]
            mark = next(marks)
            if mark == 11 and comment is not None:
                # After a name # would need white space in front of it.
                out += " " + comment + ("\r" if ending == 3 else "\n")
            elif mark in (9, 10) and self.separable(token, following):
                pass
            else:
                out += SPACES[mark % len(SPACES)]
        if self.draw(st.booleans()):
            out += "\n"
        return out

    @staticmethod
    def separable(left, right):
        """Can two tokens do without white space between them?"""
        if left.startswith("@") or left.lower() in ("prefix", "base", "a"):
            return False
        if right[0] in "[](),;<\"'":
            return not (right[0] in "\"'" and left[-1] == right[0])
        closed = left in tuple("[](),;") or left[-1] == ">" or left in ("[]", "[ ]")
        if right == ".":
            # There always is white space after it.
            return True
        return closed and right[0] not in "@.^"


SPACES = [" ", " ", "\n", "\t", "  ", "\r\n", " \n\t", "\r"]


@cache
@st.composite
def references(draw):
    """References that are relative to a base."""
    if draw(gen.ints(2)):
        return draw(gen.pick(*REFERENCES))
    path = "/".join(draw(st.lists(gen.pick("a", "b", "..", ".", "", "é"), max_size=5)))
    if path.startswith("//"):
        path = "/x" + path
    # A colon in the first segment would make that the scheme.
    return path + draw(gen.pick("", "", "?q", "#f", "?q/../x#f/./y", "?", "#"))


@st.composite
def documents(draw, relative=1, depth=3, max_statements=5, bases=True):
    """{"text", "expected", "base", "features"}; base is for parse()."""
    base = draw(gen.pick(*BASES)) if bases and draw(gen.ints(2)) else ""
    writer = Writer(draw, base, relative, depth)
    if draw(gen.ints(3)):
        writer.prefix_directive()
    for _ in range(draw(gen.ints(max_statements))):
        if draw(gen.ints(4)) == 4:
            writer.directive()
        else:
            writer.triples()
    return {
        "text": writer.text(),
        "expected": gen.unique(writer.statements),
        "base": base,
        "features": sorted(writer.features),
    }
