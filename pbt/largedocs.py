"""Documents with many of something, or with something long or deep: each is made
from a kind, a size and a few more numbers, together with what it means."""

from functools import cache
import hashlib

from hypothesis import strategies as st

from . import gen, mined
from .terms import RDF, XSD

NS = "http://many.example/"
NIL = ["I", RDF + "nil"]
# The deeper ones take the parser (and the isomorphism) time.
DEEPEST = 1200

LINE_KINDS = (
    "statements", "labels", "alike", "same label", "blank lines", "comments", "literal", "comment",
    "iri", "label", "language", "escapes", "spaces", "datatype", "graphs",
)  # fmt: skip

TURTLE_KINDS = (
    "statements", "labels", "label", "alike", "objects", "predicates", "items", "anonymous", "property lists",
    "nested ()", "nested []", "nested both", "nested subject", "prefixes", "redefined", "bases",
    "string", "iri", "local", "prefix", "comment", "blank lines", "digits", "language",
    "semicolons", "escapes", "local escapes", "typed",
)  # fmt: skip


@cache
def specs(kinds, limit=1200):
    return st.fixed_dictionaries(
        {
            "kind": gen.pick(*kinds),
            "size": mined.sizes(limit),
            "variant": gen.ints(11),
            "char": gen.pick("x", "é", "\U0001F600", "\u2028", "\x85", "'", "\t", "#", "."),
        }
    )


def i(name):
    return ["I", NS + name]


def lit(value, language=None, datatype=None):
    return ["L", value, language, datatype]


def lines(spec, quads):
    """An N-Triples or N-Quads document: {"text", "expected"}."""
    kind, n, variant, char = spec["kind"], spec["size"], spec["variant"], spec["char"]
    eol = ("\n", "\r\n", "\r")[variant % 3]
    out, expected = [], []

    def statement(s, p, o, text=None, g=None, ending=" ."):
        terms = [spell(t) for t in (s, p, o)]
        if text is not None:
            terms[2] = text
        if quads and g is not None:
            terms.append(spell(g))
        out.append(" ".join(terms) + ending)
        expected.append([s, p, o] + ([g] if quads else []))

    s, p, o = i("s"), i("p"), i("o")
    statement(s, p, lit("first"))
    if kind == "statements":
        for k in range(n):
            g = i("g%d" % (k % 5)) if k % 3 else None
            statement(i("s%d" % (k // 3)), i("p%d" % (k % 7)), lit("%d" % k), g=g)
    elif kind == "graphs":
        for k in range(n):
            statement(s, p, o if k % 2 else lit("x"), g=i("g%d" % k) if k % 4 else ["B", "g%d" % k])
    elif kind == "labels":
        for k in range(n):
            statement(["B", "n%d" % k], p, lit(str(k)))
            statement(["B", "n%d" % k], p, ["B", "n%d" % (k * 7 % n)])
    elif kind == "alike":
        for k in range(n):
            statement(["B", alike(k, variant)], p, ["B", alike(k + 1, variant)], g=i(alike(k, variant)))
    elif kind == "same label":
        for k in range(n):
            statement(["B", "n"], p, lit(str(k)), g=["B", "n"] if k % 2 else None)
    elif kind == "blank lines":
        out += ["", " \t"[: variant % 3]] * n
    elif kind == "comments":
        out += ["# <a> <b> <c> . " + char, " # " + char] * n
    elif kind == "comment":
        statement(s, p, o, ending=" . # " + char * n)
        out.append("#" + char * n)
    elif kind == "literal":
        statement(s, p, lit(char * n))
        statement(s, p, lit("a" * n + char, "en"))
    elif kind == "iri":
        long = i("a/" * n + "é")
        statement(long, p, o)
        statement(s, long, long, g=long)
    elif kind == "label":
        name = "a" * n
        statement(["B", name], p, ["B", name + "b"])
        statement(["B", name + "b"], p, lit("x"))
    elif kind == "language":
        statement(s, p, lit("x", "en" + "-abcd1234" * min(n, 300)))
        statement(s, p, lit("x", "e" * n))
    elif kind == "datatype":
        statement(s, p, lit("1" * n, None, XSD + "integer"))
        statement(s, p, lit("x", None, NS + "d" * n))
    elif kind == "escapes":
        pairs = [("\\u%04X", 0xE9), ("\\U%08x", 0x1F600), ("\\t", None), ("\\\\", None), ("\\u%04x", 0x22)]
        text = value = ""
        for k in range(n):
            form, code = pairs[(k * (1 + variant)) % 5]
            text += form % code if code else form
            value += chr(code) if code else {"\\t": "\t", "\\\\": "\\"}[form]
        statement(s, p, lit(value), f'"{text}"')
    elif kind == "spaces":
        gap = (" " * n, "\t" * n, " \t" * n)[variant % 3]
        out.append(gap + gap.join([spell(s), spell(p), spell(o), "."]) + gap)
        expected.append([s, p, o] + ([None] if quads else []))
    statement(i("last"), p, o)
    return {
        "text": eol.join(out) + eol * (variant % 2),
        "expected": gen.unique(expected) if n < 50 else list(map(list, dict.fromkeys(map(deep_tuple, expected)))),
    }


def alike(k, variant):
    return hashlib.sha1(b"%d %d" % (k, variant)).hexdigest()


def deep_tuple(statement):
    return tuple(t if t is None else tuple(t) for t in statement)


def spell(term):
    if term[0] == "I":
        return f"<{term[1]}>"
    if term[0] == "B":
        return "_:" + term[1]
    text = term[1].replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\r", "\\r")
    if term[2]:
        return f'"{text}"@{term[2]}'
    if term[3]:
        return f'"{text}"^^<{term[3]}>'
    return f'"{text}"'


def turtle(spec):
    """A Turtle document: {"text", "expected", "base", "features"}."""
    kind, n, variant, char = spec["kind"], spec["size"], spec["variant"], spec["char"]
    eol = ("\n", "\r\n", "\r")[variant % 3]
    expected = []
    nodes = 0
    s, p, o = i("s"), i("p"), i("o")

    def string(value):
        return lit(value, None, XSD + "string")

    def integer(k):
        return lit(str(k), None, XSD + "integer")

    def node():
        nonlocal nodes
        nodes += 1
        return ["B", "new%d" % nodes]

    def add(*statement):
        expected.append(list(statement))

    def collection(items):
        head = NIL
        for item in reversed(items):
            cell = node()
            add(cell, ["I", RDF + "first"], item)
            add(cell, ["I", RDF + "rest"], head)
            head = cell
        return head

    def nested(depth, style):
        """Text and term of something nested."""
        text, term = "1", integer(1)
        for k in range(depth):
            if style == "()" or style == "both" and k % 2:
                if variant % 4 == 3:
                    text, term = f"(2 {text} 3)", collection([integer(2), term, integer(3)])
                else:
                    text, term = f"({text})", collection([term])
            else:
                outer = node()
                add(outer, p, term)
                text, term = f"[:p {text}]", outer
                if variant % 4 == 3:
                    add(outer, i("q"), integer(k))
                    text = text[:-1] + f"; :q {k}]"
        return text, term

    out = [f"@prefix : <{NS}> ."]
    if kind == "statements":
        for k in range(n):
            out.append(f":s{k} :p{k % 5} {k}, :o{k // 2} .")
            add(i("s%d" % k), i("p%d" % (k % 5)), integer(k))
            add(i("s%d" % k), i("p%d" % (k % 5)), i("o%d" % (k // 2)))
    elif kind == "labels":
        for k in range(n):
            out.append(f"_:n{k} :p {k}, _:n{k * 7 % n} .")
            add(["B", "n%d" % k], p, integer(k))
            add(["B", "n%d" % k], p, ["B", "n%d" % (k * 7 % n)])
    elif kind == "label":
        name = "a" * n
        out.append(f"_:{name} :p _:{name}b, _:b{name}. _:{name}b :p _:{name}, _:{name}c .")
        add(["B", name], p, ["B", name + "b"])
        add(["B", name], p, ["B", "b" + name])
        add(["B", name + "b"], p, ["B", name])
        add(["B", name + "b"], p, ["B", name + "c"])
    elif kind == "alike":
        # Names of the same length that say nothing about each other.
        for k in range(n):
            name = alike(k, variant)
            out.append(f"_:{name} :p _:{alike(k + 1, variant)}, :{name} .")
            add(["B", name], p, ["B", alike(k + 1, variant)])
            add(["B", name], p, i(name))
    elif kind == "objects":
        out.append(":s :p " + ", ".join(str(k) for k in range(n)) + ".")
        for k in range(n):
            add(s, p, integer(k))
    elif kind == "predicates":
        out.append(":s " + "; ".join(f":p{k} {k % 3}" for k in range(n)) + ".")
        for k in range(n):
            add(s, i("p%d" % k), integer(k % 3))
    elif kind == "items":
        items = [integer(k % 300) if k % 3 else i("i%d" % k) for k in range(n)]
        text = " ".join(t[1] if t[0] == "L" else ":i%d" % k for k, t in enumerate(items))
        if variant % 2:
            out.append(f"({text}) :p :o .")
            add(collection(items), p, o)
        else:
            out.append(f":s :p ({text}) .")
            add(s, p, collection(items))
    elif kind == "anonymous":
        n = min(n, 300)
        out.append("; ".join(f":p{k} []" for k in range(n)).join((":s ", ".")))
        for k in range(n):
            add(s, i("p%d" % k), node())
    elif kind == "property lists":
        n = min(n, 400)
        out.append(":s :p " + ", ".join(f"[:n {k}; :p :o]" for k in range(n)) + ".")
        for k in range(n):
            new = node()
            add(s, p, new)
            add(new, i("n"), integer(k))
            add(new, p, o)
    elif kind in ("nested ()", "nested []", "nested both"):
        text, term = nested(min(n, DEEPEST), kind[7:])
        out.append(f":s :p {text} .")
        add(s, p, term)
    elif kind == "nested subject":
        text, term = nested(min(n, DEEPEST), "both")
        out.append(f"({text}) :p {text} .")
        add(collection([term]), p, nested(min(n, DEEPEST), "both")[1])
    elif kind == "prefixes":
        for k in range(n):
            out.append(f"@prefix x{k}: <{NS}{k}/> ." if k % 2 else f"PREFIX x{k}: <{NS}{k}/>")
        for k in range(0, n, 1 + n // 40):
            out.append(f":s x{k}:p :o .")
            add(s, i(f"{k}/p"), o)
    elif kind == "redefined":
        for k in range(n):
            out.append(f"@prefix x: <{NS}{k}/> . :s x:p :o .")
            add(s, i(f"{k}/p"), o)
    elif kind == "bases":
        out.append(f"@base <{NS}> .")
        path = []
        for k in range(n):
            path.append("b%d" % (k % 10))
            out.append(f"@base <{path[-1]}/> . :s :p <x{k}> ." if k % 2 else f"BASE <{path[-1]}/> :s :p <x{k}> .")
            add(s, p, i("/".join(path) + f"/x{k}"))
            if len(path) > 20:
                del path[5:]
                out.append(f"@base <{NS}{'/'.join(path)}/> .")
    elif kind == "string":
        inner = "a" * (n // 2) + char + "b" * (n - n // 2)
        for quotes in ('"', '"""', "'", "'''"):
            if quotes[0] == inner[n // 2] and len(quotes) == 1:
                continue
            more = "\n" if len(quotes) == 3 else " "
            out.append(f":s :p {quotes}{inner}{more}{quotes} .")
            add(s, p, string(inner + more))
    elif kind == "iri":
        out.append(f"<{NS}{'a/' * n}é> :p <{NS}{'a/' * n}> .")
        add(i("a/" * n + "é"), p, i("a/" * n))
    elif kind == "local":
        out.append(f":{'a' * n} :p :{'a.' * n}a, :{'a:' * n} .")
        add(i("a" * n), p, i("a." * n + "a"))
        add(i("a" * n), p, i("a:" * n))
    elif kind == "prefix":
        name = "a" * n
        out.append(f"@prefix {name}: <{NS}1/> . @prefix {name}.b: <{NS}2/> . {name}: {name}:a {name}.b:c .")
        add(i("1/"), i("1/a"), i("2/c"))
    elif kind == "comment":
        out += ["#" + char * n, f":s :p #{char * n}", ":o ."]
        add(s, p, o)
    elif kind == "blank lines":
        out += ["", " \t"[: variant % 3]] * n + [":s", *[""] * n, ":p :o ."]
        add(s, p, o)
    elif kind == "digits":
        digits = "1234567890" * (n // 10) + "1" * (n % 10)
        out.append(f":s :p {digits}, -{digits}.{digits}, {digits}e{digits[:5]} .")
        add(s, p, integer(digits))
        add(s, p, lit(f"-{digits}.{digits}", None, XSD + "decimal"))
        add(s, p, lit(f"{digits}e{digits[:5]}", None, XSD + "double"))
    elif kind == "language":
        tag = "en" + "-abcd1234" * min(n, 300)
        out.append(f':s :p "x"@{tag} , "x"@{"e" * n} .')
        add(s, p, lit("x", tag))
        add(s, p, lit("x", "e" * n))
    elif kind == "semicolons":
        out.append(f":s :p :o {';' * n} :q :o {'; ' * n}.")
        add(s, p, o)
        add(s, i("q"), o)
    elif kind == "escapes":
        pairs = [("\\u00e9", "é"), ("\\U0001F600", "\U0001F600"), ("\\t", "\t"), ("\\\\", "\\"), ('\\"', '"')]
        chosen = [pairs[k * (1 + variant) % 5] for k in range(n)]
        value = "".join(v for _, v in chosen)
        text = "".join(t for t, _ in chosen)
        out.append(f':s :p "{text}", """{text}""" .')
        add(s, p, string(value))
    elif kind == "local escapes":
        pairs = [("\\~", "~"), ("%41", "%41"), ("\\.", "."), ("a", "a"), (":", ":"), ("\\%", "%")]
        chosen = [pairs[k * (1 + variant) % 6] for k in range(n)]
        out.append(f":s :p :{''.join(t for t, _ in chosen)} .")
        add(s, p, i("".join(v for _, v in chosen)))
    elif kind == "typed":
        out.append(":s a " + ", ".join(f":t{k}" for k in range(n)) + ".")
        for k in range(n):
            add(s, ["I", RDF + "type"], i("t%d" % k))
    out.append(":last :p :o .")
    add(i("last"), p, o)
    return {
        "text": eol.join(out) + eol * (variant % 2),
        "expected": list(map(list, dict.fromkeys(map(deep_tuple, expected)))),
        "base": "",
        "features": [kind],
    }
