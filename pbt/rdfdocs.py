"""RDF documents and rdflib graphs for statements in JSON form."""

import re
from xml.sax.saxutils import escape, quoteattr

import rdflib

NAME = re.compile(r"[A-Za-z_][A-Za-z0-9_.-]*$")


def nt_escape(text):
    return "".join(
        c
        if 0x20 <= ord(c) < 0x7F and c not in '"\\'
        else ("\\u%04X" if ord(c) < 0x10000 else "\\U%08X") % ord(c)
        for c in text
    )


def iri_escape(text):
    return "".join(
        c
        if 0x20 < ord(c) < 0x7F and c not in '<>"{}|^`\\'
        else ("\\u%04X" if ord(c) < 0x10000 else "\\U%08X") % ord(c)
        for c in text
    )


def nt_term(term, ascii=True):
    if term[0] == "I":
        return f"<{iri_escape(term[1]) if ascii else term[1]}>"
    if term[0] == "B":
        return f"_:b{term[1]}"
    _, value, language, datatype = term
    text = nt_escape(value) if ascii else re.sub(r'(["\\])', r"\\\1", value)
    if language:
        return f'"{text}"@{language}'
    if datatype:
        return f'"{text}"^^{nt_term(["I", datatype], ascii)}'
    return f'"{text}"'


def ntriples(statements, ascii=True):
    return "".join(" ".join(nt_term(t, ascii) for t in s) + " .\n" for s in statements)


def rdfxml(statements, encoding="utf-8"):
    """RDF/XML; predicates must end in a name."""
    out = [f'<?xml version="1.0" encoding="{encoding}"?>\n']
    out.append('<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#">\n')
    for s, p, o in statements:
        match = NAME.search(p[1])
        namespace, name = p[1][: match.start()], match.group(0)
        about = f"rdf:about={quoteattr(s[1])}" if s[0] == "I" else f'rdf:nodeID="b{s[1]}"'
        element = f"n:{name} xmlns:n={quoteattr(namespace)}"
        if o[0] == "I":
            value = f"<{element} rdf:resource={quoteattr(o[1])}/>"
        elif o[0] == "B":
            value = f'<{element} rdf:nodeID="b{o[1]}"/>'
        else:
            extra = ""
            if o[2]:
                extra = f' xml:lang="{o[2]}"'
            elif o[3]:
                extra = f" rdf:datatype={quoteattr(o[3])}"
            value = f"<{element}{extra}>{escape(o[1])}</n:{name}>"
        out.append(f"<rdf:Description {about}>{value}</rdf:Description>\n")
    out.append("</rdf:RDF>\n")
    return "".join(out).encode(encoding, "xmlcharrefreplace")


def to_rdflib(term):
    if term[0] == "I":
        return rdflib.URIRef(term[1])
    if term[0] == "B":
        return rdflib.BNode("b" + term[1])
    _, value, language, datatype = term
    if language:
        return rdflib.Literal(value, lang=language)
    return rdflib.Literal(value, datatype=rdflib.URIRef(datatype) if datatype else None, normalize=False)


def one_case(value, seen=None):
    """Case with no languages that differ in upper and lower case only, which are the
    same to rdflib: of these, the first is there."""
    seen = {} if seen is None else seen
    if isinstance(value, dict):
        return {k: one_case(v, seen) for k, v in value.items()}
    if not isinstance(value, (list, tuple)):
        return value
    if len(value) == 4 and value[0] == "L" and isinstance(value[2], str):
        language = seen.setdefault((value[1], value[2].lower()), value[2])
        return [value[0], value[1], language, value[3]]
    return [one_case(v, seen) for v in value]


def rdflib_graph(statements):
    graph = rdflib.Graph()
    for s in statements:
        graph.add(tuple(to_rdflib(t) for t in s))
    return graph


def from_rdflib(term):
    """A term of rdflib as JSON, in tuples."""
    if isinstance(term, rdflib.BNode):
        return ("B", str(term))
    if isinstance(term, rdflib.URIRef):
        return ("I", str(term))
    assert isinstance(term, rdflib.Literal), repr(term)
    return (
        "L",
        str(term),
        term.language,
        None if term.datatype is None else str(term.datatype),
    )


def triples_of(graph):
    return [tuple(from_rdflib(t) for t in s) for s in graph.triples((None, None, None))]
