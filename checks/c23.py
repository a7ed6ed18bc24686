"""C23: SPARQL responses become what their media types say, failures exceptions."""

import json

from hypothesis import strategies as st
from lxml import etree, objectify

from pbt import gen, large, mined
from pbt.core import Prop
from pbt.http import network
from pbt.rdfdocs import ntriples, rdfxml, triples_of
from pbt.terms import assert_same, freeze

from pymantic.sparql import (
    SPARQLQueryException,
    SPARQLServer,
    UnknownSPARQLReturnTypeException,
)

ID = "C23"
RULE = (
    "responses: a status code, a media type (results in JSON and XML, RDF/XML, Turtle, with"
    " and without parameters, and others) and a generated body (arbitrary JSON, XML of"
    " several encodings, RDF graphs with blank nodes and relative IRIs), in answer to a query"
    " or update by each way of sending it. A query returns the body's data if and only if"
    " the status is 200, read by independent means, with relative IRIs resolved against the"
    " query URL; all else raises the exception for it. Non-trivial: the body has data in it"
    " beyond ASCII, or three or more triples, or the status isn't 200."
)
ASSUMPTIONS = ["rdflib, lxml and json read documents correctly."]

URL = "http://store.example/dir/sparql"


def json_values():
    return st.recursive(
        st.one_of(st.none(), st.booleans(), st.integers(-(10**20), 10**20), gen.text()),
        lambda inner: st.one_of(
            st.lists(inner, max_size=4), st.dictionaries(gen.text(4), inner, max_size=4)
        ),
        max_leaves=12,
    )


def xml_text():
    safe = st.one_of(
        gen.pick(*"abc 019<>&'\"]"),
        gen.pick("é", "\u00df", "\u0416", "\u4e00", "\U0001F600", "]]>", "&amp;"),
    )
    return st.lists(safe, max_size=6).map("".join)


def literal_terms():
    return st.one_of(
        st.tuples(st.just("L"), xml_text(), st.none(), st.none()),
        st.tuples(st.just("L"), xml_text(), gen.pick("en", "fr", "en-us"), st.none()),
        st.tuples(st.just("L"), xml_text(), st.none(), st.just("http://e.example/dt")),
    ).map(list)


def graph_statements(extra=()):
    iris = gen.pick(
        "http://e.example/a", "http://e.example/b#c", "http://e.example/é", "urn:a:b", *extra
    ).map(lambda i: ["I", i])
    return st.lists(
        st.tuples(
            st.one_of(iris, gen.nodes()),
            gen.pick("http://e.example/p", "http://e.example/ns#q").map(lambda i: ["I", i]),
            st.one_of(iris, gen.nodes(), literal_terms()),
        ).map(list),
        max_size=6,
    )


RELATIVE = ("#x", "", "other", "../up", "/root")
RESOLVED = {
    "#x": URL + "#x",
    "": URL,
    "other": "http://store.example/dir/other",
    "../up": "http://store.example/up",
    "/root": "http://store.example/root",
}
STATUS = (
    200, 200, 200, 200, 200, 200, 200, 200, 204, 204, 201, 202, 203, 206, 300, 301, 302, 303,
    304, 307, 308, 400, 401, 403, 404, 405, 406, 408, 409, 410, 413, 415, 418, 429, 500, 501,
    502, 503, 504, 507, 205, 207, 208, 226, 299, 305, 399, 402, 422, 451, 499, 505, 520, 599,
)  # fmt: skip
PARAMETERS = ("", "", ";charset=utf-8", "; charset=UTF-8", " ; q=1", "; charset=iso-8859-1")


KNOWN = (
    "application/sparql-results+json", "application/sparql-results+xml", "application/rdf+xml",
    "text/turtle",
)  # fmt: skip


def unknown_types():
    """Media types that are none of those known, if only nearly so."""
    composed = st.tuples(
        gen.pick("application", "text", "image", "x-application"),
        gen.pick(
            "turtle", "x-turtle", "n3", "trig", "n-triples", "n-quads", "rdf+n3", "rdf+json",
            "ld+json", "json", "rdf+xml", "xml", "sparql-results", "sparql-results+json",
            "sparql-results+xml", "x-sparql-results+json", "xhtml+xml", "html", "plain",
            "octet-stream", "sparql-query", "vnd.turtle", "sparql+json", "sparql-results+csv",
        ),
        gen.pick("", "", "", ';profile="text/turtle"', "; type=application/rdf+xml",
                 "; type=application/sparql-results+json"),
    ).map(lambda parts: "%s/%s%s" % parts)  # fmt: skip
    return composed.filter(lambda t: t.partition(";")[0] not in KNOWN)


@st.composite
def cases(draw):
    kind = draw(gen.pick("json", "json", "xml", "rdfxml", "turtle", "turtle", "other"))
    case = {
        "status": draw(st.one_of(st.just(200), gen.pick(*STATUS))),
        "kind": kind,
        "parameters": draw(gen.pick(*PARAMETERS)),
        "update": draw(gen.pick(False, False, False, True)),
        "post": draw(st.booleans()),
        "direct": draw(gen.pick(False, True)),
        "output": draw(gen.pick("json", "xml")),
    }
    if kind == "json":
        case["data"] = draw(json_values())
        case["ascii"] = draw(st.booleans())
    elif kind == "xml":
        case["data"] = draw(
            st.lists(st.lists(st.tuples(gen.pick("a", "b"), xml_text()), max_size=3), max_size=3)
        )
        case["encoding"] = draw(gen.pick("utf-8", "utf-16", "iso-8859-1"))
    elif kind in ("rdfxml", "turtle"):
        case["data"] = draw(graph_statements(RELATIVE))
        case["encoding"] = draw(gen.pick("utf-8", "utf-8", "iso-8859-1"))
        case["ascii"] = draw(st.booleans())
    else:
        case["type"] = draw(unknown_types())
        case["data"] = draw(
            st.one_of(gen.text(), gen.pick("{}", "<urn:a> <urn:b> <urn:c> .", "<a/>", ""))
        )
    return case


def xml_document(case):
    out = '<sparql xmlns="http://www.w3.org/2005/sparql-results#"><head/><results>'
    for row in case["data"]:
        out += "<result>"
        for name, value in row:
            value = value.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
            out += f'<binding name="{name}"><literal>{value}</literal></binding>'
        out += "</result>"
    out += "</results></sparql>"
    out = f'<?xml version="1.0" encoding="{case["encoding"]}"?>' + out
    return out.encode(case["encoding"], "xmlcharrefreplace")


def document(case):
    kind = case["kind"]
    if kind == "json":
        return (
            "application/sparql-results+json",
            json.dumps(case["data"], ensure_ascii=case["ascii"]).encode("utf-8"),
        )
    if kind == "xml":
        return "application/sparql-results+xml", xml_document(case)
    if kind == "rdfxml":
        return "application/rdf+xml", rdfxml(case["data"], case["encoding"])
    if kind == "turtle":
        return "text/turtle", ntriples(case["data"], case["ascii"]).encode("utf-8")
    return case["type"], case["data"].encode("utf-8")


def body(case, rec):
    media_type, content = document(case)
    status = case["status"]
    parameters = case["parameters"]
    if case["kind"] in ("xml", "rdfxml"):
        parameters = ""  # the XML declaration says it all
    rec.label(case["kind"], "update" if case["update"] else "query", f"status {status // 100}xx")
    rec.interesting(
        status != 200
        or not content.isascii()
        or (case["kind"] in ("rdfxml", "turtle") and len(case["data"]) > 2)
    )
    server = SPARQLServer(URL, post_queries=case["post"], post_directly=case["direct"])

    def respond(request):
        return status, {"Content-Type": media_type + parameters}, b"" if status == 204 else content

    with network(respond):
        try:
            if case["update"]:
                result = server.update("INSERT DATA { <urn:a> <urn:b> <urn:c> }")
            else:
                result = server.query("CONSTRUCT", output=case["output"])
        except SPARQLQueryException:
            if case["update"]:
                assert status not in (200, 204), f"exception for an update's status {status}"
            else:
                assert status != 200, "exception for a query's status 200"
            return
        except UnknownSPARQLReturnTypeException:
            assert not case["update"] and status == 200 and case["kind"] == "other", case
            return
    if case["update"]:
        assert status in (200, 204), f"no exception for an update's status {status}"
        assert result, f"an update with status {status} returned {result!r}"
        return
    assert status == 200, f"no exception for a query's status {status}"
    assert case["kind"] != "other", f"no exception for {media_type}"
    if case["kind"] == "json":
        assert equal(result, case["data"]), f"{result!r} instead of {case['data']!r}"
    elif case["kind"] == "xml":
        root = result.getroot()
        assert isinstance(root, objectify.ObjectifiedElement), type(root)
        assert c14n(root) == c14n(etree.fromstring(content)), c14n(root)
        rows = [
            [(b.get("name"), b.literal.text or "") for b in r.iterchildren()]
            for r in root.results.iterchildren()
        ]
        assert freeze(rows) == freeze(case["data"]), rows
    else:
        expected = [
            tuple(("I", RESOLVED.get(t[1], t[1])) if t[0] == "I" else tuple(t) for t in s)
            for s in case["data"]
        ]
        assert_same(set(expected), triples_of(result), "the graph")


def c14n(element):
    return etree.tostring(element, method="c14n")


def equal(a, b):
    """Are JSON values the same, types and all?"""
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


@st.composite
def large_cases(draw):
    """Responses with many results, statements or characters."""
    kind = draw(gen.pick("json", "xml", "rdfxml", "turtle"))
    return [
        {
            "status": draw(gen.pick(200, 200, 200, 500)),
            "kind": kind,
            "parameters": draw(gen.pick(*PARAMETERS)),
            "update": False,
            "post": draw(st.booleans()),
            "direct": draw(gen.pick(False, True)),
            "output": draw(gen.pick("json", "xml")),
            "encoding": draw(gen.pick("utf-8", "utf-8", "iso-8859-1")),
            "ascii": draw(st.booleans()),
        },
        draw(large.specs(800)),
        draw(st.booleans()),
    ]


def large_body(case, rec):
    response, spec, long = case
    response = dict(response)
    n = spec["count"]
    if response["kind"] in ("json", "xml"):
        rows = [[("a", "value %d é" % k), ("b", str(k))] for k in range(n)]
        if long:
            rows = [[("a", "é" + "x" * n * 20)]]
        response["data"] = rows
        if response["kind"] == "json":
            response["data"] = {"results": {"bindings": [dict(r) for r in rows]}}
    else:
        data = [list(map(list, t)) for t in large.triples(spec)]
        if long:
            data = [[["I", large.NS + "é" * n], ["I", large.NS + "p"], ["L", "é" * n * 20, None, None]]]
        response["data"] = data
    body(response, rec)


PROPS = [
    Prop("large", large_cases, large_body, quick=80, thorough=2000),
    Prop("responses", cases, body, quick=4000),
]
