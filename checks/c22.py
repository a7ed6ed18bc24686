"""C22: SPARQL requests say what they were asked to say."""

from hypothesis import strategies as st

from pbt import gen, large, mined
from pbt.core import Prop
from pbt.http import network
from pbt.terms import plain

from pymantic.primitives import NamedNode
from pymantic.sparql import SPARQLQueryException, SPARQLServer, UpdateableGraphStore

ID = "C22"
RULE = (
    "histories: one or two servers (query URL with and without a query string, GET, form"
    " POST, direct POST, certificate verification or not) and one to six queries and"
    " updates on them, of arbitrary text, with any default and named graphs and either"
    " output format; each request recorded in place of the network, decoded by the HTTP and"
    " SPARQL 1.1 Protocol rules, must carry exactly the text, graphs and settings of its own"
    " call. Non-trivial: two or more calls, at least one of them with graphs or with text"
    " beyond plain ASCII words."
)
ASSUMPTIONS = [
    "The requests library sends what it has prepared; requests are recorded between the two.",
]

URLS = (
    "http://store.example/sparql",
    "https://store.example:8080/a/b/query",
    "http://store.example/sparql?db=x&y=%C3%A9",
)


def server_cases():
    return st.tuples(
        gen.pick(*URLS),
        gen.pick(None, False, True, True),
        gen.pick(None, False, True),
        gen.pick(None, None, True, False, "/some/ca.pem"),
        st.booleans(),
    ).map(list)


def graph_choices():
    uris = st.one_of(gen.pool_iris(3), gen.iris())
    return st.one_of(
        st.none(),
        uris,
        uris.map(lambda u: {"node": u}),
        st.lists(uris, max_size=3),
    )


def calls():
    sparql = st.one_of(
        gen.pick(
            "SELECT * WHERE { ?s ?p ?o }",
            'ASK { ?s ?p "é" }',
            "INSERT DATA { <urn:a> <urn:b> 'a+b&c=d%20' }",
            "DESCRIBE <http://e.example/?a=b&c=d#e>",
        ),
        gen.text().filter(bool),
    )
    return st.fixed_dictionaries(
        {
            "server": gen.ints(1),
            "update": st.booleans(),
            "sparql": sparql,
            "output": gen.pick(None, None, "json", "xml"),
            "default": graph_choices(),
            "named": graph_choices(),
            "fails": gen.pick(False, False, False, False, True),
        }
    )


def cases():
    return st.tuples(
        st.lists(server_cases(), min_size=2, max_size=2),
        st.lists(calls(), min_size=1, max_size=6),
    ).map(list)


def graph_argument(choice):
    """What to pass for a choice of graphs, and the URIs that it stands for."""
    if choice is None:
        return None, []
    if isinstance(choice, dict):
        return NamedNode(choice["node"]), [choice["node"]]
    if isinstance(choice, str):
        return choice, [choice]
    return list(choice), list(choice)


def body(case, rec):
    seen = []

    def respond(request):
        seen.append(request)
        if call["fails"]:
            return 500, {"Content-Type": "text/plain"}, b"no"
        return 200, {"Content-Type": "application/sparql-results+json"}, b'{"boolean": true}'

    servers = []
    for url, post_queries, post_directly, verify, store in case[0]:
        options = {}
        if post_queries is not None:
            options["post_queries"] = post_queries
        if post_directly is not None:
            options["post_directly"] = post_directly
        if verify is not None:
            options["verify"] = verify
        if store:
            servers.append(UpdateableGraphStore(url, "http://store.example/data/", **options))
        else:
            servers.append(SPARQLServer(url, **options))
    calls = case[1]
    rec.interesting(
        len(calls) > 1
        and any(c["default"] or c["named"] or not c["sparql"].isascii() for c in calls)
    )
    call = None
    with network(respond):
        for call in calls:
            server = servers[call["server"]]
            url, post_queries, post_directly, verify, _ = case[0][call["server"]]
            arguments = {}
            default, defaults = graph_argument(call["default"])
            named, nameds = graph_argument(call["named"])
            if default is not None:
                arguments["default_graph"] = default
            if named is not None:
                arguments["named_graph"] = named
            if call["output"] and not call["update"]:
                arguments["output"] = call["output"]
            count = len(seen)
            if call["fails"]:
                rec.label("fails")
                try:
                    (server.update if call["update"] else server.query)(call["sparql"], **arguments)
                except SPARQLQueryException:
                    pass
                else:
                    raise AssertionError("no exception for status 500")
            elif call["update"]:
                server.update(call["sparql"], **arguments)
            else:
                result = server.query(call["sparql"], **arguments)
                assert result == {"boolean": True}, result
            assert len(seen) == count + 1, f"{len(seen) - count} requests for one call"
            if isinstance(default, list):
                assert default == defaults
            if isinstance(named, list):
                assert named == nameds
            check(call, case[0][call["server"]], defaults, nameds, seen[-1], rec)


def check(call, server, defaults, nameds, request, rec):
    url, post_queries, post_directly, verify, _ = server
    if call["update"]:
        key, default_key, named_key = "update", "using-graph-uri", "using-named-graph-uri"
        media_type = "application/sparql-update"
    else:
        key, default_key, named_key = "query", "default-graph-uri", "named-graph-uri"
        media_type = "application/sparql-query"
    target, _, own = url.partition("?")
    own = [("db", "x"), ("y", "é")] if own else []
    graphs = [(default_key, plain(u)) for u in defaults] + [(named_key, plain(u)) for u in nameds]
    text = [(key, call["sparql"])]
    assert request.target == target, request.url
    if post_directly:
        rec.label("direct")
        assert request.method == "POST", request.method
        assert request.media_type == media_type, request.content_type
        parameters = request.content_type.replace(" ", "").lower().split(";")[1:]
        assert parameters in ([], ["charset=utf-8"]), request.content_type
        assert request.body.decode("utf-8") == call["sparql"], request.body
        same(request.params, own + graphs)
    elif call["update"] or post_queries:
        rec.label("form")
        assert request.method == "POST", request.method
        assert request.media_type == "application/x-www-form-urlencoded", request.content_type
        same(request.form(), text + graphs)
        same(request.params, own)
    else:
        rec.label("get")
        assert request.method == "GET", request.method
        assert request.body == b"", request.body
        same(request.params, own + text + graphs)
    if not call["update"]:
        json_results = "application/sparql-results+json" in request.accepts
        xml_results = "application/sparql-results+xml" in request.accepts
        if call["output"] == "xml":
            assert xml_results and not json_results, request.accepts
            assert "application/rdf+xml" in request.accepts, request.accepts
        else:
            assert json_results and not xml_results, request.accepts
            # For what constructs a graph.
            assert {"text/turtle", "application/rdf+xml"} & set(request.accepts), request.accepts
    expected = True if verify is None else verify
    assert request.verify == expected, f"verify={request.verify!r} instead of {expected!r}"


def same(actual, expected):
    assert sorted(actual) == sorted(expected), f"{actual!r} instead of {expected!r}"
    # The order of the graphs is the caller's.
    for key in {k for k, _ in expected}:
        assert [v for k, v in actual if k == key] == [v for k, v in expected if k == key]


@st.composite
def large_cases(draw):
    """A long text, many graphs, or many calls."""
    kind = draw(gen.pick("text", "default", "named", "both", "calls"))
    return {
        "servers": draw(st.lists(server_cases(), min_size=2, max_size=2)),
        "calls": draw(st.lists(calls(), min_size=1, max_size=3)),
        "kind": kind,
        "size": draw(mined.sizes(60 if kind == "calls" else 5000 if kind == "text" else 200)),
        "text": draw(large.long_ones()),
    }


def large_body(case, rec):
    size, kind = case["size"], case["kind"]
    rec.label(kind)
    expanded = []
    for k in range(size) if kind == "calls" else range(len(case["calls"])):
        call = dict(case["calls"][k % len(case["calls"])])
        if kind == "text":
            call["sparql"] = large.long_text(size, *case["text"][1:])
        if kind == "calls":
            call["sparql"] += " # %d" % k
        many = ["http://many.example/%d?a=%d&b" % (j, j) for j in range(size)]
        if kind in ("default", "both"):
            call["default"] = many
        if kind in ("named", "both"):
            call["named"] = many[::-1]
        expanded.append(call)
    body([case["servers"], expanded], rec)


PROPS = [
    Prop("large", large_cases, large_body, quick=160, thorough=3000),
    Prop("histories", cases, body, quick=4000),
]
