"""C24: a graph store holds what was put, posted, patched and deleted."""

from urllib.parse import unquote_plus

from hypothesis import strategies as st
import rdflib

from checks.c23 import graph_statements
from pbt import gen, large, ntref
from pbt.core import Prop
from pbt.http import network
from pbt.rdfdocs import ntriples, one_case, rdflib_graph, rdfxml, triples_of, from_rdflib
from pbt.terms import assert_same, freeze

from pymantic.sparql import PatchableGraphStore, changeset

ID = "C24"
RULE = (
    "histories: up to twelve operations (get, put, post to a graph and to the store, delete,"
    " patch with a changeset) with generated graphs and graph URIs, by either style of"
    " request URL, on a simulated SPARQL 1.1 graph store which answers with any of the"
    " status codes that mean success or failure, before or after which it has or has not"
    " done what it was asked to. The store's graphs, by decoding each request, must be those"
    " of a model that the same operations are applied to; get must return them whichever of"
    " the four formats they come in; a call must raise exactly when the store reports"
    " failure, and send exactly one request. Non-trivial: a non-empty graph is got, or"
    " replaced, after it was written in an earlier step."
)
ASSUMPTIONS = ["rdflib writes N-Triples and RDF/XML, and reads what it is given, correctly."]

DATASETS = ("http://store.example/data/", "http://store.example:8080/a/graphs/")
FORMATS = {
    "text/plain": "nt",
    "application/rdf+xml": "xml",
    "text/turtle": "ttl",
    "text/rdf+n3": "ttl",
}
CS = "http://purl.org/vocab/changeset/schema#"
RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
FAILURES = (300, 304, 400, 401, 403, 404, 405, 406, 409, 410, 412, 413, 415, 422, 428, 429, 500, 501, 502, 503, 504, 507)


def uris():
    return st.one_of(
        gen.pick(
            "http://e.example/g",
            "http://e.example/g?a=b&c=d#e",
            "http://e.example/g%2Fh",
            "http://e.example/a+b",
            "http://e.example/é",
            "urn:uuid:1",
        ),
        gen.iris().filter(lambda i: not any(c in i for c in "\u200e\u2028\u2029")),
    )


@st.composite
def cases(draw):
    known = draw(st.lists(uris(), min_size=1, max_size=3, unique=True))
    ops = []
    for _ in range(draw(st.integers(1, 12))):
        kind = draw(gen.pick("get", "get", "put", "put", "post", "create", "delete", "patch"))
        op = {"op": kind, "uri": draw(st.sampled_from(known))}
        if kind in ("put", "post", "create"):
            op["graph"] = draw(graph_statements())
        elif kind == "patch":
            op["graph"] = [s for s in draw(graph_statements()) if "B" not in (s[0][0], s[2][0])]
        elif kind == "get":
            op["type"] = draw(gen.pick(*FORMATS))
            op["parameters"] = draw(gen.pick("", ";charset=utf-8", "; charset=UTF-8"))
            op["relative"] = draw(gen.pick(False, False, True))
            op["headers"] = draw(st.booleans())
            op["ascii"] = draw(st.booleans())
        if draw(gen.ints(5)) == 0:
            op["fails"] = draw(gen.pick(*FAILURES))
        op["status"] = draw(gen.ints(2))
        ops.append(op)
    return {
        "dataset": draw(gen.pick(*DATASETS)),
        "param_style": draw(st.booleans()),
        "verify": draw(gen.pick(None, None, False, "/some/ca.pem")),
        "ops": ops,
    }


class Store:
    """What a SPARQL 1.1 graph store does with requests."""

    def __init__(self, case):
        self.case = case
        self.graphs = {}
        self.created = []
        self.requests = []
        self.versions = {}

    def graph_uri(self, request):
        """The URI of the graph that a request is for, None for the store."""
        dataset = self.case["dataset"]
        if self.case["param_style"]:
            assert request.target == dataset, request.url
            if not request.params:
                return None
            ((key, value),) = request.params
            assert key == "graph", request.url
            return value
        assert request.url.startswith(dataset), request.url
        rest = request.url[len(dataset) :]
        assert "/" not in rest and "?" not in rest and "#" not in rest, request.url
        return unquote_plus(rest) if rest else None

    def respond(self, op, request):
        self.requests.append(request)
        assert request.verify == (True if self.case["verify"] is None else self.case["verify"])
        uri = self.graph_uri(request)
        if "fails" in op:
            return op["fails"], {"Content-Type": "text/plain"}, b"failed"
        method = request.method
        if method == "GET":
            for media_type in ("text/plain", "application/rdf+xml", "text/turtle", "text/rdf+n3"):
                assert media_type in request.accepts, request.accepts
            if uri not in self.graphs:
                return 404, {}, b""
            return self.send(op, uri)
        existed = uri in self.graphs
        self.versions[uri] = self.versions.get(uri, 0) + 1
        if method == "DELETE":
            assert request.body == b"", request.body
            if not existed:
                return 404, {}, b""
            del self.graphs[uri]
            return (200, 202, 204)[op["status"]], {}, b""
        if method == "PATCH":
            assert request.media_type == "application/vnd.talis.changeset+xml"
            self.patch(uri, request.body)
            return (200, 201, 204)[op["status"]], {}, b""
        assert request.media_type in ("text/plain", "application/n-triples"), request.media_type
        statements = ntref.read(request.body.decode("utf-8"))
        # Each document has blank nodes of its own.
        mark = len(self.requests)
        statements = {
            tuple(("B", f"{mark}.{t[1]}") if t[0] == "B" else t for t in s) for s in statements
        }
        if method == "PUT":
            self.graphs[uri] = statements
        else:
            assert method == "POST", method
            if uri is None:
                self.created.append(statements)
                return 201, {"Location": "http://store.example/new"}, b""
            self.graphs[uri] = self.graphs.get(uri, set()) | statements
        if existed:
            return (200, 204, 204)[op["status"]], {}, b""
        return 201, {}, b""

    def send(self, op, uri):
        statements = sorted(self.graphs[uri], key=repr)
        if relative(op):
            statements = [*statements, (("I", ""), ("I", "http://e.example/rel"), ("I", "#it"))]
        syntax = FORMATS[op["type"]]
        names = {}

        def rename(term):
            if term[0] != "B":
                return term
            return ("B", str(names.setdefault(term[1], len(names))))

        statements = [tuple(rename(t) for t in s) for s in statements]
        if syntax == "xml":
            content = rdfxml(statements)
        else:
            content = ntriples(statements, op["ascii"]).encode("utf-8")
        headers = {"Content-Type": op["type"] + op["parameters"]}
        if op.get("headers"):
            # That of one graph may be the same as that of another.
            version = (self.versions.get(uri, 0), op["type"], relative(op), op["ascii"])
            headers["ETag"] = '"%s"' % "-".join(map(str, version)).replace("/", "_")
            headers["Last-Modified"] = "Wed, 01 Jan 2025 00:00:00 GMT"
            headers["Cache-Control"] = "max-age=0"
        return 200, headers, content

    def patch(self, uri, content):
        graph = rdflib.Graph()
        graph.parse(data=content, format="xml")
        sets = list(graph.subjects(rdflib.RDF.type, rdflib.URIRef(CS + "ChangeSet")))
        assert len(sets) == 1, sets
        subject = list(graph.objects(sets[0], rdflib.URIRef(CS + "subjectOfChange")))
        assert subject == [rdflib.URIRef(uri)], subject
        statements = {}
        for kind in ("removal", "addition"):
            statements[kind] = {
                tuple(
                    from_rdflib(graph.value(node, rdflib.URIRef(RDF + part)))
                    for part in ("subject", "predicate", "object")
                )
                for node in graph.objects(sets[0], rdflib.URIRef(CS + kind))
            }
        current = self.graphs.get(uri, set())
        self.graphs[uri] = (current - statements["removal"]) | statements["addition"]


def body(case, rec):
    case = one_case(case)
    store = Store(case)
    options = {} if case["verify"] is None else {"verify": case["verify"]}
    client = PatchableGraphStore(
        "http://store.example/sparql",
        case["dataset"],
        param_style=case["param_style"],
        **options,
    )
    model = {}
    created = []
    current = None
    rec.label("parameter" if case["param_style"] else "path")
    with network(lambda request: store.respond(current, request)):
        for number, op in enumerate(case["ops"]):
            current = op
            uri, kind = op["uri"], op["op"]
            fails = "fails" in op or (kind in ("get", "delete") and uri not in model)
            rec.label(kind, *(["failure"] if fails else []))
            statements = {
                tuple(("B", f"m{number}.{t[1]}") if t[0] == "B" else tuple(t) for t in s)
                for s in op.get("graph", [])
            }
            rec.interesting(kind != "create" and not fails and bool(model.get(uri)))
            argument = None
            if kind in ("put", "post", "create"):
                argument = rdflib_graph(op["graph"])
            elif kind == "patch":
                before = {s for s in model.get(uri, ()) if not has_node(s)}
                argument = changeset(rdflib_graph(before), rdflib_graph(op["graph"]), uri)
            calls = {
                "get": lambda: client.get(uri),
                "delete": lambda: client.delete(uri),
                "put": lambda: client.put(uri, argument),
                "post": lambda: client.post(uri, argument),
                "create": lambda: client.post(None, argument),
                "patch": lambda: client.patch(uri, argument),
            }
            count = len(store.requests)
            try:
                result = calls[kind]()
            except AssertionError:
                raise
            except Exception as e:
                assert fails, f"{kind} of {uri!r} raised {e!r}"
                assert len(store.requests) == count + 1
                continue
            assert not fails, f"{kind} of {uri!r} didn't raise, status {op.get('fails', 404)}"
            assert len(store.requests) == count + 1, f"{len(store.requests) - count} requests"
            if kind == "get":
                expected = set(model[uri])
                if relative(op):
                    base = uri.split("#")[0]
                    expected.add((("I", base), ("I", "http://e.example/rel"), ("I", base + "#it")))
                assert_same(expected, triples_of(result), f"graph {uri!r}")
            elif kind == "put":
                model[uri] = statements
            elif kind == "post":
                model[uri] = model.get(uri, set()) | statements
            elif kind == "create":
                created.append(statements)
            elif kind == "delete":
                del model[uri]
            elif kind == "patch":
                nodes = {s for s in model.get(uri, ()) if has_node(s)}
                model[uri] = nodes | statements
            assert set(store.graphs) == set(model), f"{set(store.graphs)} instead of {set(model)}"
            for name, graph in model.items():
                assert_same(graph, store.graphs[name], f"{name!r} in the store after {kind}")
            assert len(store.created) == len(created)
            for a, b in zip(created, store.created):
                assert_same(a, b, "a new graph")


def relative(op):
    """Whether the store's answer has IRIs relative to that of the graph; not
    with IRIs which different libraries resolve these against differently."""
    return (
        op["relative"]
        and op["type"] != "text/plain"
        and op["uri"].startswith("http://e.example/")
        and "/." not in op["uri"]
    )


def has_node(statement):
    return any(t[0] == "B" for t in statement)


@st.composite
def large_cases(draw):
    """Histories with large graphs."""
    case = draw(cases())
    return [case, draw(st.lists(large.specs(400), min_size=1, max_size=2))]


def large_body(case, rec):
    case, specs = case
    ops = []
    for k, op in enumerate(case["ops"]):
        if "graph" in op:
            spec = specs[k % len(specs)]
            more = [list(map(list, t)) for t in large.triples(spec)]
            if op["op"] == "patch":
                more = [s for s in more if "B" not in (s[0][0], s[2][0])]
            op = {**op, "graph": gen.unique(op["graph"] + more)}
        ops.append(op)
    body({**case, "ops": ops}, rec)


PROPS = [
    Prop("large", large_cases, large_body, quick=48, thorough=1000),
    Prop("histories", cases, body, quick=2500),
]
