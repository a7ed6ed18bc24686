"""C11: parses don't affect each other."""

from io import StringIO
import sys
import threading

from hypothesis import strategies as st

from pbt import gen, largedocs, mined
from pbt.core import HarnessError, Prop
from pbt.terms import Terms, assert_same, freeze

from pymantic.parsers import jsonld_parser, nquads_parser, ntriples_parser, turtle_parser
from pymantic.primitives import BlankNode, Dataset, Graph

ID = "C11"
RULE = (
    "A case is two to five documents in N-Triples, N-Quads, Turtle or JSON-LD that use"
    " the same blank node labels, prefixes and relative IRIs, some of them broken, or"
    " read from a stream or into a graph that fails half-way. sequence: they are parsed"
    " one after another; schedule: each in a thread of its own, switching threads at"
    " reads from the stream and at additions to the graph as the generated schedule"
    " says; free: in threads that switch as often as the interpreter can. Every parse"
    " has to yield what it yields alone, with blank nodes of its own. Non-trivial: two"
    " documents use the same label, and (schedule) both were at work at the same time."
)


class Fault(Exception):
    """Injected into a stream or a graph."""


# Documents

LABELS = ["a", "a", "b", "b0", "b0", "A", "a-longer.label-of_20", "a-longer.label-of_20", "n" * 40]


def terms():
    return st.one_of(
        st.tuples(st.just("B"), gen.pick(*LABELS)),
        st.tuples(st.just("B"), gen.pick(*LABELS)),
        st.tuples(st.just("I"), gen.pick("x", "y")),
        st.tuples(st.just("P"), gen.pick("x", "y")),
        st.tuples(st.just("L"), gen.pick("x", "y")),
    ).map(list)


@st.composite
def documents(draw):
    kind = draw(gen.pick("nt", "nt", "nq", "ttl", "ttl", "jsonld"))
    statements = draw(
        gen.several(
            st.tuples(
                st.tuples(st.just("B"), gen.pick(*LABELS)).map(list),
                gen.pick("p", "q"),
                terms(),
                st.one_of(st.none(), terms().filter(lambda t: t[0] != "L")),
            ).map(list),
            6,
        )
    )
    fault = draw(
        gen.pick(None, None, None, None, "broken", "undefined prefix", "stream", "graph", "graph")
    )
    if fault == "undefined prefix" and kind != "ttl":
        fault = "broken"
    return {
        "kind": kind,
        "statements": statements,
        "fault": fault,
        "at": draw(gen.ints(6)),
        "namespace": draw(gen.pick("http://n/0/", "http://n/1/")),
        "declared": draw(gen.ints(3)),
        "stream": draw(st.booleans()),
    }


def iri(document, term):
    # Prefixes and bases are there in Turtle only.
    name = "p" if term[0] == "P" else "b"
    return document["namespace"] + name + "/" + term[1]


def expected(document):
    result = set()
    for s, p, o, g in document["statements"]:
        row = [("B", s[1]), ("I", "http://p/" + p)]
        for t in (o, g):
            if t is None:
                row.append(None)
            elif t[0] == "B":
                row.append(("B", t[1]))
            elif t[0] == "L":
                # Turtle and JSON-LD have xsd:string where others have nothing.
                row.append(("L", t[1], None, None))
            else:
                row.append(("I", iri(document, t)))
        if document["kind"] in ("nt", "ttl"):
            row.pop()
        result.add(tuple(row))
    return result


def text_of(document):
    lines = []
    kind = document["kind"]

    def spell(term):
        if term[0] == "B":
            return "_:" + term[1]
        if term[0] == "L":
            return '"%s"' % term[1]
        if kind == "ttl":
            return "p:" + term[1] if term[0] == "P" else "<b/%s>" % term[1]
        return "<" + iri(document, term) + ">"

    if kind == "ttl":
        lines.append("@base <%s> ." % document["namespace"])
        lines.append("@prefix p: <p/> .")
    for s, p, o, g in document["statements"]:
        parts = [spell(s), "<http://p/" + p + ">", spell(o)]
        if kind == "nq" and g is not None:
            parts.append(spell(g))
        lines.append(" ".join(parts) + " .")
    at = document["at"]
    if document["fault"] == "broken":
        at = 2 + at % (len(lines) - 1) if kind == "ttl" else at % (len(lines) + 1)
        lines.insert(at, "<http://a> broken .")
    if document["fault"] == "undefined prefix":
        # Other documents declare it, this one doesn't (any more).
        lines = [line for line in lines if not line.startswith("@prefix")]
        lines.append("_:a p:x _:b .")
    return "".join(line + "\n" for line in lines)


def json_of(document):
    nodes = []

    def value(term):
        if term[0] == "B":
            return {"@id": "_:" + term[1]}
        if term[0] == "L":
            return {"@value": term[1]}
        return {"@id": iri(document, term)}

    for s, p, o, g in document["statements"]:
        node = {"@id": "_:" + s[1], "http://p/" + p: [value(o)]}
        nodes.append(node if g is None else {"@graph": [node], **value(g)})
    if document["fault"] == "broken":
        nodes.insert(document["at"] % (len(nodes) + 1), {"@id": 1})
    return nodes


# Parsing, with points at which to switch threads or to fail


class Stream:
    def __init__(self, text, point, fail_at):
        self.stream = StringIO(text)
        self.point = point
        self.fail_at = fail_at
        self.count = 0

    def step(self):
        self.point()
        if self.count == self.fail_at:
            raise Fault()
        self.count += 1

    def readline(self):
        self.step()
        return self.stream.readline()

    def read(self):
        self.step()
        return self.stream.read()

    def __iter__(self):
        return self

    def __next__(self):
        line = self.readline()
        if not line:
            raise StopIteration
        return line


def sink(kind, point, fail_at):
    class Sink(Dataset if kind in ("nq", "jsonld") else Graph):
        count = 0

        def add(self, statement):
            point()
            if self.count == fail_at:
                raise Fault()
            self.count += 1
            return super().add(statement)

    return Sink()


def run(document, point):
    """Returns the statements and if it failed."""
    kind, fault = document["kind"], document["fault"]
    graph = sink(kind, point, document["at"] if fault == "graph" else None)
    try:
        if kind == "jsonld":
            result = jsonld_parser.parse_json(json_of(document), graph)
        else:
            parser = {"nt": ntriples_parser, "nq": nquads_parser, "ttl": turtle_parser}[kind]
            source = text_of(document)
            if document["stream"] or fault == "stream":
                source = Stream(
                    source, point, document["at"] if fault == "stream" else None
                )
            result = parser.parse(source, graph)
    except Fault:
        return list(graph), True
    except Exception:
        if fault in ("broken", "undefined prefix"):
            return list(graph), True
        raise
    assert fault not in ("broken", "undefined prefix"), f"{text_of(document)!r} is accepted"
    assert result is graph
    return list(result), False


def plain(statement):
    """A statement with plain literals for those of type xsd:string."""
    return tuple(
        ("L", t[1], None, None) if t is not None and t[0] == "L" else t for t in statement
    )


def check(documents, outcomes):
    owners = {}
    for i, (document, outcome) in enumerate(zip(documents, outcomes)):
        if isinstance(outcome, BaseException):
            raise AssertionError(f"document {i} failed: {outcome!r}") from outcome
        statements, failed = outcome
        if not failed:
            found = [plain(s) for s in Terms().describe_all(statements)]
            assert_same(expected(document), found, f"document {i}")
        for statement in statements:
            for term in statement:
                if isinstance(term, BlankNode):
                    other = owners.setdefault(term, i)
                    assert other == i, f"documents {other} and {i} share {term}"


def shared_labels(documents):
    seen = [
        {t[1] for s in d["statements"] for t in s if isinstance(t, list) and t[0] == "B"}
        for d in documents
    ]
    return any(a & b for i, a in enumerate(seen) for b in seen[:i])


def sequence_body(case, rec):
    rec.interesting(shared_labels(case))
    rec.label(*{d["kind"] for d in case}, *{str(d["fault"]) for d in case})
    outcomes = [run(document, lambda: None) for document in case]
    check(case, outcomes)
    # Into one and the same graph.
    for quads in (False, True):
        graph = Dataset() if quads else Graph()
        whole = set()
        for i, document in enumerate(case):
            if document["fault"] is None and (document["kind"] in ("nq", "jsonld")) == quads:
                if document["kind"] == "jsonld":
                    jsonld_parser.parse_json(json_of(document), graph)
                else:
                    parser = {"nt": ntriples_parser, "nq": nquads_parser, "ttl": turtle_parser}
                    parser[document["kind"]].parse(text_of(document), graph)
                for s in expected(document):
                    whole.add(
                        tuple(
                            ("B", f"{i} {t[1]}") if t is not None and t[0] == "B" else t
                            for t in s
                        )
                    )
        found = {plain(s) for s in Terms().describe_all(graph)}
        assert_same(whole, found, "one graph")


class Scheduler:
    """Lets one thread at a time go from one of its points to the next, in an
    order given beforehand."""

    PATIENCE = 3

    def __init__(self, count):
        self.lock = threading.Condition()
        self.turn = None  # whose turn it is
        self.done = [False] * count
        self.started = [False] * count
        self.free = False  # no more schedule, everyone just runs
        self.overlap = False
        self.ids = {}

    def point(self):
        me = self.ids.get(threading.get_ident())
        if me is None:
            return
        with self.lock:
            if self.turn == me:
                self.turn = None
                self.lock.notify_all()
            while not self.free and self.turn != me:
                self.lock.wait()

    def thread(self, me, work, results):
        self.ids[threading.get_ident()] = me
        self.point()
        try:
            results[me] = work(self.point)
        except BaseException as e:
            results[me] = e
        with self.lock:
            self.done[me] = True
            if self.turn == me:
                self.turn = None
            self.lock.notify_all()

    def run(self, works, schedule):
        results = [None] * len(works)
        threads = [
            threading.Thread(target=self.thread, args=(i, w, results), daemon=True)
            for i, w in enumerate(works)
        ]
        for thread in threads:
            thread.start()
        step = 0
        while not all(self.done):
            with self.lock:
                waiting = [i for i, d in enumerate(self.done) if not d]
                if not waiting or self.free:
                    break
                choice = schedule[step % len(schedule)] + step // len(schedule)
                step += 1
                self.turn = waiting[choice % len(waiting)]
                self.started[self.turn] = True
                if sum(s and not d for s, d in zip(self.started, self.done)) > 1:
                    self.overlap = True
                self.lock.notify_all()
                # A thread may have to wait for another one to get on.
                if not self.lock.wait_for(lambda: self.turn is None, self.PATIENCE):
                    self.free = True
                    self.lock.notify_all()
        for thread in threads:
            thread.join(20)
            if thread.is_alive():
                raise HarnessError("threads don't come to an end")
        return results


def schedule_cases():
    return st.tuples(
        st.lists(documents(), min_size=2, max_size=4),
        st.lists(gen.ints(3), min_size=1, max_size=30),
    ).map(list)


def schedule_body(case, rec):
    documents, schedule = case
    scheduler = Scheduler(len(documents))
    works = [lambda point, d=d: run(d, point) for d in documents]
    outcomes = scheduler.run(works, schedule)
    rec.interesting(scheduler.overlap and shared_labels(documents))
    rec.label("overlap" if scheduler.overlap else "no overlap")
    rec.label(*{d["kind"] for d in documents})
    if scheduler.free:
        rec.label("schedule given up")
    check(documents, outcomes)


def free_body(case, rec):
    rec.interesting(shared_labels(case))
    for document in case:
        run(document, lambda: None)  # lexers are made when first needed
    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    rounds = 3
    results = [[None] * rounds for _ in case]

    def work(i):
        for j in range(rounds):
            try:
                results[i][j] = run(case[i], lambda: None)
            except BaseException as e:
                results[i][j] = e

    try:
        threads = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(case))]
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join(60)
            if thread.is_alive():
                raise HarnessError("threads don't come to an end")
    finally:
        sys.setswitchinterval(interval)
    check([d for d in case for _ in range(rounds)], [r for rs in results for r in rs])


def nested_cases():
    return st.tuples(
        st.lists(documents(), min_size=2, max_size=4),
        st.lists(gen.ints(8), min_size=1, max_size=3),
    ).map(list)


def nested_body(case, rec):
    """Documents that are parsed while another one is: when something is read from
    its stream, or added to its graph."""
    documents, steps = case
    outcomes = [None] * len(documents)

    def start(i):
        at = steps[i % len(steps)]
        count = 0

        def point():
            nonlocal count
            if count == at and i + 1 < len(documents):
                rec.interesting(shared_labels(documents))
                rec.label(documents[i]["kind"] + " in it " + documents[i + 1]["kind"])
                start(i + 1)
            count += 1

        try:
            outcomes[i] = run(documents[i], point)
        except Exception as e:
            outcomes[i] = e

    start(0)
    started = [(d, o) for d, o in zip(documents, outcomes) if o is not None]
    check([d for d, _ in started], [o for _, o in started])


def many_cases():
    return st.fixed_dictionaries(
        {
            "documents": st.lists(documents(), min_size=1, max_size=3),
            "times": mined.sizes(150),
            "kinds": st.lists(gen.pick("nt", "nq", "ttl"), min_size=1, max_size=3),
            "size": mined.sizes(300),
            "document": gen.pick("labels", "same label", "statements"),
        }
    )


def many_body(case, rec):
    """The same small documents very often, and the same large document several times."""
    documents = case["documents"]
    rec.interesting(case["times"] > 20 or case["size"] > 20)
    outcomes = []
    for _ in range(case["times"]):
        outcomes += [run(document, lambda: None) for document in documents]
    check(documents * case["times"], outcomes)
    owners = {}
    for turn, kind in enumerate(case["kinds"] * 2):
        spec = {"kind": case["document"], "size": case["size"], "variant": turn, "char": "x"}
        if kind == "ttl":
            if spec["kind"] == "same label":
                spec["kind"] = "labels"
            document = largedocs.turtle(spec)
        else:
            document = largedocs.lines(spec, kind == "nq")
        parser = {"nt": ntriples_parser, "nq": nquads_parser, "ttl": turtle_parser}[kind]
        result = parser.parse(document["text"])
        assert_same(freeze(document["expected"]), Terms().describe_all(result), kind)
        for statement in result:
            for term in statement:
                if isinstance(term, BlankNode):
                    assert owners.setdefault(term, turn) == turn, f"{term} in two documents"


def several_documents():
    return st.lists(documents(), min_size=2, max_size=5)


PROPS = [
    Prop("many", many_cases, many_body, quick=64, thorough=1000),
    Prop("nested", nested_cases, nested_body, quick=800),
    Prop("sequence", several_documents, sequence_body, quick=1500),
    Prop("schedule", schedule_cases, schedule_body, quick=1200),
    Prop("free", several_documents, free_body, quick=200),
]
