"""Terms as JSON, and how they relate to those of the code under test.

["I", iri]                    an IRI
["B", label]                  a blank node; same label, same node in a case
["L", value, language, type]  a literal; language and type may be None
A triple is a list of three of these, a quad of four, the last may be None.
"""

from pymantic.primitives import BlankNode, Literal, NamedNode, Quad, Triple

XSD = "http://www.w3.org/2001/XMLSchema#"
RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
RDFS = "http://www.w3.org/2000/01/rdf-schema#"


class Terms:
    """Makes the code's terms from JSON, and describes the code's terms."""

    def __init__(self):
        self.nodes = {}
        self.labels = {}
        self.made = {}
        self.count = 0

    def node(self, label):
        label = str(label)
        if label not in self.nodes:
            self.nodes[label] = BlankNode()
            self.labels[self.nodes[label]] = label
        return self.nodes[label]

    def make(self, term):
        if term is None:
            return None
        kind = term[0]
        if kind == "B":
            return self.node(term[1])
        # Sometimes the same object as before, sometimes one that equals it.
        self.count += 1
        key = tuple(term)
        if self.count % 3 and key in self.made:
            return self.made[key]
        made = self.made[key] = self.make_new(term)
        return made

    def make_new(self, term):
        if term[0] == "I":
            return NamedNode(term[1])
        _, value, language, datatype = term
        return Literal(
            value,
            language=language,
            datatype=None if datatype is None else NamedNode(datatype),
        )

    def triple(self, triple):
        return Triple(*(self.make(t) for t in triple))

    def quad(self, quad):
        return Quad(*(self.make(t) for t in quad))

    def describe(self, term):
        """The JSON, as tuples, for a term."""
        if isinstance(term, BlankNode):
            if term not in self.labels:
                label = "new%d" % len(self.labels)
                self.labels[term] = label
                self.nodes[label] = term
            return ("B", self.labels[term])
        return describe(term)

    def describe_all(self, statements):
        return [tuple(self.describe(t) for t in s) for s in statements]


def describe(term, node=None):
    """The JSON, as tuples, for a term; node is called for blank nodes."""
    if term is None:
        return None
    if isinstance(term, BlankNode):
        return ("B", node(term) if node else term)
    if isinstance(term, Literal):
        assert type(term.value) is str or isinstance(term.value, str), term
        datatype = term.datatype
        if datatype is not None:
            assert isinstance(datatype, str), repr(term)
            datatype = plain(datatype)
        language = term.language
        return (
            "L",
            plain(term.value),
            None if language is None else plain(language),
            datatype,
        )
    assert isinstance(term, NamedNode), f"not a term: {term!r}"
    return ("I", plain(term))


def plain(string):
    return "".join(("", str.__str__(string)))


def freeze(value):
    """Lists to tuples, all the way down."""
    if isinstance(value, (list, tuple)):
        return tuple(freeze(v) for v in value)
    return value


def simple(statement):
    """A statement with plain literals for those of type xsd:string."""
    return tuple(
        (
            ("L", t[1], t[2], None)
            if t is not None and t[0] == "L" and t[3] == XSD + "string"
            else t
        )
        for t in statement
    )


def is_node(term):
    return term is not None and term[0] == "B"


def isomorphic(a, b):
    """Are two collections of statements (tuples of tuples) the same but for
    the names of their blank nodes?"""
    return mapping(set(a), set(b)) is not None


def mapping(a, b, depth=0):
    """A map of blank nodes that turns statements a into statements b."""
    if len(a) != len(b):
        return None
    ground_a = {s for s in a if not any(is_node(t) for t in s)}
    ground_b = {s for s in b if not any(is_node(t) for t in s)}
    if ground_a != ground_b:
        return None
    pools = {}
    for part in components(b - ground_b):
        pools.setdefault(shape(part), []).append(part)
    result = {}
    for part in components(a - ground_a):
        pool = pools.get(shape(part), [])
        # Which of those that are the same is taken doesn't matter.
        for i, other in enumerate(pool):
            found = search(part, other, depth)
            if found is not None:
                result.update(found)
                del pool[i]
                break
        else:
            return None
    return None if any(pools.values()) else result


def components(statements):
    """Sets of statements that have no blank node in common."""
    leader = {}

    def find(node):
        while leader.setdefault(node, node) != node:
            leader[node] = leader[leader[node]]
            node = leader[node]
        return node

    for s in statements:
        nodes = [t for t in s if is_node(t)]
        for other in nodes[1:]:
            leader[find(other)] = find(nodes[0])
    parts = {}
    for s in statements:
        parts.setdefault(find(next(t for t in s if is_node(t))), set()).add(s)
    return list(parts.values())


def shape(statements):
    """Isomorphic statements have the same."""
    uses = index(statements)
    colors = refine(uses, dict.fromkeys(uses, 0))
    return len(statements), tuple(
        sorted(hash(tuple(("B", colors[t]) if is_node(t) else t for t in s)) for s in statements)
    )


def stars(nodes, uses):
    """What each of the nodes is used with."""
    return {
        frozenset(tuple("self" if t == n else t for t in s) for s in uses[n]) for n in nodes
    }


def index(statements):
    uses = {}
    for s in statements:
        for t in set(s):
            if is_node(t):
                uses.setdefault(t, []).append(s)
    return uses


def refine(uses, colors):
    """Color blank nodes by what they are used with until that is stable.

    What a node gets depends on the statements only, not on the nodes' names."""

    def signature(node):
        return tuple(
            sorted(
                hash(
                    tuple(
                        "self" if t == node else ("B", colors[t]) if is_node(t) else t for t in s
                    )
                )
                for s in uses[node]
            )
        )

    neighbours = {n: {t for s in ss for t in s if is_node(t)} - {n} for n, ss in uses.items()}
    classes = {}
    for node, color in colors.items():
        classes.setdefault(color, set()).add(node)
    active, first = set(uses), True
    while active:
        groups = {}
        for node in active:
            if first or len(classes[colors[node]]) > 1:
                groups.setdefault(colors[node], {}).setdefault(signature(node), []).append(node)
        changed = []
        for color, by_signature in groups.items():
            parts = sorted(by_signature.items(), key=lambda part: len(part[1]))
            if not first and sum(len(nodes) for _, nodes in parts) == len(classes[color]):
                # All of a class: those that are the most keep its color. (When not all
                # of it is active, those that aren't, and have no neighbours with a new
                # color, do.)
                if len(parts) == 1 or len(parts[-1][1]) > len(parts[-2][1]):
                    parts.pop()
            for key, nodes in parts:
                changed += [(node, hash((color, key))) for node in nodes]
        for node, color in changed:
            classes[colors[node]].discard(node)
            colors[node] = color
            classes.setdefault(color, set()).add(node)
        active = {other for node, _ in changed for other in neighbours[node]}
        first = False
    return colors


def search(a, b, depth):
    """A map for statements that are connected by their blank nodes."""
    uses_a, uses_b = index(a), index(b)
    if len(uses_a) != len(uses_b):
        return None
    classes_a, classes_b = {}, {}
    for classes, uses in ((classes_a, uses_a), (classes_b, uses_b)):
        for n, c in refine(uses, dict.fromkeys(uses, 0)).items():
            classes.setdefault(c, []).append(n)
    if {c: len(n) for c, n in classes_a.items()} != {
        c: len(n) for c, n in classes_b.items()
    }:
        return None
    certain = [(n[0], classes_b[c][0], c) for c, n in classes_a.items() if len(n) == 1]
    if certain:
        return substitute(a, b, certain, depth)
    color = min(classes_a, key=lambda c: (len(classes_a[c]), c))
    if len(stars(classes_a[color], uses_a)) == 1 and len(stars(classes_b[color], uses_b)) == 1:
        # They are interchangeable, so any order will do.
        pairs = zip(classes_a[color], classes_b[color])
        return substitute(a, b, [(n, o, i) for i, (n, o) in enumerate(pairs)], depth)
    for other in classes_b[color]:
        found = substitute(a, b, [(classes_a[color][0], other, 0)], depth)
        if found is not None:
            return found
    return None


def substitute(a, b, certain, depth):
    """A map with some nodes in it, which are like other terms for the rest of them."""
    names_a = {n: ("F", depth, i) for n, _, i in certain}
    names_b = {o: ("F", depth, i) for _, o, i in certain}
    found = mapping(
        {tuple(names_a.get(t, t) for t in s) for s in a},
        {tuple(names_b.get(t, t) for t in s) for s in b},
        depth + 1,
    )
    return None if found is None else {**{n: o for n, o, _ in certain}, **found}


def difference(expected, actual):
    """What to say about statements that aren't isomorphic."""
    expected, actual = set(expected), set(actual)

    def key(s):
        return tuple(("B",) if is_node(t) else t for t in s)

    missing = {key(s) for s in expected} - {key(s) for s in actual}
    extra = {key(s) for s in actual} - {key(s) for s in expected}
    return (
        f"{len(expected)} expected, {len(actual)} found;"
        f" missing {sorted(map(repr, missing))[:5]}, extra {sorted(map(repr, extra))[:5]}"
    )


def assert_same(expected, actual, what=""):
    expected, actual = freeze(list(expected)), freeze(list(actual))
    if len(set(actual)) != len(actual):
        raise AssertionError(f"{what}: duplicates among {actual!r}"[:2000])
    if not isomorphic(expected, actual):
        raise AssertionError(f"{what}: {difference(expected, actual)}")
