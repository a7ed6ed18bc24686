"""C14: CURIEs stand for what the prefixes say they do."""

from hypothesis import strategies as st

from pbt import gen, mined
from pbt.core import Prop
from pbt.terms import plain

from pymantic import uri_schemes

from pymantic.primitives import (
    NamedNode,
    Prefix,
    PrefixMap,
    parse_curie,
    parse_curies,
    to_curie,
)

ID = "C14"
RULE = (
    "A case is a map of prefixes (some of whose namespaces extend one another or are"
    " equal, with and without a default, with names of URI schemes), and IRIs and CURIEs"
    " made from it. Resolution is compared with concatenation by definition, shrinking"
    " with the longest namespace that the IRI starts with, and what was shrunk has to"
    " resolve to the IRI again. Non-trivial: two or more namespaces are prefixes of the"
    " IRI, or the namespace occurs in it more than once, or the prefix is a URI scheme."
    " After that, prefixes in the same map are redefined and deleted, and all is asked again."
)
ASSUMPTIONS = [
    "Whether a word without a colon may be the name of a prefix isn't decided.",
]

SCHEMES = [
    "http", "https", "ftp", "mailto", "urn", "tag", "file", "data", "tel", "info", "ldap",
    "news", "imap", "nfs", "sip", "sips", "xmpp", "telnet", "gopher", "iris.beep", "z39.50r",
]  # fmt: skip
NAMES = ["", "ex", "foo", "a", "b", "rdf", "é", "x.y", "x-y", "ex2", "Http", "e", "_"]
NAMESPACES = [
    "http://example.com/",
    "http://example.com/a",
    "http://example.com/a/b#",
    "http://example.com/http://example.com/",
    "http:",
    "urn:x:",
    "urn:",
    "e",
    "http://é/",
    "aa",
    "a",
]
REFERENCES = [
    "", "a", "b", "a:b", ":", "http://example.com/", "http://example.com/a", "[", "]", "[a]",
    "a]", "//x", "é", " ", "a b", "#", "?x=y", "aaa", "%41", "urn:", "ex:a", "{}", "{0}", "%s",
]  # fmt: skip


@st.composite
def prefix_maps(draw):
    pairs = {}
    for _ in range(draw(gen.ints(5))):
        name = draw(gen.pick(*NAMES)) if draw(gen.ints(4)) else draw(gen.pick(*SCHEMES))
        if draw(gen.ints(3)):
            pairs[name] = draw(gen.pick(*NAMESPACES))
        else:
            pairs[name] = draw(gen.iris())
    return list(map(list, pairs.items()))


@st.composite
def cases(draw):
    pairs = draw(prefix_maps())
    names = [n for n, _ in pairs]
    namespaces = [ns for _, ns in pairs]

    def one(own, other):
        if own and draw(gen.ints(3)):
            return own[draw(gen.ints(len(own) - 1))]
        return draw(gen.pick(*other))

    def reference():
        if namespaces and draw(gen.ints(5)) == 0:
            return namespaces[draw(gen.ints(len(namespaces) - 1))]
        return draw(gen.pick(*REFERENCES) if draw(gen.ints(3)) else gen.text(5))

    curies = []
    for _ in range(draw(gen.ints(3)) + 1):
        name = one(names, NAMES + SCHEMES)
        curies.append([name, draw(gen.pick(":", ":", ":", "")), reference()])
    iris = [
        one(namespaces, NAMESPACES) + reference() + (one(namespaces, NAMESPACES) if draw(gen.ints(4)) == 0 else "")
        for _ in range(draw(gen.ints(3)) + 1)
    ]
    changes = [
        [one(names, NAMES), draw(gen.pick(None, *NAMESPACES))] for _ in range(max(0, draw(gen.ints(3)) - 1))
    ]
    return {"prefixes": pairs, "curies": curies, "iris": iris, "as": draw(gen.ints(2)), "changes": changes}


UNKNOWN = object()


def meaning(name, colon, reference, prefixes, explicit):
    """What a CURIE stands for, None if that isn't decided."""
    if not colon:
        word = name + reference
        if ":" in word:
            return None
        if not explicit and word in uri_schemes.schemes:
            return None  # nothing but a scheme
        if "" in prefixes:
            return prefixes[""] + word
        return None if word in prefixes else UNKNOWN
    if not explicit and name in SCHEMES:
        return name + ":" + reference
    if name in prefixes:
        return prefixes[name] + reference
    return UNKNOWN


def resolves_to(resolve, curie, expected):
    try:
        result = resolve(curie)
    except ValueError:
        assert expected is UNKNOWN, f"can't resolve {curie!r} to {expected!r}"
        return
    assert expected is not UNKNOWN, f"resolves {curie!r} to {result!r}"
    assert isinstance(result, NamedNode), repr(result)
    assert plain(result) == expected, f"{curie!r} resolves to {plain(result)!r}, not {expected!r}"


def body(case, rec):
    pairs = case["prefixes"]
    if case["as"] == 0:
        prefixes = PrefixMap()
        prefixes.update(pairs)
    elif case["as"] == 1:
        prefixes = dict(pairs)
    else:
        prefixes = PrefixMap((n, Prefix(ns)) for n, ns in pairs)
    resolvers = [lambda c: parse_curie(c, prefixes), lambda c: list(parse_curies([c], prefixes))[0]]
    shrinkers = [lambda i: to_curie(i, prefixes)]
    if case["as"] != 1:
        resolvers.append(prefixes.resolve)
        shrinkers.append(prefixes.shrink)
    check_all(case, pairs, prefixes, resolvers, shrinkers, rec)
    # What they stand for is what the prefixes say by then.
    for name, namespace in case.get("changes", ()):
        values = dict(pairs)
        if namespace is not None:
            values[name] = namespace
            prefixes[name] = Prefix(namespace) if case["as"] == 2 else namespace
        elif name in values:
            del values[name], prefixes[name]
        pairs = list(map(list, values.items()))
        check_all(case, pairs, prefixes, resolvers, shrinkers, rec)
        rec.label("changed")


def check_all(case, pairs, prefixes, resolvers, shrinkers, rec):
    values = dict(pairs)
    for name, colon, reference in case["curies"]:
        curie = name + colon + reference
        if curie and not (curie[0] == "[" and curie[-1] == "]"):
            expected = meaning(name, colon, reference, values, False)
            if expected is not None:
                rec.interesting(name in SCHEMES and name in values)
                for resolve in resolvers:
                    resolves_to(resolve, curie, expected)
        expected = meaning(name, colon, reference, values, True)
        if expected is not None:
            rec.label("unknown" if expected is UNKNOWN else "known")
            for resolve in resolvers:
                resolves_to(resolve, f"[{curie}]", expected)
    for iri in case["iris"]:
        check_shrink(iri, case, values, prefixes, shrinkers, resolvers, rec)
    assert list(map(list, prefixes.items())) == pairs, "the prefixes were changed"


def check_shrink(iri, case, values, prefixes, shrinkers, resolvers, rec):
    matches = {n: ns for n, ns in values.items() if iri.startswith(ns)}
    rec.interesting(len(set(matches.values())) > 1)
    rec.interesting(any(iri.count(ns) > 1 for ns in values.values()))
    longest = max((len(ns) for ns in matches.values()), default=None)
    allowed = {n for n, ns in matches.items() if len(ns) == longest}
    for given in (iri, NamedNode(iri)):
        for shrink in shrinkers:
            curie = shrink(given)
            if not allowed:
                assert plain(curie) == iri, f"{iri!r} becomes {curie!r}"
                rec.label("stays")
                continue
            forms = {n + ":" + iri[longest:]: n for n in allowed}
            assert plain(curie) in forms, f"{iri!r} becomes {curie!r}, not {forms}"
            name = forms[plain(curie)]
            if name not in SCHEMES and not (curie[0] == "[" and curie[-1] == "]"):
                rec.label("round trip")
                for resolve in resolvers:
                    resolves_to(resolve, plain(curie), iri)
    explicit = to_curie(iri, prefixes, explicit=True)
    if allowed:
        assert explicit in {f"[{n}:{iri[longest:]}]" for n in allowed}, (iri, explicit)
        for resolve in resolvers:
            resolves_to(resolve, explicit, iri)
        assert to_curie(iri, prefixes, "|") in {f"{n}|{iri[longest:]}" for n in allowed}
    else:
        assert plain(explicit) == iri


@st.composite
def large_cases(draw):
    """Many prefixes, or long namespaces and references."""
    return {
        "case": draw(cases()),
        "prefixes": draw(st.one_of(gen.ints(3), mined.sizes(300))),
        "length": draw(st.one_of(gen.ints(3), mined.sizes(2000))),
        "nested": draw(st.booleans()),
        "unit": draw(gen.pick("a", "a/", "é", ":", "a:", "[", "#")),
        "order": draw(st.booleans()),
    }


def large_body(spec, rec):
    case = dict(spec["case"])
    n, long = spec["prefixes"], spec["unit"] * spec["length"]
    start = "http://many.example/"
    pairs = [
        ["p%d" % i, start + ("x/" * i if spec["nested"] else "%d/" % i)] for i in range(n)
    ] + [["long", start + long], ["L" + "o" * spec["length"] + "ng", start + "long/"]]
    if spec["order"]:
        pairs.reverse()
    known = {name for name, _ in pairs}
    case["prefixes"] = [p for p in case["prefixes"] if p[0] not in known] + pairs
    picked = [pairs[k] for k in sorted({0, 1, len(pairs) // 2, len(pairs) - 2, len(pairs) - 1})]
    case["curies"] = case["curies"] + [[name, ":", r] for name, _ in picked for r in ("a", long)]
    case["iris"] = case["iris"] + [ns + r for _, ns in picked for r in ("a", long)]
    body(case, rec)


PROPS = [
    Prop("large", large_cases, large_body, quick=160, thorough=2000),
    Prop("curies", cases, body, quick=6000),
]
