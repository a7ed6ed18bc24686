"""C09: Turtle resolves relative IRIs and prefixed names as of where they are."""

from hypothesis import strategies as st

from pbt import gen, largedocs, mined, ntgen, rfc3986, ttlgen
from pbt.core import Prop
from pbt.terms import Terms, assert_same, freeze

from pymantic.parsers import turtle_parser

ID = "C09"
RULE = (
    "documents: a Turtle document whose IRIs, prefixes and bases are mostly relative,"
    " with @base/BASE/@prefix/PREFIX (re)definitions in between, read with and without"
    " a base given to parse(); references: one reference, one base, given to parse(),"
    " by @base, by BASE, or as a prefix; scopes: one prefixed name and one relative IRI"
    " used before and after redefinitions. The oracle is a transcription of RFC 3986"
    " 5.2. Non-trivial: a relative reference occurs after a base was set, or a name"
    " after its prefix was redefined."
)


def strategy():
    return st.one_of(ttlgen.documents(relative=4, depth=1, max_statements=7))


def parse(text, base):
    result = turtle_parser.parse(text, base=base) if base else turtle_parser.parse(text)
    return Terms().describe_all(result)


def body(case, rec):
    rec.interesting(
        bool({"relative IRI", "relative base", "relative prefix", "prefix redefined"} & set(case["features"]))
    )
    rec.label(*case["features"])
    assert_same(freeze(case["expected"]), parse(case["text"], case["base"]), case["text"])


@st.composite
def base_iris(draw):
    if draw(gen.ints(1)):
        return draw(gen.pick(*ttlgen.BASES))
    base = draw(gen.pick("http://a", "http://a.example:8080", "ex:", "urn:x:y", "file://"))
    for segment in draw(st.lists(gen.pick("a", "b", "c", "", "..", "é"), max_size=4)):
        base += "/" + segment
    return base + draw(gen.pick("", "", "?q", "#f", "?q=/x/../y#f"))


def reference_cases():
    return st.tuples(base_iris(), ttlgen.references()).map(list)


def reference_body(case, rec):
    base, reference = case
    resolved = rfc3986.absolute(base, reference)
    rec.interesting(resolved != reference)
    rec.label("dots" if "." in reference else "no dots")
    iri = ("I", resolved)
    prefixed = ("I", resolved + "x")
    for text, given in (
        (f"<{reference}> <{reference}> <{reference}> .", base),
        (f"@base <{base}> . <{reference}> <{reference}> <{reference}> .", ""),
        (f"BASE <{base}> <{reference}> <{reference}> <{reference}> .", "http://other/"),
        (f"@base <{base}> . @base <{reference}> . <{resolved}> <{resolved}> <{resolved}> .", ""),
    ):
        assert_same({(iri, iri, iri)}, parse(text, given), text)
    # A base of one's own may be relative to the one before it.
    again = rfc3986.absolute(resolved, "")
    other = rfc3986.absolute(resolved, "x/y?z")
    for text, given in (
        (f"BASE <{reference}> <> <x/y?z> <> .", base),
        (f"@base <{reference}> . <> <x/y?z> <> .", base),
        (f"BASE <{base}> BASE <{reference}> <> <x/y?z> <> .", ""),
        (f"@base <{base}> . BASE <{reference}> <> <x/y?z> <> .", "http://other/"),
        (f"BASE <{base}> @base <{reference}> . <> <x/y?z> <> .", "http://other/"),
    ):
        wanted = {(("I", again), ("I", other), ("I", again))}
        assert_same(wanted, parse(text, given), text)
    for text, given in (
        (f"@prefix p: <{reference}> . p:x p:x p:x .", base),
        (f"BASE <{base}> PREFIX p: <{reference}> p:x p:x p:x .", ""),
        # Bases that follow don't matter to a prefix.
        (f"@base <{base}> . @prefix p: <{reference}> . @base <http://z/> . p:x p:x p:x .", ""),
    ):
        assert_same({(prefixed, prefixed, prefixed)}, parse(text, given), text)
    text = f'<http://s> <http://p> "a"^^<{reference}> .'
    literal = ("L", "a", None, resolved)
    assert_same({(("I", "http://s"), ("I", "http://p"), literal)}, parse(text, base), text)


def scope_cases():
    step = st.one_of(
        st.tuples(st.just("base"), gen.pick(*ttlgen.BASES, *ttlgen.REFERENCES)),
        st.tuples(st.just("prefix"), gen.pick("p", "q", ""), gen.pick(*ttlgen.NAMESPACES, "a/", "#", "")),
        st.tuples(st.just("use"), gen.pick("p", "q", ""), ttlgen.references()),
        st.tuples(st.just("use"), gen.pick("p", "q"), ttlgen.references()),
    ).map(list)
    given = st.one_of(base_iris(), base_iris(), base_iris(), st.just(""))
    return st.tuples(given, gen.histories(step, 8), ntgen.choices(3, 4)).map(list)


def absolute(base, reference):
    """Without any base, references stay as they are."""
    return rfc3986.absolute(base, reference) if base else reference


def scope_body(case, rec):
    given, steps, styles = case
    base = given
    text = "@prefix p: <http://p.example/> . @prefix q: <q/> . @prefix : <http://empty/> .\n"
    prefixes = {"": "http://empty/", "p": "http://p.example/", "q": absolute(base, "q/")}
    expected = set()
    redefined = False
    for i, step in enumerate(steps):
        if step[0] == "base" and not base and not rfc3986.split(step[1])[0]:
            continue  # a relative base is of no use
        sparql = styles[i % len(styles)] & 1
        if step[0] == "base":
            text += f"BASE <{step[1]}>\n" if sparql else f"@base <{step[1]}> .\n"
            base = absolute(base, step[1])
            redefined = True
        elif step[0] == "prefix":
            _, name, namespace = step
            text += (
                f"PREFIX {name}: <{namespace}>\n"
                if sparql
                else f"@prefix {name}: <{namespace}> .\n"
            )
            prefixes[name] = absolute(base, namespace)
            redefined = True
        else:
            _, name, reference = step
            text += f"{name}:x <{reference}> {name}: .\n"
            expected.add(
                (
                    ("I", prefixes[name] + "x"),
                    ("I", absolute(base, reference)),
                    ("I", prefixes[name]),
                )
            )
            rec.interesting(redefined)
    assert_same(expected, parse(text, given), text)


@st.composite
def long_cases(draw):
    """References and bases of many segments, up and down."""
    base = draw(gen.pick("http://a", "http://a/", "ex:", "ex:/", "file://"))
    sizes = st.one_of(gen.ints(4), mined.sizes(400))
    base += "/b" * draw(sizes) + draw(gen.pick("", "/", "/c", "/c/"))
    reference = draw(gen.pick("", "", "", "/", "./", "?", "#"))
    reference += draw(gen.pick("../", "./", "a/", "a/../", "a/./", "../a/", "a/b/../")) * draw(sizes)
    reference += draw(gen.pick("", "a", "..", ".", "a?b", "#a"))
    if draw(gen.ints(2)) == 0:
        base += draw(gen.pick("?", "#")) + "q/" * draw(sizes)
    return [base, reference]


def large_body(spec, rec):
    rec.interesting()
    rec.label(spec["kind"])
    document = largedocs.turtle(spec)
    assert_same(freeze(document["expected"]), parse(document["text"], ""), "large document")
    # A base that isn't used makes no difference, nor does the one before.
    for base in ("http://unused.example/a/b", largedocs.NS):
        assert_same(freeze(document["expected"]), parse(document["text"], base), "with a base")


PROPS = [
    Prop("long references", long_cases, reference_body, quick=200),
    Prop(
        "large",
        lambda: largedocs.specs(("prefixes", "redefined", "bases", "prefix", "local", "iri", "local escapes")),
        large_body,
        quick=80,
        thorough=1500,
    ),
    Prop("documents", strategy, body, quick=1000),
    Prop("references", reference_cases, reference_body, quick=1000),
    Prop("scopes", scope_cases, scope_body, quick=1000),
]
