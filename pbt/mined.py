"""Constants that the code under test mentions, for the generators to try: sizes
that it compares with, characters and words that it treats in some way. What is
asserted doesn't depend on them, and nothing is asserted about them."""

import ast
import json
import os
from functools import cache

from hypothesis import strategies as st

REPO = os.environ.get("VERIF_REPO", "/repo")


@cache
def constants():
    """All integers and (short) strings in the code, sorted."""
    numbers, strings = set(), set()
    top = os.path.join(REPO, "src", "pymantic")
    for folder, folders, files in os.walk(top):
        folders.sort()
        for name in sorted(files):
            if not name.endswith(".py") or name == "uri_schemes.py":
                continue
            try:
                with open(os.path.join(folder, name), encoding="utf-8") as f:
                    tree = ast.parse(f.read())
            except (SyntaxError, ValueError):
                continue  # Python 2
            documentation = {
                id(node.value) for node in ast.walk(tree) if isinstance(node, ast.Expr)
            }
            for node in ast.walk(tree):
                if id(node) in documentation:
                    continue
                if isinstance(node, ast.Constant):
                    if type(node.value) is int and abs(node.value) < 1 << 40:
                        numbers.add(abs(node.value))
                    elif isinstance(node.value, str) and len(node.value) < 60:
                        strings.add(node.value)
    return sorted(numbers), sorted(strings)


def is_text(string):
    return not any("\ud800" <= c <= "\udfff" for c in string)


# What the code mentioned when this was written is tried less than what is new.
with open(os.path.join(os.path.dirname(__file__), "mined.json")) as f:
    BEFORE = tuple(map(frozenset, json.load(f)))


def choose(values, before):
    """Any of the values, the new ones more often."""
    if not values:
        values = before
    new = sorted(values - before)
    everything = st.sampled_from(sorted(values))
    return st.one_of(st.sampled_from(new), st.sampled_from(new), everything) if new else everything


def around(numbers, *offsets):
    return {n + d for n in numbers for d in offsets}


ROUND = (10, 16, 32, 50, 64, 100, 128, 200, 256, 300, 500, 512, 1000, 1024, 2000, 2048)


@cache
def sizes(limit):
    """Numbers up to a limit: any, round ones, and ones that the code knows; and
    those just before and after."""
    known = around(constants()[0], -1, 0, 1, 2)
    before = around(BEFORE[0], -1, 0, 1, 2)
    known, regular = (
        {n for n in ns if 4 < n <= limit} for ns in (known, around(ROUND, -1, 0, 1))
    )
    choices = [st.integers(1, limit), st.integers(limit // 4, limit)]
    if known:
        choices.append(choose(known, before))
    if regular:
        choices.append(st.sampled_from(sorted(regular)))
    return st.one_of(*choices)


@cache
def chars():
    def characters(numbers, strings):
        codes = {ord(s) for s in strings if len(s) == 1} | {n for n in numbers if n < 0x110000}
        codes = around(codes, -1, 0, 1)
        return {chr(c) for c in codes if 0 <= c < 0x110000 and not 0xD800 <= c <= 0xDFFF}

    return choose(characters(*constants()), characters(*BEFORE))


@cache
def words():
    """Strings that the code mentions."""
    return choose({s for s in constants()[1] if is_text(s)}, BEFORE[1])
