"""Shared hypothesis strategies; all values are Python literals."""
from __future__ import annotations

from hypothesis import strategies as st

TEXT = st.text(alphabet=st.characters(exclude_categories=("Cs",)), max_size=24)
ASCII = st.text(alphabet=st.characters(min_codepoint=32, max_codepoint=126), max_size=16)
KEYS = st.one_of(st.sampled_from(["a", "b", "result", "err_code", "error_code", "x", "méthode"]), TEXT)
INT64 = st.one_of(st.integers(-100, 100), st.integers(-(2**53), 2**53), st.integers(-(2**63), 2**63 - 1))
FLOAT = st.floats(allow_nan=False, allow_infinity=False, width=64)

SCALAR = st.one_of(st.none(), st.booleans(), INT64, FLOAT, TEXT)


def json_value(max_leaves=12):
    return st.recursive(
        SCALAR,
        lambda ch: st.one_of(st.lists(ch, max_size=4), st.dictionaries(KEYS, ch, max_size=4)),
        max_leaves=max_leaves,
    )


def json_object(max_leaves=12):
    return st.dictionaries(KEYS, json_value(max_leaves), max_size=5)


def credential_text():
    """User names and passwords: any unicode, empty, very long, look-alikes."""
    return st.one_of(
        st.sampled_from(["", "a", "user@example.com", "great_password", "pässwörd", "p w", "密码",
                         "a" * 64, "x" * 65, "🔑", "\n", '"\\', "%41", "admin"]),
        TEXT,
        st.text(alphabet=st.characters(min_codepoint=33, max_codepoint=126), min_size=1, max_size=40),
    )


def floats_between(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False)
