"""Concrete Python values for the abstract ones of specs/Types.tla (and back)."""
import collections
import datetime
import decimal
import enum
import fractions
import io
import json as _json
import os as _os
import string as _string
import uuid
import zlib
from types import MappingProxyType, ModuleType

import numpy as np


class Foo:
    pass


class Bar:
    """Hashable, equal only to itself."""


class Color(enum.IntEnum):
    RED = 1
    BLUE = 2


class MyStr(str):
    pass


class MyList(list):
    pass


class MyTuple(tuple):  # such as the named ones
    pass


class MySet(set):
    pass


class MyModule(ModuleType):
    pass


class MyFrozen(frozenset):
    pass


class MyDict(dict):
    pass


def _gen(xs):
    yield from xs


# Other ways to write the same abstract containers
VARIANTS = {
    "plain": {},
    "std": {"dict": collections.OrderedDict, "iter": _gen},
    "default": {"dict": lambda d: collections.defaultdict(int, d), "iter": lambda xs: map(lambda x: x, xs)},
    "sub": {"dict": MyDict, "list": MyList, "set": MySet, "frozenset": MyFrozen,
            "tuple": MyTuple},
}
# Objects of different classes that are described alike, mixed within the same data
MIXED = {kind: [v[kind] for v in VARIANTS.values() if kind in v] for kind in ("dict", "list", "set", "frozenset", "tuple", "iter")}


def _typed(x: int, *, y: str = "a") -> str:
    return y * x


def _plain(a, b=1, *args, **kwargs):
    return a


def _none(a):
    a.x = 1


FIXED = {
    "ModuleType": [_os, _json, _string, MyModule("x")],
    "TextIO": [io.StringIO("a"), io.TextIOWrapper(io.BytesIO(b"b"))],
    "BinaryIO": [io.BytesIO(b"a"), io.BufferedReader(io.BytesIO(b"b"))],
    "proto:(x: int, *, y: str='a') -> str": [_typed],
    "proto:(a, b=1, *args, **kwargs) -> Any": [_plain],
    "proto:(a) -> None": [_none],
    "Callable": [len, "".join],
    "Callable[[Any], Any]": [lambda x: x, lambda y: y],
    "Callable[[], Any]": [lambda: 1],
}
INST = {
    "Foo": lambda c: Foo(),
    "Bar": lambda c: Bar(),
    "date": lambda c: datetime.date.fromordinal(700000 + c),
    "timedelta": lambda c: datetime.timedelta(days=c),
    "Color": lambda c: list(Color)[c % 2],
    "MyStr": lambda c: MyStr(c),
    "deque": lambda c: collections.deque([c]),
    "UUID": lambda c: uuid.UUID(int=c),
    "Fraction": lambda c: fractions.Fraction(c, 7919),
    "Decimal": lambda c: decimal.Decimal(c) + decimal.Decimal("0.25"),
    "NDArray[np.int64]": lambda c: np.array([c]),
    "NDArray[np.float64]": lambda c: np.array([c + 0.5]),
    "NDArray[np.bool_]": lambda c: np.array([True]),
}
CLS = {"int": int, "str": str, "list": list, "ValueError": ValueError}
UCLS = {"Foo": Foo, "Bar": Bar, "date": datetime.date}
LEAF = {
    "int": lambda c: c + 2,
    "float": lambda c: c + 0.5,
    "str": lambda c: f"s{c}",
    "bool": lambda c: c % 2 == 0,
    "bytes": lambda c: b"b%d" % c,
    "complex": lambda c: complex(0, c + 2),
    "range": lambda c: range(c + 1),
    "slice": lambda c: slice(c),
    "bytearray": lambda c: bytearray(c),
    "memoryview": lambda c: memoryview(b"%d" % c),
    "ValueError": lambda c: ValueError(c),
    "object": lambda c: object(),
}
# Objects whose contents may mislead: falsy, equal to each other, huge, or texts that look like code
EDGE = {
    "int": [0, -1, 1, -2, 10**30, 2**63, 8],
    "float": [0.0, -0.0, float("nan"), float("inf"), 1.0, -1.0, 1e300],
    "str": ["", " ", "\n", "=", "a = b", "class A:", "x" * 5000, "'", '"""', "\\", "{key}", "%s", "Any", "None", "\ud800", "é", "\0", "->", ": ", "int"],
    "bytes": [b"", b"\xff", b"a"],
    "complex": [0j, 1 + 0j, complex("nan")],
    "range": [range(0), range(5, 1), range(10**9)],
    "slice": [slice(None), slice(1, 2, 3)],
    "bytearray": [bytearray(), bytearray(b"a")],
    "memoryview": [memoryview(b""), memoryview(b"abc")],
    "bool": [False, True],
}


class Builder:
    def __init__(self, variant="plain", start=0):
        self.c = start
        self.variant = variant
        self.make = VARIANTS.get(variant, {})
        self.distinct = 0  # Within the elements of a set
        self.made = {}

    def wrap(self, kind, plain):
        if self.variant == "mix" and kind in MIXED:
            other = ([None] + MIXED[kind])[zlib.crc32(b"%d" % self.c) % (len(MIXED[kind]) + 1)]
            return other(plain) if other else iter(plain) if kind == "iter" else plain
        return self.make[kind](plain) if kind in self.make else plain

    def key(self, key):
        self.c += 1
        t = key["t"]
        if t == "str":
            return key["s"]
        if t == "None":
            return None
        if t == "tuple":
            return (self.c,)
        if t == "inst":
            return INST[key["s"]](self.c)
        if self.variant == "edge" and t in ("int", "bytes"):
            return -self.c if t == "int" else b"\0" * self.c
        return LEAF[t](self.c)

    def value(self, v):
        """The object; `shared` uses one for all the equal values that have no state of their own."""
        if self.variant != "shared" or self.distinct:
            return self.new(v)
        tag = repr(v)
        if tag not in self.made or "'iter'" in tag:
            self.made[tag] = self.new(v)
        return self.made[tag]

    def new(self, v):
        self.c += 1
        k, t = v["k"], v["t"]
        if "txt" in v:  # a string whose contents matter
            return v["txt"]
        if k == "leaf":
            if self.variant == "edge" and t in EDGE and not self.distinct:
                return EDGE[t][self.c % len(EDGE[t])]
            return LEAF[t](self.c)
        if k == "none":
            return None
        if k == "inst":
            return INST[t](self.c)
        if k == "fixed":
            return FIXED[t][self.c % len(FIXED[t])]
        if k == "cls":
            return CLS[t]
        if k == "ucls":
            return UCLS[t]
        if k in ("dict", "mproxy"):
            dct = {}
            for key, val in zip(v["ks"], v["xs"]):
                dct[self.key(key)] = self.value(val)
            assert len(dct) == len(v["ks"]), v
            return self.wrap("dict", dct) if k == "dict" else MappingProxyType(dct)
        self.distinct += k in ("set", "frozenset")
        xs = [self.value(x) for x in v["xs"]]
        self.distinct -= k in ("set", "frozenset")
        if k == "list":
            return self.wrap(k, xs)
        if k == "tuple":
            return self.wrap(k, tuple(xs))
        if k == "iter":
            return self.wrap(k, xs) if k in self.make or self.variant == "mix" else iter(xs)
        out = (set if k == "set" else frozenset)(xs)
        assert len(out) == len(xs), v
        return self.wrap(k, out)


def strategies(module, s):
    return module.ParsingStrategies(
        list_strategy=s["list"],
        tuple_size_strategy=s["tuple"],
        dict_strategy=s["dict"],
        typed_dict_read_only_values=s["ro"],
        min_height_to_define_type_alias=s["min"],
        check_max_n_elements_within_container=s["limit"] or None,
        merge_different_typed_dicts_if_similarity_above=s["thr"],
        key_used_as_doc=s.get("doc", ""),
        pandas_strategies=s.get("pandas", "Full type hint"),
    )
