"""Objects of all kinds of classes, by name."""
import abc
import argparse
import array
import ast
import asyncio
import builtins
import collections
import configparser
import contextlib
import contextvars
import csv
import ctypes
import dataclasses
import datetime
import decimal
import email.message
import enum
import fractions
import functools
import gc
import glob
import gzip
import hashlib
import io
import ipaddress
import itertools
import json
import logging
import math
import operator
import os
import pathlib
import queue
import random
import re
import socket
import string
import struct
import sys
import tempfile
import threading
import time
import types
import typing
import urllib.parse
import uuid
import weakref
import xml.etree.ElementTree
import zipfile
import zoneinfo

import lazy_type_hint
import numpy as np
import pandas as pd
import yaml

from build import Builder, MyFrozen, strategies
from extract import extract
from ops import NOMOD, can_exec


@dataclasses.dataclass
class Data:
    x: int = 1


@dataclasses.dataclass(frozen=True, order=True)
class Frozen:
    x: int = 1


class Point(typing.NamedTuple):
    x: int
    y: str


Old = collections.namedtuple("Old", "a b c")


class Level(enum.Enum):
    LOW = 1


class Mode(enum.Flag):
    READ = 1
    WRITE = 2


class Code(enum.IntEnum):
    OK = 200


class Text(str, enum.Enum):
    A = "a"


class Meta(type):
    def __eq__(cls, other):
        return cls is other

    def __hash__(cls):
        return 1

    def __iter__(cls):
        raise RuntimeError("not to be iterated")

    def __len__(cls):
        raise RuntimeError("not to be measured")

    def __call__(cls, *args):
        return super().__call__(*args)


class WithMeta(metaclass=Meta):
    pass


class Abstract(abc.ABC):
    @abc.abstractmethod
    def f(self):
        ...


class Generic(typing.Generic[typing.TypeVar("T")]):
    pass


class Slots:
    __slots__ = ("x",)


class Rude:
    """Nothing can be asked to it."""

    def _no(self, *args):
        raise RuntimeError("leave me alone")

    __eq__ = __ne__ = __lt__ = __bool__ = __len__ = __iter__ = __repr__ = __str__ = __contains__ = __getitem__ = __hash__ = _no
    __format__ = __call__ = __index__ = __int__ = __setattr__ = __delattr__ = _no


class AlwaysEqual:
    def __eq__(self, other):
        return True

    def __hash__(self):
        return 0


class NeverEqual:
    def __eq__(self, other):
        return False

    __hash__ = None


class Anything:
    """It seems to have every attribute."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return self


class Countdown:
    """Iterator of its own."""

    def __init__(self, *xs):
        self.xs = list(xs)

    def __iter__(self):
        return self

    def __next__(self):
        if not self.xs:
            raise StopIteration
        return self.xs.pop(0)


class OnlyIterable:
    def __iter__(self):
        return iter([1])


class OnlyNext:
    def __next__(self):
        return 1


class Window(collections.abc.Sequence):
    def __getitem__(self, i):
        return [1, 2][i]

    def __len__(self):
        return 2


class Table(collections.abc.Mapping):
    def __getitem__(self, k):
        return 1

    def __iter__(self):
        return iter(["a"])

    def __len__(self):
        return 1


class MyInt(int):
    pass


class MyFloat(float):
    pass


class MyBytes(bytes):
    pass


class MyError(ValueError):
    pass


class MyModule(types.ModuleType):
    pass


class MyFile(io.StringIO):
    pass


class MyRaw(io.RawIOBase):
    pass


class MyList(list):
    def __eq__(self, other):
        return True

    __hash__ = None


class MyDict(dict):
    def __missing__(self, key):
        return 1


class Attrs(dict):
    __getattr__ = dict.get


class MyArray(np.ndarray):
    pass


class Outer:
    class Inner:
        pass


def local():
    class Local:
        pass

    return Local()


class Partial(functools.partial):
    pass


def gen(*xs):
    yield from xs


I = {"k": "leaf", "t": "int", "xs": [], "ks": []}
S = {"k": "leaf", "t": "str", "xs": [], "ks": []}
F = {"k": "leaf", "t": "float", "xs": [], "ks": []}
N = {"k": "leaf", "t": "bool", "xs": [], "ks": []}


def tup(*xs):
    return {"k": "tuple", "t": "", "xs": list(xs), "ks": []}


def ks(*names):
    return [{"t": "str", "s": n} for n in names]


IK = [{"t": "int", "s": ""}]
FUNCTIONS = ["license", "input", "print", "id", "open", "copyright", "iter", "hash", "exit", "Ellipsis"]  # builtins that are no classes, as names of classes
HIDING = ["Warning", "filter", "int", "dict", "str", "range", "object", "type", "list", "ValueError", "mappingproxy", "ndarray", "NoneType", "function", "float"]
SAME = [((), ()), ((int,), (3,)), ((Exception,), ()), ((types.ModuleType,), ("x",)), ((io.StringIO,), ()), ((str,), ("x",)), ((Data,), ())]  # one name
PLAIN = [  # without contents
    None, True, 3, 2.5, 1j, "x", b"x", bytearray(b"x"), memoryview(b"x"), range(3), slice(1), ..., NotImplemented, object(), ValueError(1), KeyError("a"),
    StopIteration(), OSError(2, "x"), ExceptionGroup("x", [ValueError()]), MyError(), KeyboardInterrupt(), int, str, type, object, list, type(None), type(...),
    ValueError, Level, Data, Point, WithMeta, Abstract, Generic, MyInt, Meta, enum.Enum, collections.OrderedDict, property, staticmethod, super, Exception,
    Data(), Frozen(), Level.LOW, Mode.READ | Mode.WRITE, Code.OK, Text.A, WithMeta(), Generic(), Slots(), Rude(), AlwaysEqual(), NeverEqual(), Anything(),
    OnlyIterable(), OnlyNext(), Window(), Table(), MyInt(3), MyFloat(2), MyBytes(b"x"), local(), Outer.Inner(), Outer.Inner, property(len),
    datetime.date(2020, 1, 1), datetime.datetime(2020, 1, 1), datetime.timedelta(1), datetime.timezone.utc, datetime.time(1), zoneinfo.ZoneInfo("UTC"),
    decimal.Decimal(1), fractions.Fraction(1, 2), uuid.UUID(int=1), pathlib.Path("x"), pathlib.PurePosixPath("x"), re.compile("x"), re.match("x", "x"),
    collections.deque([1]), collections.ChainMap({}), collections.UserDict({"a": 1}), collections.UserList([1]), collections.UserString("x"), array.array("i", [1]),
    {}.keys(), {}.values(), {}.items(), types.SimpleNamespace(a=1), functools.partial(len), Partial(len), operator.itemgetter(1), operator.attrgetter("a"),
    weakref.ref(Data), weakref.WeakSet(), weakref.WeakValueDictionary(), typing.List[int], list[int], typing.Any, typing.Union[int, str], int | str,
    typing.TypeVar("T"), typing.Optional[int], typing.Literal[1], threading.Lock(), threading.Event(), threading.local(), queue.Queue(), logging.getLogger("x"),
    random.Random(1), hashlib.md5(b"x"), string.Template("x"), struct.Struct("i"), time.gmtime(0).__class__, sys.flags.__class__, contextlib.nullcontext(),
    contextlib.ExitStack(), contextvars.ContextVar("x"), argparse.Namespace(a=1), argparse.ArgumentParser(), configparser.ConfigParser(), ast.parse("1"),
    (lambda: 0).__code__, email.message.Message(), ipaddress.ip_address("1.1.1.1"), ipaddress.ip_network("1.1.1.0/24"), xml.etree.ElementTree.Element("a"),
    urllib.parse.urlparse("x").__class__, np.int64(1), np.float32(1), np.bool_(True), np.str_("x"), np.datetime64("2020-01-01"), np.dtype("int64"), np.float64(1),
    pd.Timestamp("2020"), pd.Timedelta(1), pd.Index([1]), pd.Interval(0, 1), pd.NA, pd.NaT, pd.Period("2020"), pd.Categorical(["a"]), np.int64, pd.DataFrame,
    os, math, lazy_type_hint, types.ModuleType("x y"), MyModule("z"), os.path, sys, yaml, np, pd,
    io.StringIO("x"), io.BytesIO(b"x"), MyFile("x"), MyRaw(), io.TextIOWrapper(io.BytesIO(b"x")), io.BufferedReader(io.BytesIO(b"x")),
    np.array([1]), np.array([1.5]), np.array(["a"]), np.array([True]), np.array([b"a"]), np.array([1], dtype="int8"), np.array([1], dtype="uint16"),
    np.array([1j]), np.array([None]), np.array(["2020-01-01"], dtype="datetime64[D]"), np.array([1], dtype="timedelta64[s]"), np.array(5), np.zeros((2, 3)), np.zeros((0,)),
    np.zeros((2, 2, 2), dtype="float32"), np.array([1]).view(MyArray), np.ma.array([1]), np.rec.array([(1, 2)]), np.array([(1, 2)], dtype=[("a", "i4"), ("b", "f8")]),
    np.array([1], dtype=">i4"), np.float16([1]), types.MethodType, ctypes.c_int(1), type(lambda: 0),
    *(type("Same", bases, {})(*args) for bases, args in SAME), *(type("Same", bases, {}) for bases, _ in SAME),
    *(type(name, (), {})() for name in HIDING), *(type(name, (), {}) for name in HIDING), types.SimpleNamespace(), Warning(), UserWarning, Warning,
    *(type(name, (), {})() for name in FUNCTIONS), *(type(name, (), {}) for name in FUNCTIONS[:6]),
]
ListNamedSame = type("Same", (list,), {})
TupleNamedSame = type("Same", (tuple,), {})
DictNamedSame = type("Same", (dict,), {})
CountdownNamedSame = type("Same", (Countdown,), {})
FrozensetNamedSame = type("Same", (frozenset,), {})
DictNamedDict = type("dict", (dict,), {})
ListNamedList = type("list", (list,), {})
DictNamedMappingproxy = type("mappingproxy", (dict,), {})
SetNamedFrozenset = type("frozenset", (set,), {})
FrozensetNamedSet = type("set", (frozenset,), {})
SetNamedSame = type("Same", (set,), {})
FRESH = {  # made again every time: they are used up, or have contents
    "gen": (lambda: gen(1, 2), [I], []), "gen0": (gen, [], []), "iter": (lambda: iter([1, "a"]), [I, S], []), "map": (lambda: map(str, [1]), [S], []),
    "zip": (lambda: zip([1], ["a"]), [tup(I, S)], []), "enumerate": (lambda: enumerate(["a"]), [tup(I, S)], []), "filter": (lambda: filter(None, [1]), [I], []),
    "reversed": (lambda: reversed([1]), [I], []), "itertools.chain": (lambda: itertools.chain([1], ["a"]), [I, S], []), "count": (lambda: itertools.islice(itertools.count(), 3), [I], []),
    "dictiter": (lambda: iter({"a": 1}), [S], []), "csv": (lambda: csv.reader(["a,b"]), [{"k": "list", "t": "", "xs": [S], "ks": []}], []), "countdown": (lambda: Countdown(1, "a"), [I, S], []),
    "expr": (lambda: (x for x in [1.5]), [F], []), "repeat": (lambda: itertools.repeat(1, 2), [I], []), "dequeiter": (lambda: iter(collections.deque([1])), [I], []),
    "nditer": (lambda: iter(np.array([1]).tolist()), [I], []), "pairwise": (lambda: itertools.pairwise([1, 2]), [tup(I, I)], []), "striter": (lambda: iter("ab"), [S], []),
    "finditer": (lambda: (m.start() for m in re.finditer("a", "a")), [I], []), "scan": (lambda: iter(range(2)), [I], []),
    "Point": (lambda: Point(1, "a"), [I, S], []), "Old": (lambda: Old(1, 2, 3), [I, I, I], []), "struct": (lambda: time.gmtime(0), [I] * 9, []),
    "version": (lambda: sys.version_info, [I, I, I, S, I], []), "url": (lambda: urllib.parse.urlparse("x"), [S] * 6, []),
    "MyList": (lambda: MyList([1, "a"]), [I, S], []), "MyList2": (lambda: MyList([1]), [I], []), "Ordered": (lambda: collections.OrderedDict(a=1, b="x"), [I, S], ks("a", "b")),
    "Counter": (lambda: collections.Counter("a"), [I], ks("a")), "default": (lambda: collections.defaultdict(int, a=1.5), [F], ks("a")), "MyDict": (lambda: MyDict(a=1), [I], ks("a")),
    "Attrs": (lambda: Attrs(a=1), [I], ks("a")), "proxy": (lambda: types.MappingProxyType({"a": 1}), [I], ks("a")), "classdict": (lambda: types.MappingProxyType({1: "a"}), [S], IK),
    "frozen": (lambda: frozenset([1]), [I], []), "set": (lambda: {"a"}, [S], []), "emptyset": (set, [], []), "Counter2": (lambda: collections.Counter([1]), [I], IK),
    "tuple": (lambda: (1, True), [I, N], []), "DefaultNone": (lambda: collections.defaultdict(None), [], []), "stat": (lambda: tuple(os.terminal_size((1, 2))), [I, I], []),
    "SameList": (lambda: ListNamedSame([1]), [I], []), "SameTuple": (lambda: TupleNamedSame((1, "a")), [I, S], []),
    "SameDict": (lambda: DictNamedSame(a=1), [I], ks("a")), "SameIter": (lambda: CountdownNamedSame(1), [I], []),
    "Frozen": (lambda: MyFrozen([1]), [I], []), "SameFrozen": (lambda: FrozensetNamedSame(["a"]), [S], []),
    "dict": (lambda: DictNamedDict(a=1), [I], ks("a")), "list": (lambda: ListNamedList([1]), [I], []),
    "mappingproxy": (lambda: DictNamedMappingproxy(a=1), [I], ks("a")), "setfrozen": (lambda: SetNamedFrozenset([1]), [I], []),
    "frozenset": (lambda: FrozensetNamedSet([1]), [I], []), "mappingproxy1": (lambda: DictNamedMappingproxy({1: "a"}), [S], IK),
    "SameSet": (lambda: SetNamedSame([1]), [I], []),
    "size": (lambda: os.terminal_size((1, 2)), [I, I], []),
}
NAMES = [*range(len(PLAIN)), *FRESH]


def facts(x):
    cls = x if isinstance(x, type) else type(x)
    mro = type.mro(type(x)) if not isinstance(x, type) else type(x).__mro__
    it = any("__next__" in vars(c) for c in type(x).__mro__) and any("__iter__" in vars(c) for c in type(x).__mro__)
    return {"cls": type.__getattribute__(cls, "__name__"), "mro": [f"{c.__module__}.{c.__qualname__}" for c in mro],
            "builtin": vars(builtins).get(cls.__name__) is cls, "iterator": it,
            "cast": np.ndarray.dtype.__get__(x).type.__name__ if isinstance(x, np.ndarray) else ""}


class ObjectBuilder(Builder):
    def value(self, v):
        if "name" not in v:
            return super().value(v)
        name = v["name"]
        if name in FRESH:
            made, xs, keys = FRESH[name]
            x = made()
        else:
            x, xs, keys = PLAIN[name], [], []
        v.update(o=facts(x), xs=xs, ks=keys)
        v["name"] = str(name)
        return x


def state(value):
    """What can be seen of the objects: what they hold, and where files are."""
    out = []
    for x in value if isinstance(value, (list, tuple)) else value.values() if isinstance(value, dict) else [value]:
        if isinstance(x, io.IOBase) and x.seekable():
            out.append(x.tell())
        elif isinstance(x, np.ndarray):
            out.append(repr(x))
        elif isinstance(x, Countdown):
            out.append("used")
        else:
            out.append(sorted(map(str, object.__getattribute__(x, "__dict__"))) if type(x).__module__ == __name__ and "__dict__" in dir(type(x)) else "")
    return repr(out)


def op_objects(req, scratch):
    rec = {"id": req["id"], "strat": req["strat"], "cls": "Example", "err": "", "mod": NOMOD, "code": "", "exec": False, "before": "", "after": "",
           "asked": req["value"]}
    for x in strings(req["value"]):
        if x.isdigit() and int(x) >= len(PLAIN):
            return None
    rec["asked"] = json.dumps(req["value"])
    value = ObjectBuilder().value(req["value"])
    rec["value"] = req["value"]
    rec["before"] = state(value)
    try:
        rec["code"] = lazy_type_hint.LazyTypeHint(strategies(lazy_type_hint, req["strat"])).from_data(value, class_name="Example").to_string()
        rec["mod"] = extract(rec["code"])
        rec["exec"] = can_exec(rec["code"], "Example")
    except Exception as error:  # noqa: BLE001
        rec["err"] = f"{type(error).__name__}: {error}"
    rec["after"] = state(value)
    return rec


def strings(v):
    return ([str(v["name"])] if "name" in v else []) + [s for x in v["xs"] for s in strings(x)]
