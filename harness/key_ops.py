"""What a generated module defines once imported."""
import importlib.util
import os
import sys
import types
import typing

import lazy_type_hint
import typing_extensions

from build import Builder, strategies
from extract import extract
from ops import NOMOD


def code_of(text):
    """Any text, as one that every tool can hold."""
    return text.encode("unicode_escape").decode("ascii")


def kind(k, n, as_=()):
    return {"k": k, "n": n, "as": list(as_), "fs": []}


ORIGINS = {list: "List", dict: "Dict", set: "Set", frozenset: "FrozenSet", tuple: "Tuple", type: "Type", types.MappingProxyType: "MappingProxyType"}


def live(t):
    """A type, as Python understands it."""
    if isinstance(t, str):
        return kind("fwd", t)
    if isinstance(t, typing.ForwardRef):
        return kind("fwd", t.__forward_arg__)
    if t is typing.Any:
        return kind("name", "Any")
    if t is ... :
        return kind("ell", "...")
    if typing_extensions.is_typeddict(t):
        fs = []
        for key, hint in t.__annotations__.items():
            ro = False
            while typing.get_origin(hint) in (typing.NotRequired, typing_extensions.ReadOnly):
                ro = ro or typing.get_origin(hint) is typing_extensions.ReadOnly
                hint = typing.get_args(hint)[0]
            fs.append({"key": code_of(key), "req": key in t.__required_keys__, "ro": ro, "t": live(hint)})
        if t.__required_keys__ | t.__optional_keys__ != set(t.__annotations__) or t.__required_keys__ & t.__optional_keys__:
            fs.append({"key": "?", "req": True, "ro": False, "t": kind("name", "inconsistent")})
        return {"k": "td", "n": "TypedDict", "as": [], "fs": fs}
    origin = typing.get_origin(t)
    if origin is typing.Union:
        return {"k": "union", "n": "Union", "as": [live(x) for x in typing.get_args(t)], "fs": []}
    if origin is not None:
        name = ORIGINS.get(origin, origin.__name__)
        return kind("app", name, [live(x) for x in typing.get_args(t)])
    if t is type(None):
        return kind("name", "None")
    return kind("name", {types.ModuleType: "ModuleType"}.get(t, getattr(t, "__name__", repr(t))))


def coded(value):
    """The value, with its keys in code."""
    ks = [{"t": k["t"], "s": code_of(k["s"]) if k["t"] == "str" else k["s"]} for k in value["ks"]]
    return {"k": value["k"], "t": value["t"], "ks": ks, "xs": [coded(x) for x in value["xs"]]}


def op_keys(req, scratch):
    rec = {"id": req["id"], "value": coded(req["value"]), "asked": req["value"], "strat": req["strat"], "cls": req["cls"], "err": "", "mod": NOMOD,
           "run": kind("name", "<nothing>"), "code": ""}
    path = os.path.join(scratch, "generated_keys.py")
    try:
        tree = lazy_type_hint.LazyTypeHint(strategies(lazy_type_hint, req["strat"])).from_data(
            Builder().value(req["value"]), class_name=req["cls"])
        rec["code"] = tree.to_string()
        tree.to_file(path)
        spec = importlib.util.spec_from_file_location("generated_keys", path)
        module = importlib.util.module_from_spec(spec)
        sys.modules.pop("generated_keys", None)
        spec.loader.exec_module(module)
        rec["run"] = live(getattr(module, req["cls"]))
        rec["mod"] = extract(rec["code"])
        for d in rec["mod"]["defs"]:
            for f in d["fields"]:
                f["key"] = code_of(f["key"])
    except Exception as error:  # noqa: BLE001
        rec["err"] = code_of(f"{type(error).__name__}: {error}")
    rec["asked"] = __import__("json").dumps(rec["asked"])
    return rec
