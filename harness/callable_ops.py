"""Callables written from their description (specs/Callables.tla), so that their source is there to be read."""
import importlib.util
import os
import textwrap

from build import strategies
import build
import lazy_type_hint
from extract import extract
from ops import NOMOD

HEAD = '''
import asyncio, functools, math
from typing import *
from collections.abc import Iterable as It

class Odd:
    pass

ODD = Odd()

def passing(fn):
    @functools.wraps(fn)
    def inner(*args, **kwargs):
        x = fn(*args, **kwargs)
        return x
    return inner
'''

def written(p):
    star = {"va": "*", "vk": "**"}.get(p["pk"], "")
    dflt = "" if p["dflt"] == "" else "=" + (p["odd"] if p["dflt"] == "?" else p["dflt"])
    return star + p["name"] + (f": {p['ann']}" if p["ann"] else "") + dflt


def parameters(ps):
    out = []
    for i, p in enumerate(ps):
        if p["pk"] == "ko" and (i == 0 or ps[i - 1]["pk"] in ("po", "pk")):
            out.append("*")
        out.append(written(p))
        if p["pk"] == "po" and (i == len(ps) - 1 or ps[i + 1]["pk"] != "po"):
            out.append("/")
    return ", ".join(out)


def source(name, fn):
    """Source that leaves the callable in a variable."""
    kind = fn["kind"]
    if kind == "builtin":
        return f"{name} = {fn['body']}\n"
    args, ret = parameters(fn["params"]), f" -> {fn['ret']}" if fn["ret"] else ""
    if kind == "lambda":
        return f"{name} = lambda {args}: {fn['body']}\n"
    word = "async def" if kind in ("async", "asyncmethod") else "def"
    code = f"{word} {name}({args}){ret}:\n{textwrap.indent(fn['body'], '    ')}\n"
    if kind == "wrapped":
        return "@passing\n" + code
    if kind in ("def", "async"):
        return code
    if kind == "nosource":
        return f"space = dict(globals())\nexec({code!r}, space)\n{name} = space[{name!r}]\n"
    deco = {"static": "@staticmethod\n", "rawstatic": "@staticmethod\n", "classm": "@classmethod\n", "rawclassm": "@classmethod\n"}.get(kind, "")
    got = {"static": f"K_{name}.{name}", "unbound": f"K_{name}.{name}", "method": f"K_{name}().{name}", "asyncmethod": f"K_{name}().{name}",
           "classm": f"K_{name}.{name}"}.get(kind, f"K_{name}.__dict__[{name!r}]")
    return f"class K_{name}:\n{textwrap.indent(deco + code, '    ')}\n{name} = {got}\n"


def functions(value, found):
    if "fn" in value:
        found.append(value["fn"])
    for x in value["xs"]:
        functions(x, found)
    return found


class CallBuilder(build.Builder):
    def __init__(self, made, **kw):
        super().__init__(**kw)
        self.made = made

    def value(self, v):
        return self.made.pop(0) if "fn" in v else super().value(v)


def op_callables(req, scratch):
    rec = {"id": req["id"], "value": req["value"], "strat": req["strat"], "cls": "Example", "err": "", "mod": NOMOD, "code": "", "source": "",
           "apart": req["apart"]}
    fns = functions(req["value"], [])
    rec["source"] = ("from __future__ import annotations\n" if req["quoted"] else "") + HEAD + "".join(
        source(f"f{i}", fn) for i, fn in enumerate(fns))
    path = os.path.join(scratch, f"made_{req['id']}.py")
    with open(path, "w", encoding="utf-8") as file:
        file.write(rec["source"])
    spec = importlib.util.spec_from_file_location(f"made_{req['id']}", path)
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    value = CallBuilder([getattr(module, f"f{i}") for i in range(len(fns))]).value(req["value"])
    try:
        rec["code"] = lazy_type_hint.LazyTypeHint(strategies(lazy_type_hint, req["strat"])).from_data(
            value, class_name="Example").to_string()
        rec["mod"] = extract(rec["code"])
    except Exception as error:  # noqa: BLE001
        rec["err"] = f"{type(error).__name__}: {error}"
    os.remove(path)
    return rec
