"""The operations drive.py can be asked for. Every op returns the record TLC will judge."""
import io
import json
import types

import lazy_type_hint
import numpy as np
import pandas as pd

from build import Builder, strategies
from extract import extract

NOMOD = {"imports": [], "defs": [], "junk": []}


def render(value, strat, cls):
    tree = lazy_type_hint.LazyTypeHint(strategies(lazy_type_hint, strat)).from_data(value, class_name=cls)
    return tree.to_string()


def can_exec(code, cls):
    if "pd.Series[" in code:
        return True
    space = {"__name__": "generated"}
    try:
        exec(compile(code, "<generated>", "exec"), space)  # noqa: S102
    except Exception:  # noqa: BLE001
        return False
    return cls in space


def plain(value, variant="plain", start=0, **kw):
    """The object that an abstract value stands for, and what the specification has to know of it."""
    return Builder(variant, start).value(value), value


def op_core(req, scratch, make=plain):
    """One inference, plus the ones of the inputs that must be given the same meaning."""
    rec = {"id": req["id"], "kind": req.get("kind", "core"), "value": req["value"], "strat": req["strat"], "cls": req["cls"], "err": "",
           "mod": NOMOD, "alt": [], "exec": False, "code": "", "variant": req.get("variant", "plain")}
    value, told = make(req["value"], variant=rec["variant"], scratch=scratch)
    rec["value"] = told
    try:
        code = render(value, req["strat"], req["cls"])
        rec["code"] = code
        rec["mod"] = extract(code)
        rec["exec"] = rec["kind"] == "callables" or can_exec(code, req["cls"])
        rec["alts"] = json.dumps(req.get("alts", []))  # for a replay
        for alt in req.get("alts", []):
            value, _ = make(alt.get("value", req["value"]), variant=alt.get("variant", rec["variant"]), start=alt.get("start", 0), scratch=scratch)
            rec["alt"].append(extract(render(value, alt.get("strat", req["strat"]), req["cls"])))
    except Exception as error:  # noqa: BLE001
        rec["err"] = f"{type(error).__name__}: {error}"
    return rec


def fingerprint(value, path="", seen=None):
    """Identity and contents of everything reachable, in order."""
    out = [f"{path} {type(value).__name__} {id(value)}"]
    if isinstance(value, dict) or type(value) is types.MappingProxyType:
        for idx, (key, val) in enumerate(value.items()):
            out.append(f"{path}/{idx} key {key!r}")
            out += fingerprint(val, f"{path}/{idx}")
    elif isinstance(value, (list, tuple, set, frozenset)):
        for idx, val in enumerate(value):
            out += fingerprint(val, f"{path}/{idx}")
    elif isinstance(value, (pd.DataFrame, pd.Series, pd.Index, np.ndarray)):
        out.append(path + " " + repr(value))
    elif hasattr(value, "__dict__") and not callable(value) and type(value).__module__ == "build":
        out.append(path + " " + repr(sorted(vars(value))))
    elif isinstance(value, (str, int, float, bytes, bytearray)):
        out.append(path + " " + repr(value))
    elif isinstance(value, io.IOBase) and not value.closed and value.seekable():
        out.append(path + f" at {value.tell()}")
    return out


def op_pure(req, scratch, make=plain, seen=lambda value: ""):
    """Inspect a value, possibly many times, and compare what can be seen of it before and after."""
    rec = {"id": req["id"], "kind": req.get("kind", "core"), "value": req["value"], "strat": req["strat"], "before": "", "after": "", "err": "",
           "variant": req.get("variant", "plain")}
    value, rec["value"] = make(req["value"], variant=rec["variant"], scratch=scratch)
    strat = strategies(lazy_type_hint, req["strat"])
    rec["before"] = "\n".join([*fingerprint(value), seen(value), repr(strat)])
    try:
        for call in req["calls"]:
            tree = lazy_type_hint.LazyTypeHint(strat).from_data(value, class_name="Example")
            for flag in call:
                tree.to_string(include_imports=flag)
    except Exception as error:  # noqa: BLE001
        rec["err"] = f"{type(error).__name__}: {error}"
    rec["after"] = "\n".join([*fingerprint(value), seen(value), repr(strat)])
    return rec


def op_history(req, scratch, make=plain):
    """A history of renderings: the same value described by several trees, each rendered several times."""
    rec = {"id": req["id"], "kind": req.get("kind", "core"), "value": req["value"], "strat": req["strat"], "events": [], "err": "",
           "variant": req.get("variant", "plain")}
    try:
        generator = lazy_type_hint.LazyTypeHint(strategies(lazy_type_hint, req["strat"]))
        trees = {}
        for ev in req["events"]:
            if ev["what"] == "noise":  # an unrelated value, described by the same generator
                generator.from_data(Builder().value(ev["value"]), class_name="Other").to_string()
                continue
            if ev["tree"] not in trees:
                value, rec["value"] = make(req["value"], variant=rec["variant"], scratch=scratch)
                trees[ev["tree"]] = generator.from_data(value, class_name="Example")
            tree = trees[ev["tree"]]
            text = tree.to_string(include_imports=ev["imports"])
            rec["events"].append({"tree": ev["tree"], "imports": ev["imports"], "text": text, "mod": extract(text)})
    except Exception as error:  # noqa: BLE001
        rec["err"] = f"{type(error).__name__}: {error}"
    return rec
