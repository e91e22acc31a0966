"""from_yaml_file of both tools."""
import os
import pathlib

import lazy_type_hint
import yaml
from lazy_type_hint import LazyTypeHint, LazyTypeHintLive

from build import strategies
from extract import extract
from live_ops import wipe

NOMOD = {"imports": [], "defs": [], "junk": []}
TMP = os.environ.get("TMPDIR", "/tmp")


class LoaderError(Exception):
    pass


def make_loader(kind, original, log):
    def load(path):
        log.append(path)
        if kind == "only-original" and str(path) != str(original):
            raise LoaderError("only the original file can be read")
        with open(path, "rb") as file:
            return yaml.safe_load(file)
    return load


def abstract(data):
    """The abstract value (specs/Types.tla) of what a loader returned."""
    def val(k, t="", xs=(), ks=()):
        return {"k": k, "t": t, "xs": list(xs), "ks": list(ks)}
    if data is None:
        return val("none")
    if isinstance(data, dict):
        return val("dict", xs=[abstract(v) for v in data.values()], ks=[abstract_key(k) for k in data])
    if isinstance(data, (list, set)):
        return val(type(data).__name__, xs=[abstract(v) for v in data])
    if type(data) in (bool, int, float, str, bytes):
        return val("leaf", type(data).__name__)
    return val("inst", type(data).__name__)


def abstract_key(key):
    if isinstance(key, str):
        return {"t": "str", "s": key}
    if key is None:
        return {"t": "None", "s": ""}
    if type(key) in (bool, int, float, bytes, tuple):
        return {"t": type(key).__name__, "s": ""}
    return {"t": "inst", "s": type(key).__name__}


def op_yaml(req, scratch):
    rec = {"id": req["id"], "file": req.get("file", []), "positions": req["positions"], "strat": req["strat"], "cls": "Example",
           "err": "", "mod": NOMOD, "value": None, "file_same": True, "temps": [], "live_same": True, "paths": True,
           "text": req["text"], "code": "", "loader": req.get("loader", "plain"), "as": req.get("as", "str")}
    name = os.path.join(scratch, req.get("name", "file.yaml"))
    path = pathlib.Path(name) if rec["as"] == "Path" else name
    raw = req["text"].encode(req.get("encoding", "utf-8"), "surrogateescape")
    with open(name, "wb") as file:
        file.write(raw)
    positions = req["positions"]
    if req.get("single") and len(positions) == 1:
        positions = positions[0]
    elif not positions:
        positions = None
    original = make_loader("plain", path, [])(path)
    rec["value"] = abstract(original)
    left = set(os.listdir(TMP))
    strat = strategies(lazy_type_hint, req["strat"])
    log = []
    try:
        tree = LazyTypeHint(strat).from_yaml_file(make_loader(rec["loader"], path, log), path, class_name="Example",
                                                  comments_are=positions)
        rec["code"] = tree.to_string()
        rec["mod"] = extract(rec["code"])
        if req.get("live"):
            wipe()
            data = LazyTypeHintLive(strat).from_yaml_file(make_loader(rec["loader"], path, log), path, class_name="Example",
                                                          comments_are=positions)
            rec["live_same"] = repr(data) == repr(original)
            wipe()
    except Exception as error:  # noqa: BLE001
        rec["err"] = f"{type(error).__name__}: {error}"
    rec["paths"] = path in log and all(type(p) is type(path) for p in log)
    rec["temps"] = sorted(set(os.listdir(TMP)) - left)
    with open(name, "rb") as file:
        rec["file_same"] = file.read() == raw
    os.remove(name)
    return rec
