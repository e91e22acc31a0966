"""What is asked for to the public interface, and the files that come out."""
import os
import pathlib
import shutil

import lazy_type_hint
import yaml
from lazy_type_hint import LazyTypeHint, LazyTypeHintLive

from build import Builder, strategies
from live_ops import INITIAL, package_files, wipe

TMP = os.environ.get("TMPDIR", "/tmp")


def listing(root):
    """Directories and files below root, as sequences of names."""
    obs = {"dirs": [], "files": []}
    for base, dirs, files in os.walk(root):
        here = [] if base == root else os.path.relpath(base, root).split(os.sep)
        obs["dirs"] += [[*here, d] for d in dirs]
        for name in files:
            with open(os.path.join(base, name), "rb") as file:
                raw = file.read()
            try:
                content = raw.decode("utf-8")
            except UnicodeDecodeError:
                content = "not UTF-8: " + repr(raw[:50])
            obs["files"].append({"path": [*here, name], "content": content})
    return obs


ALTER = {
    "crlf": lambda raw: raw.replace(b"\n", b"\r\n"), "cr": lambda raw: raw.replace(b"\n", b"\r"), "bom": lambda raw: b"\xef\xbb\xbf" + raw,
    "longer": lambda raw: raw + b"\n# more\n" * 50, "empty": lambda raw: b"", "last": lambda raw: raw[:-1] + bytes([raw[-1] ^ 1]),
    "first": lambda raw: bytes([raw[0] ^ 1]) + raw[1:], "newline": lambda raw: raw + b"\n", "latin": lambda raw: raw.decode("utf-8").encode("latin-1", "replace"),
    "utf16": lambda raw: raw.decode("utf-8").encode("utf-16"), "spaces": lambda raw: raw.replace(b"\n", b" \n"), "form": lambda raw: raw.replace(b"\n", b"\x0c\n"),
}


def alter(path, how):
    """Somebody else changes the file, even keeping its size and its time of modification."""
    if not os.path.isfile(path):
        return
    when = os.stat(path)
    with open(path, "rb") as file:
        raw = ALTER[how](file.read() or b"x")
    with open(path, "wb") as file:
        file.write(raw)
    os.utime(path, ns=(when.st_atime_ns, when.st_mtime_ns))


def op_writes(req, scratch):
    """A history of calls to to_file."""
    rec = {"id": req["id"], "kind": "writes", "events": [], "request": req}
    root = os.path.join(scratch, "root")
    os.makedirs(root)
    trees = {}
    for ev in req["events"]:
        path = os.path.join(root, *ev["path"])
        if ev["ev"] == "alter":
            alter(path, ev["how"])
            obs = listing(root)
            text = next((f["content"] for f in obs["files"] if f["path"] == ev["path"]), "")
            rec["events"].append({"ev": "alter", "path": ev["path"], "text": text})
            continue

        def make(ev=ev):
            return LazyTypeHint(strategies(lazy_type_hint, ev["strat"])).from_data(
                Builder().value(ev["value"]), class_name=ev["cls"])
        out = {"ev": "write", "path": ev["path"], "create": ev["create"], "text": make().to_string(), "out": "ok"}
        tree = trees.setdefault(ev["tree"], make()) if ev["tree"] else make()
        out["before"] = tree.to_string() if ev["ask"] else out["text"]
        if ev["as"] == "relative":
            path = os.path.relpath(path)
        target = pathlib.Path(path) if ev["as"] == "Path" else path
        try:
            if ev["create"]:
                tree.to_file(target, create_non_existing_dir=True)
            elif ev["ask"]:
                tree.to_file(target, create_non_existing_dir=False)
            else:
                tree.to_file(target)
        except Exception:  # noqa: BLE001
            out["out"] = "error"
        out["obs"] = listing(root)
        rec["events"].append(out)
    shutil.rmtree(root)
    return rec


def snapshot(scratch):
    found = {path: os.path.getmtime(path) for path in package_files() - INITIAL}
    for root in (scratch, TMP):
        for base, _, files in os.walk(root):
            for name in files:
                with open(os.path.join(base, name), "rb") as file:
                    found[os.path.join(base, name)] = file.read()
    return found


def op_ask(req, scratch):
    """A single request, valid or not."""
    rec = {"id": req["id"], "kind": "ask", "out": "ok", "effects": [], "err": ""}
    rec.update({k: req[k] for k in ("via", "cls", "strat", "ext", "exists", "positions")})
    wipe()
    name = os.path.join(scratch, "file" + req["ext"])
    if req["exists"]:
        with open(name, "w", encoding="utf-8") as file:
            file.write("a: 1  # comment\nb: {c: [1, 2]}\n")
    before = snapshot(scratch)

    def loader(path):
        with open(path, encoding="utf-8") as file:
            return yaml.safe_load(file)

    try:
        s = {**req["strat"], "limit": req["strat"]["limit"]}
        strat = lazy_type_hint.ParsingStrategies(
            list_strategy=s["list"], tuple_size_strategy=s["tuple"], dict_strategy=s["dict"],
            pandas_strategies=s["pandas"], min_height_to_define_type_alias=s["min"],
            merge_different_typed_dicts_if_similarity_above=s["thr"],
            check_max_n_elements_within_container=None if s["nolimit"] else s["limit"])
        tool = (LazyTypeHintLive if "live" in req["via"] else LazyTypeHint)(strat)
        if "yaml" in req["via"]:
            out = tool.from_yaml_file(loader, name, class_name=req["cls"], comments_are=req["positions"] or None)
        else:
            out = tool.from_data({"a": [1], "b": {"c": 1}}, class_name=req["cls"])
        if "live" not in req["via"]:
            out.to_string()
    except Exception as error:  # noqa: BLE001
        rec["out"], rec["err"] = "error", f"{type(error).__name__}: {error}"
    after = snapshot(scratch)
    rec["effects"] = sorted(os.path.basename(p) for p in before.keys() | after.keys() if before.get(p) != after.get(p))
    wipe()
    if req["exists"]:
        os.remove(name)
    return rec
