"""LazyTypeHintLive: histories of events, and crashes in the middle of one."""
import ast
import json
import os
import shutil
import signal
import sys
import traceback

import lazy_type_hint
import yaml
from lazy_type_hint import LazyTypeHint, LazyTypeHintLive

import kind_ops
from build import Builder, strategies
from extract import extract, sig_of

PKG = os.path.realpath(os.environ["PKG"])
LIVE = os.path.realpath(sys.modules[LazyTypeHintLive.__module__].__file__)
PYI = LIVE + "i"
METHODS = ("from_data", "from_yaml_file")


def package_files():
    found = set()
    for root, dirs, files in os.walk(PKG):
        dirs[:] = [d for d in dirs if d != "__pycache__"]
        found.update(os.path.join(root, f) for f in files)
        found.update(os.path.join(root, d) + os.sep for d in dirs)
    return found


INITIAL = package_files()


def wipe():
    """Bring the package back to how it was."""
    for path in sorted(package_files() - INITIAL, reverse=True):
        if path.endswith(os.sep):
            shutil.rmtree(path, ignore_errors=True)
        elif os.path.exists(path):
            os.remove(path)


def file_of(module):
    return os.path.join(PKG, *module.split(".")) + ".py"


def observe():
    """What a type checker can see: the interface and the classes it refers to."""
    obs = {"exists": os.path.exists(PYI), "parses": True, "methods": [], "classes": [], "imports": [], "left": []}
    obs["left"] = sorted(os.path.relpath(p, PKG) for p in package_files() - INITIAL)
    if not obs["exists"]:
        return obs
    with open(PYI, encoding="utf-8") as file:
        text = file.read()
    try:
        tree = ast.parse(text)
    except (SyntaxError, ValueError):
        obs["parses"] = False
        return obs
    for stmt in tree.body:
        if isinstance(stmt, ast.ImportFrom) and ".build" in (stmt.module or ""):
            for al in stmt.names:
                name = al.asname or al.name
                mod = {"imports": [], "defs": [], "junk": ["no file"]}
                path = file_of(stmt.module)
                if os.path.exists(path):
                    with open(path, encoding="utf-8") as file:
                        mod = extract(file.read())
                obs["imports"].append(name)
                obs["classes"].append({"name": name, "orig": al.name, "file": os.path.exists(path), "mod": mod})
    cls = [s for s in tree.body if isinstance(s, ast.ClassDef) and s.name == "LazyTypeHintLive"]
    if len(cls) != 1:
        obs["parses"] = False
        return obs
    for method in METHODS:
        overs = []
        for func in cls[0].body:
            if not isinstance(func, ast.FunctionDef) or func.name != method:
                continue
            args = func.args.posonlyargs + func.args.args + func.args.kwonlyargs
            note = next((a.annotation for a in args if a.arg == "class_name"), None)
            lit = ""
            if isinstance(note, ast.Subscript) and ast.unparse(note.value) == "Literal":
                lit = note.slice.value if isinstance(note.slice, ast.Constant) else "?"
            rest = [a.arg + ":" + (ast.unparse(a.annotation) if a.annotation else "") for a in args
                    if a.arg != "class_name"]
            overs.append({"lit": lit, "base": note is not None and ast.unparse(note) == "str",
                          "ret": ast.unparse(func.returns) if func.returns else "?", "rest": rest,
                          "over": any(ast.unparse(d) == "overload" for d in func.decorator_list)})
        obs["methods"].append({"name": method, "overs": overs})
    return obs


def yaml_text(value, doc):
    """The YAML file that holds the value, with comments by every side of the keys of the root."""
    if isinstance(value, dict):
        return "".join(f"# Above {i}\n{json.dumps(k)[1:-1]}: {json.dumps(v)}  # Note {doc}\n# Below {i}\n\n"
                       for i, (k, v) in enumerate(value.items()))
    return json.dumps(value) + "\n"


def options(ev):
    """How from_yaml_file is asked to look for the comments: by default, [], or with some positions."""
    where = ev.get("where", ["default"])
    return {} if where == ["default"] else {"comments_are": where[0] if len(where) == 1 else where or None}


class Loader:
    def __init__(self):
        self.loaded = {}

    def __call__(self, path):
        with open(path, encoding="utf-8") as file:
            self.loaded[str(path)] = yaml.safe_load(file)
        return self.loaded[str(path)]


def material(ev, scratch):
    """The object the event is about, and what the specification has to know of it."""
    if ev.get("kind", "core") == "core":
        return Builder(start=ev.get("start", 0)).value(ev["value"]), ev["value"]
    return kind_ops.MAKE[ev["kind"]](ev["value"], scratch=scratch)


def expectation(req, ev, scratch):
    """The module the rest of the package generates for the same data."""
    value, _ = material(ev, scratch)
    generator = LazyTypeHint(strategies(lazy_type_hint, ev["strat"]))
    try:
        if ev["via"] == "yaml":
            path = os.path.join(scratch, "expected.yaml")
            with open(path, "w", encoding="utf-8") as file:
                file.write(yaml_text(value, ev["doc"]))
            tree = generator.from_yaml_file(Loader(), path, class_name=ev["cls"], **options(ev))
        else:
            tree = generator.from_data(value, class_name=ev["cls"])
        return extract(tree.to_string())
    except Exception:  # noqa: BLE001
        return {"imports": [], "defs": [], "junk": ["no expectation"]}


def perform(ev, instances, scratch):
    """-> (outcome, whether what was given came back)"""
    if ev["ev"] == "reset":
        LazyTypeHintLive.reset()
        return "ok", True
    if ev["ev"] == "losepyi":
        if os.path.exists(PYI):
            os.remove(PYI)
        return "ok", True
    if ev["ev"] == "lose":
        for item in observe()["classes"]:
            if item["name"] == ev["cls"]:
                os.remove(file_of(f"lazy_type_hint.generators.build.{ev['cls']}"))
        return "ok", True
    key = json.dumps([ev["inst"], ev["mode"], ev["strat"]], sort_keys=True)
    if key not in instances:
        instances[key] = LazyTypeHintLive(strategies(lazy_type_hint, ev["strat"]), if_type_hint_exists=ev["mode"])
    value, _ = material(ev, scratch)
    try:
        if ev["via"] == "yaml":
            path = os.path.join(scratch, "live.yaml")
            with open(path, "w", encoding="utf-8") as file:
                file.write(yaml_text(value, ev["doc"]))
            loader = Loader()
            out = instances[key].from_yaml_file(loader, path, class_name=ev["cls"], **options(ev))
            with open(path, encoding="utf-8") as file:
                return "ok", out is loader.loaded[path] and out == yaml.safe_load(file)
        return "ok", instances[key].from_data(value, class_name=ev["cls"]) is value
    except Exception:  # noqa: BLE001
        return "error", True


def in_child(func):
    """Run in another process. func returns something that can be written as JSON."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            signal.alarm(60)
            payload = json.dumps(func()).encode()
            with os.fdopen(wfd, "wb") as file:
                file.write(payload)
            os._exit(0)
        except BaseException:  # noqa: BLE001
            traceback.print_exc()
            os._exit(1)
    os.close(wfd)
    with os.fdopen(rfd, "rb") as file:
        payload = file.read()
    _, status = os.waitpid(pid, 0)
    if status != 0:
        raise RuntimeError("child failed")
    return json.loads(payload)


def op_live(req, scratch):
    wipe()
    if not all(kind_ops.known(ev) for ev in req["events"] if ev.get("kind", "core") != "core"):
        return None
    rec = {"id": req["id"], "events": []}
    instances = {}
    for ev in req["events"]:
        ev = dict(ev)
        ev["expect"] = expectation(req, ev, scratch) if ev["ev"] == "gen" and ev["valid"] else {
            "imports": [], "defs": [], "junk": []}
        if ev.get("fork"):
            ev["out"], ev["same"] = in_child(lambda ev=ev: perform(ev, {}, scratch))
        else:
            ev["out"], ev["same"] = perform(ev, instances, scratch)
        ev["obs"] = observe()
        if ev.get("kind", "core") != "core":
            ev["asked"], ev["value"] = json.dumps(ev["value"]), material(ev, scratch)[1]
        rec["events"].append(ev)
    wipe()
    return rec


# -- crashes -----------------------------------------------------------------
def read_disk():
    state = {}
    for path in sorted(package_files() - INITIAL):
        if path.endswith(os.sep):
            state[path] = None
        else:
            with open(path, "rb") as file:
                state[path] = file.read()
    return state


def write_disk(state):
    wipe()
    for path, content in state.items():
        if content is None:
            os.makedirs(path, exist_ok=True)
        else:
            with open(path, "wb") as file:
                file.write(content)


def crash_points(ev, scratch):
    """Every different content of the disk while the event is performed: before and after every C call on files."""
    states = []

    def look():
        try:
            state = read_disk()
        except OSError:  # being removed
            return
        if not states or states[-1] != state:
            states.append(state)

    def tracer(frame, what, arg):
        if what in ("c_call", "c_return", "c_exception"):
            module = getattr(arg, "__module__", None)
            if module in (None, "posix", "nt", "io", "_io", "shutil"):
                sys.setprofile(None)
                look()
                sys.setprofile(tracer)

    look()
    sys.setprofile(tracer)
    try:
        perform(ev, {}, scratch)
    finally:
        sys.setprofile(None)
    look()
    return states


def op_crash(req, scratch):
    """A history; a crash at every point of its last event; what is found then, and what can still be done."""
    wipe()
    rec = {"id": req["id"], "history": [], "last": None, "points": []}
    for ev in [*req["history"], req["last"], *req["after"]]:
        if ev["ev"] == "gen":
            ev["expect"] = expectation(req, ev, scratch)
        else:
            ev["expect"] = {"imports": [], "defs": [], "junk": []}
    for ev in req["history"]:
        ev["out"], _ = perform(ev, {}, scratch)
    rec["history"], rec["last"], rec["after"] = req["history"], req["last"], req["after"]
    before = read_disk()
    states = crash_points(req["last"], scratch)
    seen = []
    for state in [before, *states]:
        if state in seen:
            continue
        seen.append(state)
        write_disk(state)
        point = {"obs": observe(), "then": []}
        for ev in [req["last"], *req["after"]]:
            write_disk(state)
            out = in_child(lambda ev=ev: [*perform(ev, {}, scratch), observe()])
            point["then"].append({"out": out[0], "obs": out[2]})
        rec["points"].append(point)
    wipe()
    return rec
