"""The operations of ops.py, for values that hold tables, objects of any class or callables."""
import copy
import importlib.util
import itertools
import os
import warnings

import callable_ops
import frame_ops
import object_ops
import ops

COUNT = itertools.count()


def frames(value, **kw):
    warnings.simplefilter("ignore")
    return frame_ops.FrameBuilder().value(value), frame_ops.plain(value)


def objects(value, **kw):
    told = copy.deepcopy(value)
    return object_ops.ObjectBuilder().value(told), told


def callables(value, scratch, **kw):
    fns = callable_ops.functions(value, [])
    name = f"called_{next(COUNT)}"
    path = os.path.join(scratch, name + ".py")
    with open(path, "w", encoding="utf-8") as file:
        file.write(callable_ops.HEAD + "".join(callable_ops.source(f"f{i}", fn) for i, fn in enumerate(fns)))
    spec = importlib.util.spec_from_file_location(name, path)
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    return callable_ops.CallBuilder([getattr(module, f"f{i}") for i in range(len(fns))]).value(value), value


MAKE = {"frames": frames, "objects": objects, "callables": callables}
SEEN = {"frames": lambda x: repr(frame_ops.seen(x)), "objects": object_ops.state, "callables": lambda x: ""}


def known(req):
    """The catalogue of objects is shorter than the numbers that are asked for."""
    return req["kind"] != "objects" or not any(x.isdigit() and int(x) >= len(object_ops.PLAIN) for x in object_ops.strings(req["value"]))


def op_any_core(req, scratch):
    return ops.op_core(req, scratch, MAKE[req["kind"]]) if known(req) else None


def op_any_pure(req, scratch):
    return ops.op_pure(req, scratch, MAKE[req["kind"]], SEEN[req["kind"]]) if known(req) else None


def op_any_history(req, scratch):
    return ops.op_history(req, scratch, MAKE[req["kind"]]) if known(req) else None
