"""Tables and columns of pandas."""
import json
import warnings

import lazy_type_hint
import pandas as pd

import build
from build import strategies
from extract import extract
from ops import NOMOD, can_exec


def label(raw):
    if isinstance(raw, list):
        return tuple(label(x) for x in raw)
    if isinstance(raw, str) and raw.startswith("!"):
        return {"!float": 1.5, "!bytes": b"x", "!ts": pd.Timestamp("2020-01-01")}[raw]
    return raw


class FrameBuilder(build.Builder):
    def column(self, v, index=None):
        xs = [self.value(x) for x in v["xs"]]
        made = pd.Series(xs, dtype=object if v.get("dtype", "object") == "object" else None)
        if index:
            made.index = label_index(index)
        return made

    def value(self, v):
        if v["k"] == "series":
            return self.column(v, v.get("index"))
        if v["k"] != "frame":
            return super().value(v)
        cols = [self.column(c) for c in v["cols"]]
        labels = [label(x) for x in v["labels"]]
        made = pd.DataFrame(dict(enumerate(cols))) if cols else pd.DataFrame()
        if v["levels"]:
            made.columns = pd.MultiIndex.from_tuples(labels)
        elif cols:
            made.columns = pd.Index(labels, dtype=object, tupleize_cols=False) if v.get("loose") else pd.Index(labels)
        if v.get("index"):
            made.index = label_index(v["index"])
        return made


def label_index(raw):
    return pd.Index([label(x) for x in raw])


def seen(value):
    """Everything that can be seen of the tables within a value."""
    if isinstance(value, (pd.DataFrame, pd.Series)):
        columns = list(value.columns) if isinstance(value, pd.DataFrame) else value.name
        cells = value.values.tolist()
        return [type(value).__name__, repr(columns), repr(list(value.index)), repr(cells), str(getattr(value, "dtypes", "")), repr(value.attrs)]
    if isinstance(value, dict):
        return [seen(x) for x in value.values()]
    if isinstance(value, (list, tuple)):
        return [seen(x) for x in value]
    return None


def plain(value):
    """What the specification needs to know of a value."""
    return {"k": value["k"], "t": value["t"], "ks": value["ks"], "xs": [plain(x) for x in value["xs"]]}


def op_frames(req, scratch):
    rec = {"id": req["id"], "value": plain(req["value"]), "asked": json.dumps(req["value"]), "strat": req["strat"], "cls": "Example", "err": "", "mod": NOMOD, "code": "", "exec": False,
           "before": "", "after": ""}
    warnings.simplefilter("ignore")
    value = FrameBuilder().value(req["value"])
    rec["before"] = repr(seen(value))
    try:
        rec["code"] = lazy_type_hint.LazyTypeHint(strategies(lazy_type_hint, req["strat"])).from_data(
            value, class_name="Example").to_string()
        rec["mod"] = extract(rec["code"])
        rec["exec"] = can_exec(rec["code"], "Example")
    except Exception as error:  # noqa: BLE001
        rec["err"] = f"{type(error).__name__}: {error}"
    rec["after"] = repr(seen(value))
    return rec
