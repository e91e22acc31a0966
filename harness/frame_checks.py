"""Tables within the data (Types.tla, JudgeFrames.tla)."""
import json

import gen

STR = ["a", "b", "c", "A", "x-y", "with space", "", "a b", "class", "1", "é", "it's", "q\"q", "__len__", "shape", "name", "\n", "int", "a.b", "==", "={", "7", "-1", "True", "None", "5", "nan", "0"]
INT = [0, 1, 2, 7, -1, 100]


def names(rng, n, kind):
    """Names of columns: what pandas is given."""
    if kind == "str":
        return rng.sample(STR, n)
    if kind == "int":
        return rng.sample(INT, n)
    if kind == "bool":
        return rng.sample([True, False], min(n, 2))
    if kind == "clash":  # different names written with the same text
        return rng.sample([5, "5", 7, "7", "True", True, "-1", -1, "a", "'a'"], n)
    return rng.sample([*STR[:8], 5, 6, 7, True, False], n)


def cell(rng, kind):
    if kind in ("int", "float", "str", "bool"):
        return gen.mk("leaf", kind)
    if kind == "mixed":
        return gen.leaf(rng, 0.9)
    return gen.value(rng, 2, iters=False)


def column(rng, rows):
    kind = rng.choice(["int", "float", "str", "bool", "mixed", "mixed", "any"])
    made = gen.mk("series", xs=[cell(rng, kind) for _ in range(rows)])
    if kind == "mixed" and rng.random() < 0.3:
        made["xs"] = [rng.choice([gen.mk("none"), gen.mk("leaf", "int"), gen.mk("leaf", "float")]) for _ in range(rows)]
    return {**made, "dtype": "natural" if kind in ("int", "float", "str", "bool") and rng.random() < 0.7 else "object"}


def index(rng, rows):
    if rng.random() < 0.5 or not rows:
        return []
    kind = rng.choice(["str", "int", "float", "same"])
    if kind == "same":
        return ["x"] * rows
    return {"str": [f"r{i}" for i in range(rows)], "int": rng.sample(range(5, 50), rows), "float": ["!float"] * rows}[kind]


def written(raw):
    return repr(tuple(raw)) if isinstance(raw, list) else repr(raw)


def key(raw):
    if isinstance(raw, str) and raw.startswith("!"):
        return {"t": "other", "s": raw}
    if isinstance(raw, list):
        return {"t": "tuple" if len(raw) > 1 and not str(raw[0]).startswith("!") and raw[0] is not None else "other", "s": written(raw)}
    if raw is None:
        return {"t": "other", "s": "None"}
    return {"t": "str", "s": repr(raw)}


def nested(cols):
    """The table, or series, that holds these columns [(names that are left, series)]."""
    first, groups = None, {}
    for labels, series in cols:
        groups.setdefault((type(labels[0]).__name__, labels[0]), []).append((labels[1:], series))
    ks, xs = [], []
    for (_, first), inner in groups.items():
        ks.append(key(first))
        xs.append(chosen(inner))
    return gen.mk("frame", repr([c[0] for c in cols]), xs, ks)


def chosen(inner):
    """What pandas returns when choosing these columns by their first name."""
    if len(inner) == 1 and not inner[0][0]:
        return inner[0][1]
    if len(inner) == 1 and inner[0][0][0] == "":
        return chosen([(inner[0][0][1:], inner[0][1])])
    return nested(inner)


def frame(rng, rows=None):
    rows = rng.choice([0, 1, 2, 3, 4]) if rows is None else rows
    n = rng.choice([0, 1, 2, 2, 3, 4])
    x = rng.random()
    extra = {"levels": 0, "index": index(rng, rows)}
    if x < 0.5 or n == 0:
        labels = names(rng, n, rng.choice(["str", "str", "str", "int", "bool", "any", "clash"]))
        if rng.random() < 0.1 and labels:
            labels.append(rng.choice(labels))
        if rng.random() < 0.1:
            labels.insert(rng.randrange(len(labels) + 1), rng.choice(["!float", "!bytes", "!ts", None]))
        extra["loose"] = True
        cols = [column(rng, rows) for _ in labels]
        made = gen.mk("frame", repr(labels), cols, [key(raw) for raw in labels])
    elif x < 0.6:  # tuples here and there
        labels = [*names(rng, n, "str"), *rng.sample([["a", "b"], ["a", "c"], [3, "b"], ["z", 1, 2], ["!float", "x"]], rng.choice([1, 2]))]
        rng.shuffle(labels)
        extra["loose"] = True
        cols = [column(rng, rows) for _ in labels]
        made = gen.mk("frame", repr(labels), cols, [key(raw) for raw in labels])
    elif x < 0.65:
        labels = [[raw] for raw in names(rng, n, "str")]
        extra["levels"] = 1
        cols = [column(rng, rows) for _ in labels]
        made = gen.mk("frame", repr(labels), cols, [{"t": "other", "s": written(raw)} for raw in labels])
    else:
        levels = rng.choice([2, 2, 3])
        pools = [names(rng, rng.choice([1, 2, 3]), rng.choice(["str", "str", "int", "any", "clash"])) for _ in range(levels)]
        if rng.random() < 0.5:
            pools[-1] = [*(p for p in pools[-1] if p != ""), ""]
        if rng.random() < 0.08:
            pools[rng.randrange(levels)].append("!bytes")
        labels = []
        for _ in range(rng.choice([1, 2, 3, 4, 5])):
            one = [rng.choice(pool) for pool in pools]
            if one not in labels or rng.random() < 0.1:
                labels.append(one)
        if rng.random() < 0.5:
            labels.sort(key=repr)
        extra["levels"] = levels
        cols = [column(rng, rows) for _ in labels]
        if len({repr(one) for one in labels}) < len(labels):
            made = gen.mk("frame", repr(labels), cols, [{"t": "other", "s": written(one)} for one in labels])
        else:
            made = nested([(tuple(one), col) for one, col in zip(labels, cols)])
    return {**made, **extra, "labels": labels, "cols": cols}


def table(rng):
    if rng.random() < 0.7:
        return frame(rng)
    rows = rng.choice([0, 1, 2, 3, 5])
    return {**column(rng, rows), "index": index(rng, rows)}


def rebuilt(v, labels, cols):
    """The same table with other columns."""
    if v["levels"] > 1 and len({repr(one) for one in labels}) == len(labels):
        made = nested([(tuple(one), col) for one, col in zip(labels, cols)])
    elif v["levels"]:
        made = gen.mk("frame", repr(labels), cols, [{"t": "other", "s": written(one)} for one in labels])
    else:
        made = gen.mk("frame", repr(labels), cols, [key(raw) for raw in labels])
    return {**v, **made, "labels": labels, "cols": cols}


def twin(rng, v):
    """A table with a single difference."""
    if v["k"] == "series" or not v["labels"]:
        return table(rng)
    labels, cols = list(v["labels"]), list(v["cols"])
    i, j = rng.randrange(len(cols)), rng.randrange(len(cols))
    x = rng.random()
    if x < 0.4:  # the order of the columns
        labels[i], labels[j], cols[i], cols[j] = labels[j], labels[i], cols[j], cols[i]
    elif x < 0.55:  # the names, not what they hold
        labels[i], labels[j] = labels[j], labels[i]
    elif x < 0.7:
        cols[i] = column(rng, len(cols[i]["xs"]))
    elif x < 0.8 and len(cols) > 1:
        del labels[i], cols[i]
    elif isinstance(labels[i], str) and not labels[i].startswith("!"):
        labels[i] = rng.choice([labels[i].swapcase(), labels[i] + " ", labels[i] + "a", "z"])
    return rebuilt(v, labels, cols)


def place(rng):
    x = rng.random()
    if x < 0.4:
        return table(rng)
    some = [table(rng) for _ in range(rng.choice([1, 2, 2, 3]))]
    if rng.random() < 0.4:
        some.append(twin(rng, rng.choice(some)))
    some += [rng.choice(some) for _ in range(rng.choice([0, 0, 1]))]
    if rng.random() < 0.3:
        some.append(gen.value(rng, 1, iters=False))
    if rng.random() < 0.2:
        some.append(gen.mk("inst", rng.choice(gen.INSTS)))
    if x < 0.7:
        return gen.mk(rng.choice(["list", "tuple", "dict", "mproxy"]), xs=some,
                      ks=[{"t": "str", "s": s} for s in rng.sample(gen.PLAIN_KEYS, len(some))]) if x < 0.55 else gen.mk(
                          rng.choice(["list", "tuple"]), xs=some)
    # dictionaries that may be merged
    fam = []
    for _ in range(rng.choice([2, 2, 3])):
        ks = rng.sample(["a", "b", "c"], rng.choice([1, 2, 2, 3]))
        fam.append(gen.mk("dict", xs=[rng.choice(some) for _ in ks], ks=[{"t": "str", "s": s} for s in ks]))
    return gen.mk(rng.choice(["list", "tuple"]), xs=fam)


def clean(v):
    """Sequences have no keys."""
    if v["k"] in ("list", "tuple"):
        v["ks"] = []
    return v


def tables(check):
    rng = check.rng
    reqs, want = [], check.pick(5000, 40000)
    while len(reqs) < want:
        s = {**gen.strat(rng), "pandas": rng.choice(["Full type hint"] * 4 + ["Type hint only for autocomplete"] * 2 + ["Do not type hint columns"])}
        v = clean(place(rng))
        if gen.trunc_safe(v, s):
            reqs.append({"op": "frames", "id": len(reqs), "value": v, "strat": s})
    if hasattr(check, "replay"):
        reqs = [{"op": "frames", "id": 0, "value": json.loads(check.replay["asked"]), "strat": check.replay["strat"]}]
    recs = check.drive(reqs)
    check.count("random_values", len(recs))
    check.report(check.judge("JudgeFrames", recs), recs)
    check.sample(*[{"code": r["code"][-1500:]} for r in recs[-2:]])
