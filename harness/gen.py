"""Random abstract values and strategies (seeded)."""
import random

KEYS = ["a", "b", "c", "d", "name", "age", "A", "a1", "some_key", "x-y", "with space", "class", "1a", "__p", "é",
        "List", "a_b", "aB", "ab", "_", "int", "a\"q", "b\\n", "'", "9", "keys", "X", "ª"]
PLAIN_KEYS = ["a", "b", "c", "d", "e", "f", "g", "h"]
LEAVES = ["int", "float", "str", "bool", "bytes", "complex", "range", "slice", "bytearray", "object", "memoryview", "ValueError"]
INSTS = ["Foo", "Bar", "date", "timedelta", "Decimal", "Color", "MyStr", "deque", "UUID", "Fraction", "NDArray[np.int64]", "NDArray[np.float64]", "NDArray[np.bool_]"]
FIXEDS = ["ModuleType", "TextIO", "BinaryIO", "proto:(x: int, *, y: str='a') -> str",
          "proto:(a, b=1, *args, **kwargs) -> Any", "proto:(a) -> None", "Callable", "Callable[[Any], Any]",
          "Callable[[], Any]"]
HASH_LEAVES = ["int", "float", "str", "bytes", "complex", "range", "object"]
HASH_INSTS = ["Foo", "Bar", "date", "timedelta", "Decimal", "UUID", "Fraction"]


def mk(k, t="", xs=(), ks=()):
    return {"k": k, "t": t, "xs": list(xs), "ks": list(ks)}


def leaf(rng, common=0.75):
    x = rng.random()
    if x < common:
        return mk("leaf", rng.choice(["int", "float", "str", "int", "str", "bool"])) if x > 0.08 else mk("none")
    x = rng.random()
    if x < 0.4:
        return mk("leaf", rng.choice(LEAVES))
    if x < 0.6:
        return mk("inst", rng.choice(INSTS))
    if x < 0.8:
        return mk("fixed", rng.choice(FIXEDS))
    if x < 0.9:
        return mk("cls", rng.choice(["int", "str", "list", "ValueError"]))
    return mk("ucls", rng.choice(["Foo", "Bar", "date"]))


def hashable(rng, depth):
    x = rng.random()
    if depth > 0 and x < 0.3:
        return mk("tuple", xs=[hashable(rng, depth - 1) for _ in range(rng.choice([1, 2, 2, 3]))])
    if depth > 0 and x < 0.4:
        return mk("frozenset", xs=distinct(rng, depth - 1))
    if x < 0.85:
        return mk("leaf", rng.choice(HASH_LEAVES))
    return mk("inst", rng.choice(HASH_INSTS))


def distinct(rng, depth):
    out, empties = [], 0
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4])):
        x = hashable(rng, depth)
        if x["k"] == "frozenset" and not x["xs"]:
            empties += 1
            if empties > 1:
                continue
        out.append(x)
    if rng.random() < 0.15:
        out.append(mk("none"))
    return out


def key(rng, kind):
    if kind == "int":
        return {"t": "int", "s": ""}
    x = rng.choice(["int", "float", "bytes", "tuple", "inst", "str", "None"])
    return {"t": x, "s": rng.choice(["Foo", "Bar", "date"]) if x == "inst" else rng.choice(PLAIN_KEYS) if x == "str" else ""}


def dct(rng, depth, keys=PLAIN_KEYS, n=None, **kw):
    n = rng.choice([0, 1, 2, 2, 3, 3, 4]) if n is None else n
    names = rng.sample(keys, min(n, len(keys)))
    return mk("dict", xs=[value(rng, depth - 1, **kw) for _ in names], ks=[{"t": "str", "s": s} for s in names])


def odd_dict(rng, depth, kind="dict", **kw):
    n = rng.choice([1, 2, 3])
    mode = rng.choice(["int", "any"])
    ks, seen = [], set()
    for _ in range(n):
        k = key(rng, mode)
        tag = (k["t"], k["s"]) if k["t"] in ("str", "None") else object()
        if tag not in seen:
            seen.add(tag)
            ks.append(k)
    return mk(kind, xs=[value(rng, depth - 1, **kw) for _ in ks], ks=ks)


def vary(rng, v, depth, keys, **kw):
    """A dictionary related to v: keys dropped, added or retyped."""
    ks, xs = list(v["ks"]), list(v["xs"])
    x = rng.random()
    if x < 0.35 and ks:
        i = rng.randrange(len(ks))
        del ks[i], xs[i]
    elif x < 0.65:
        free = [s for s in keys if s not in {k["s"] for k in ks}]
        if free:
            ks.append({"t": "str", "s": rng.choice(free)})
            xs.append(value(rng, depth - 1, **kw))
    elif x < 0.8 and ks:
        i = rng.randrange(len(ks))
        inner = xs[i]["k"] == "dict" and xs[i]["ks"] and all(k["t"] == "str" for k in xs[i]["ks"])
        xs[i] = vary(rng, xs[i], depth - 1, keys, **kw) if inner and rng.random() < 0.5 else value(rng, depth - 1, **kw)
    elif x < 0.9 and ks:
        i = rng.randrange(len(ks))
        xs[i] = mk("leaf", "float" if xs[i] == mk("leaf", "int") else "int")
    order = list(range(len(ks)))
    rng.shuffle(order)
    return mk("dict", xs=[xs[i] for i in order], ks=[ks[i] for i in order])


def stranger(rng, v):
    """Something with the same keys, or the same items, that is not a dictionary whose keys are all strings."""
    x = rng.random()
    if v["k"] == "dict" and x < 0.6:
        return {**v, "xs": [*v["xs"], mk("leaf", "int")], "ks": [*v["ks"], {"t": "int", "s": ""}]}
    if v["k"] == "dict" and x < 0.8:
        return {**v, "k": "mproxy"}
    return mk(rng.choice(["list", "tuple"]), xs=[v])


def has_iter(v):
    return v["k"] == "iter" or any(has_iter(x) for x in v["xs"])


def value(rng, depth, keys=PLAIN_KEYS, iters=True, common=0.75, unhashed=True, bias=None):
    if depth <= 0 or rng.random() < 0.12:
        return leaf(rng, common)
    kw = {"keys": keys, "iters": iters, "common": common, "unhashed": unhashed, "bias": bias}
    x = rng.random()
    if bias == "merge" and rng.random() < 0.5:
        x = 0.5
    if x < 0.22:
        n = rng.choice([0, 1, 1, 2, 2, 3, 4])
        return mk("list", xs=[value(rng, depth - 1, **kw) for _ in range(n)])
    if x < 0.36:
        n = rng.choice([0, 1, 2, 2, 3, 3])
        return mk("tuple", xs=[value(rng, depth - 1, **kw) for _ in range(n)])
    if x < 0.42:
        return mk("set" if rng.random() < 0.5 else "frozenset", xs=distinct(rng, 1))
    if x < 0.46 and iters:
        n = rng.choice([0, 1, 2, 3])
        kw["iters"] = False
        return mk("iter", xs=[value(rng, 0, **kw) for _ in range(n)])
    if x < 0.62:  # family of related dictionaries
        base = dct(rng, depth - 1, n=rng.choice([1, 2, 3, 4]), **{**kw, "iters": False})
        fam = [base]
        for _ in range(rng.choice([1, 1, 2, 3])):
            fam.append(vary(rng, rng.choice(fam), depth - 1, **{**kw, "iters": False}))
        if rng.random() < 0.3:
            fam.insert(rng.randrange(len(fam) + 1), value(rng, depth - 1, **kw))
        if rng.random() < 0.2:
            fam.insert(rng.randrange(len(fam) + 1), stranger(rng, rng.choice(fam)))
        return mk(rng.choice(["list", "list", "tuple"]), xs=fam)
    if x < 0.86:
        return dct(rng, depth, **kw)
    if x < 0.94:
        return odd_dict(rng, depth, **kw)
    kind = rng.random()
    return odd_dict(rng, depth, "mproxy", **kw) if kind < 0.5 else {**dct(rng, depth, **kw), "k": "mproxy"}


def twin(rng, v, keys=PLAIN_KEYS):
    """The same value with a single difference, perhaps far below."""
    xs, ks = list(v["xs"]), list(v["ks"])
    is_set = v["k"] in ("set", "frozenset")
    if xs and not is_set and rng.random() < 0.65:
        i = rng.randrange(len(xs))
        xs[i] = twin(rng, xs[i], keys)
        return {**v, "xs": xs}
    x = rng.random()
    if v["k"] in ("leaf", "none", "inst", "fixed", "cls", "ucls"):
        return leaf(rng, 0.4)
    if x < 0.3:  # another kind of container
        other = {"list": "tuple", "tuple": "list", "set": "frozenset", "frozenset": "set", "dict": "mproxy", "mproxy": "dict"}
        return {**v, "k": other.get(v["k"], v["k"])}
    if v["k"] in ("dict", "mproxy") and ks:
        i = rng.randrange(len(ks))
        strings = [k["s"] for k in ks if k["t"] == "str"]
        if x < 0.6 and ks[i]["t"] == "str":  # another name
            new = rng.choice([ks[i]["s"].swapcase(), ks[i]["s"] + "_", "_" + ks[i]["s"], rng.choice(keys)])
            if new not in strings:
                ks[i] = {"t": "str", "s": new}
            return {**v, "ks": ks}
        if x < 0.8 and not any(k["t"] == "int" for k in ks):  # another kind of key
            ks[i] = {"t": "int", "s": ""}
            return {**v, "ks": ks}
        del ks[i], xs[i]
        return {**v, "xs": xs, "ks": ks}
    if is_set:
        return {**v, "xs": xs[:-1]}
    if v["k"] in ("list", "tuple", "iter") and xs:
        if x < 0.5:
            i, j = rng.randrange(len(xs)), rng.randrange(len(xs))
            xs[i], xs[j] = xs[j], xs[i]
        elif x < 0.75:
            del xs[rng.randrange(len(xs))]
        else:
            xs.append(rng.choice([rng.choice(xs), leaf(rng)]))
        return {**v, "xs": xs}
    return {**v, "xs": [leaf(rng)]} if v["k"] in ("list", "tuple") else v


def twins(rng, depth, keys=PLAIN_KEYS, **kw):
    """A container of some value and others with a single difference."""
    v = value(rng, depth, keys=keys, iters=False, **kw)
    xs = [v, twin(rng, v, keys)]
    for _ in range(rng.choice([0, 0, 1, 2])):
        xs.append(rng.choice([rng.choice(xs), twin(rng, rng.choice(xs), keys)]))
    rng.shuffle(xs)
    kind = rng.choice(["list", "list", "tuple", "dict"])
    return mk(kind, xs=xs, ks=[{"t": "str", "s": s} for s in rng.sample(keys, len(xs))] if kind == "dict" else [])


def crowd(rng):
    """Many children and, among the last ones most of the times, an odd one."""
    n = rng.choice([9, 12, 17, 18, 26, 33, 40, 52, 65])
    odd = value(rng, rng.choice([0, 1, 2, 3, 4]), iters=False)
    at = rng.randrange(n) if rng.random() < 0.4 else n - 1 - rng.randrange(3)
    x = rng.random()
    if x < 0.4:  # one mapping
        pool = [leaf(rng) for _ in range(rng.choice([1, 2, 4]))]
        xs = [rng.choice(pool) for _ in range(n)]
        xs[at] = odd
        return mk(rng.choice(["dict", "dict", "dict", "mproxy"]), xs=xs, ks=[{"t": "str", "s": f"k{i}"} for i in range(n)])
    if x < 0.55:  # as many types as elements
        xs = [mk("tuple" if i % 2 else "list", xs=[mk("dict", xs=[leaf(rng)], ks=[{"t": "str", "s": f"k{i // 2}"}])]) for i in range(n)]
        xs[at] = odd
        return mk(rng.choice(["list", "tuple"]), xs=xs)
    # different dictionaries that share some keys: each has one of its own, or each lacks one
    n = min(n, 26)
    at = min(at, n - 1)
    own = rng.random() < 0.5
    names = [f"k{i}" for i in range(n + rng.choice([1, 2, n, n]))]
    kind = leaf(rng, 1)
    xs = []
    for i in range(n):
        ks = ["a", *(rng.sample(names, 1) if own else [k for j, k in enumerate(names) if j != i])]
        xs.append(mk("dict", xs=[kind] * len(ks), ks=[{"t": "str", "s": k} for k in ks]))
    if rng.random() < 0.6:
        last = list(xs[at]["xs"])
        last[rng.randrange(len(last))] = odd
        xs[at] = {**xs[at], "xs": last}
    return mk(rng.choice(["list", "list", "tuple"]), xs=xs)


def big(rng, keys=PLAIN_KEYS):
    """Long, wide or deep values: what is different may come late, or lie far below."""
    if rng.random() < 0.3:
        return crowd(rng)
    x = rng.random()
    many = [*PLAIN_KEYS, *(f"k{i}" for i in range(40))]
    if x < 0.3:  # deep
        v = value(rng, rng.choice([0, 1, 2]), keys=keys, iters=False)
        for _ in range(rng.choice([4, 6, 8, 11])):
            others = [value(rng, rng.choice([0, 0, 1]), keys=keys, iters=False) for _ in range(rng.choice([0, 0, 1, 1]))]
            xs = [v, *others]
            rng.shuffle(xs)
            kind = rng.choice(["list", "tuple", "dict", "dict", "list", "mproxy"])
            v = mk(kind, xs=xs, ks=[{"t": "str", "s": s} for s in rng.sample(keys, len(xs))] if kind in ("dict", "mproxy") else [])
        return v
    if x < 0.5:  # wide
        return dct(rng, 2, keys=many, n=rng.choice([7, 12, 20, 30]), iters=False)
    if x < 0.7:  # a long table
        rows = [dct(rng, 1, keys=many, n=rng.choice([5, 9, 12]), iters=False)]
        for _ in range(rng.choice([6, 9, 12])):
            rows.append(rows[0] if rng.random() < 0.6 else vary(rng, rng.choice(rows), 1, many, iters=False))
        return mk(rng.choice(["list", "tuple"]), xs=rows)
    if x < 0.85:  # long, with a few kinds of elements
        pool = [value(rng, rng.choice([0, 1, 2]), keys=keys, iters=False) for _ in range(rng.choice([1, 2, 4, 12]))]
        xs = [pool[0]] * rng.choice([5, 11, 30]) + pool
        rng.shuffle(xs)
        return mk(rng.choice(["list", "list", "tuple"]), xs=xs)
    leaves = distinct(rng, 0)[:1] + [mk("leaf", rng.choice(HASH_LEAVES)) for _ in range(rng.choice([6, 12]))]
    return mk(rng.choice(["set", "frozenset"]), xs=leaves)


DEFAULT = {"list": "list", "tuple": "fixed", "dict": "TypedDict", "ro": False, "min": 1, "limit": 0, "thr": 50}


def strat(rng, limit=True):
    return {
        "list": rng.choice(["list", "Sequence"]),
        "tuple": rng.choice(["fixed", "any size"]),
        "dict": rng.choice(["TypedDict", "TypedDict", "TypedDict", "Mapping", "dict"]),
        "ro": rng.random() < 0.25,
        "min": rng.choice([0, 1, 1, 1, 2, 3, 4]),
        "limit": rng.choice([0, 0, 500, 1, 2, 3]) if limit else 0,
        "thr": rng.choice([50, 50, 50, 1, 25, 34, 40, 60, 67, 75, 99, 100]),
    }


def trunc_safe(v, s):
    """Scanning only part of a set depends on the order of its elements, which is not specified."""
    if v["k"] in ("set", "frozenset") and s["limit"] and len(v["xs"]) > s["limit"]:
        return False
    return all(trunc_safe(x, s) for x in v["xs"])


def iter_safe(v, inside=False):
    """One-shot iterators within dictionaries that are elements of a sequence may be inspected twice."""
    if v["k"] == "iter" and inside:
        return False
    return all(iter_safe(x, inside or v["k"] == "dict") for x in v["xs"])


def truncate(v, s):
    cut = s["limit"] and (v["k"] in ("list", "tuple", "set", "frozenset", "iter", "mproxy")
                          or (v["k"] == "dict" and s["dict"] != "TypedDict"))
    n = s["limit"] if cut else len(v["xs"])
    return {**v, "xs": [truncate(x, s) for x in v["xs"][:n]], "ks": v["ks"][:n]}


def shuffle(rng, v, dup=False):
    """Same elements in another order (and maybe repeated), where the order does not matter."""
    xs = [shuffle(rng, x, dup) for x in v["xs"]]
    order = list(range(len(xs)))
    if v["k"] in ("list", "dict", "mproxy", "set", "frozenset"):
        rng.shuffle(order)
        if dup and v["k"] == "list" and order:
            order += [rng.choice(order) for _ in range(rng.choice([0, 1, 2]))]
    return {**v, "xs": [xs[i] for i in order], "ks": [v["ks"][i] for i in order] if v["ks"] else []}
