"""Objects of any class within the data (Objects.tla, JudgeObjects.tla)."""
import json

import gen

PLAIN = 250  # as many as there are: see object_ops
FRESH = ["gen", "gen0", "iter", "map", "zip", "enumerate", "filter", "reversed", "itertools.chain", "count", "dictiter", "csv", "countdown", "expr",
         "repeat", "dequeiter", "nditer", "pairwise", "striter", "finditer", "scan", "SameIter", "Point", "Old", "struct", "version", "url", "MyList", "MyList2",
         "Ordered", "Counter", "default", "MyDict", "Attrs", "proxy", "classdict", "frozen", "set", "emptyset", "Counter2", "tuple", "DefaultNone",
         "stat", "size", "SameList", "SameTuple", "SameDict", "SameSet",
         "Frozen", "SameFrozen", "dict", "list", "mappingproxy", "setfrozen", "frozenset", "mappingproxy1"]


def obj(name):
    return {**gen.mk("leaf", "object"), "name": name}


def some(rng):
    return obj(rng.choice(FRESH) if rng.random() < 0.35 else rng.randrange(PLAIN))


def data(rng):
    """A container of objects, perhaps along with others."""
    def item():
        return gen.leaf(rng, 0.5) if rng.random() < 0.2 else data(rng) if rng.random() < 0.15 else some(rng)

    shape = rng.choice(["bare", "list", "tuple", "dict", "mproxy", "iter"])
    if shape == "bare":
        return some(rng)
    n = rng.choice([1, 1, 2, 2, 3, 5])
    xs = [item() for _ in range(n)]
    if rng.random() < 0.3:
        xs.insert(rng.randrange(n + 1), {**xs[0]})  # the same class twice
    if shape in ("dict", "mproxy"):
        return gen.mk(shape, xs=xs, ks=[{"t": "str", "s": f"key{i}"} for i in range(len(xs))])
    return gen.mk(shape, xs=xs)


def within_limit(v, s):
    return s["minh"] != -1 or len(v["xs"]) <= 50


def objects(check):
    rng = check.rng
    reqs = []

    def ask(value, strat):
        reqs.append({"op": "objects", "id": len(reqs), "value": value, "strat": strat})

    for name in [*range(PLAIN), *FRESH]:
        for made in (obj(name), gen.mk("list", xs=[obj(name), obj(name), gen.mk("leaf", "int")]),
                     gen.mk("dict", xs=[obj(name)], ks=[{"t": "str", "s": "a"}])):
            ask(made, gen.strat(rng))
    check.count("every_object", len(reqs))
    for _ in range(check.pick(6000, 80000)):
        ask(data(rng), gen.strat(rng))
    if hasattr(check, "replay"):
        reqs = [{"op": "objects", "id": 0, "value": json.loads(check.replay["asked"]), "strat": check.replay["strat"]}]
    recs = check.drive(reqs)
    check.count("random_values", len(recs))
    check.report(check.judge("JudgeObjects", recs), recs)
    check.sample(*[{"code": r["code"]} for r in recs[-2:]])
