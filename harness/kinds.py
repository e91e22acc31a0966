"""Values that hold tables, objects of any class or callables, for the properties that are about every value."""
import json

import callable_checks
import frame_checks
import gen
import object_checks

KINDS = ["frames", "objects", "callables"]
PANDAS = ["Full type hint"] * 3 + ["Type hint only for autocomplete", "Do not type hint columns"]
STATELESS = object_checks.FRESH[object_checks.FRESH.index("Point"):]
_shapes = {}


def shapes(check):
    if check not in _shapes:
        _shapes[check] = check.gen("GenCallables")
    return _shapes[check]


def leaf(rng, kind, check):
    if kind == "frames":
        return frame_checks.table(rng)
    if kind == "objects":
        return object_checks.obj(rng.choice(STATELESS) if rng.random() < 0.3 else rng.randrange(object_checks.PLAIN))
    shape = rng.choice(shapes(check))
    while shape["kind"] == "nosource" and rng.random() < 0.7:
        shape = rng.choice(shapes(check))
    return {**gen.mk("leaf", "int"), "fn": callable_checks.shape_to_fn(rng, shape)}


def draw(rng, kind, check):
    """A leaf, a container of some, or a family of dictionaries that hold them."""
    x = rng.random()
    if x < 0.15:
        return leaf(rng, kind, check)
    pool = [leaf(rng, kind, check) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    pool += [rng.choice(pool) for _ in range(rng.choice([0, 0, 1]))]
    if rng.random() < 0.4:
        pool.append(gen.value(rng, rng.choice([0, 0, 1, 2]), iters=False))
    rng.shuffle(pool)

    def named(k):
        xs = pool if rng.random() < 0.5 else rng.sample(pool, rng.choice([1, len(pool)]))
        return gen.mk(k, xs=xs, ks=[{"t": "str", "s": s} for s in rng.sample(gen.PLAIN_KEYS, len(xs))])

    if x < 0.35:
        v = gen.mk(rng.choice(["list", "tuple"]), xs=pool)
    elif x < 0.5:
        v = named(rng.choice(["dict", "dict", "mproxy"]))
    elif x < 0.85:
        fam, types = [], {s: rng.choice(pool) for s in "abcd"}
        for _ in range(rng.choice([2, 2, 3, 4])):
            ks = rng.sample("abcd", rng.choice([1, 2, 2, 3, 4]))
            fam.append(gen.mk("dict", xs=[types[s] if rng.random() < 0.85 else rng.choice(pool) for s in ks], ks=[{"t": "str", "s": s} for s in ks]))
        v = gen.mk(rng.choice(["list", "list", "tuple"]), xs=fam)
    else:
        v = gen.mk("list", xs=[gen.mk("list", xs=pool), gen.mk("tuple", xs=pool[:2])])
    if rng.random() < 0.25:
        v = gen.mk("dict", xs=[v, rng.choice(pool)], ks=[{"t": "str", "s": "inner"}, {"t": "str", "s": "x"}])
    return v


def parts(v):
    return v["xs"] if v["k"] in ("list", "tuple", "dict", "mproxy") else []


def swap(rng, v, other):
    """The value with one of its parts replaced by a part of another one."""
    xs = list(parts(v))
    if not xs:
        return rng.choice([other, *parts(other)])
    i = rng.randrange(len(xs))
    xs[i] = swap(rng, xs[i], other) if rng.random() < 0.7 else rng.choice([other, *parts(other)])
    return {**v, "xs": xs}


def requests(check, n, op, strat=gen.strat, more=lambda v, s: {}):
    """n values of each kind; `more` tells the rest of each request."""
    rng, out = check.rng, []
    if hasattr(check, "replay"):
        if check.replay.get("kind", "core") == "core":
            return []
        kept = {k: v for k, v in check.replay.items() if k in ("kind", "strat", "variant", "alts", "events", "calls", "cls")}
        if "alts" in kept:
            kept["alts"] = json.loads(kept["alts"])
        return [{**more(json.loads(check.replay["asked"]), kept["strat"]), "op": op, "id": 0, "cls": "Example", **kept, "value": json.loads(check.replay["asked"])}]
    for kind in KINDS:
        made = 0
        while made < n:
            v, s = draw(rng, kind, check), {**strat(rng), "pandas": rng.choice(PANDAS)}
            if gen.trunc_safe(v, s):
                out.append({"op": op, "id": len(out), "kind": kind, "value": v, "strat": s, "cls": "Example", "variant": "plain", **more(v, s)})
                made += 1
    return out


def run(check, reqs, **env):
    """Drive them; the records remember what was asked."""
    asked = {r["id"]: json.dumps(r["value"]) for r in reqs}
    recs = check.drive(reqs, **env)
    for rec in recs:
        rec["asked"] = asked[rec["id"]]
        if rec["kind"] == "callables":
            callable_checks.prepare(rec["value"], False)
    return recs


def core(check, n, focus, **kw):
    """The judgement of JudgeCore over values of every kind."""
    recs = run(check, requests(check, n, "any_core", **kw))
    check.count("values_of_every_kind", len(recs))
    check.report(check.judge("JudgeCore", recs, FOCUS=focus), recs)
