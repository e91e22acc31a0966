"""Checks of the inference itself (Types.tla, PyModule.tla)."""
import json
import doc_checks
import gen
import kinds

VARIANTS = ["plain", "edge", "edge", "shared", "std", "default", "sub", "mix"]


def universe(check, n=None):
    """Values enumerated by TLC: all of them, or a sample that always includes the low ones."""
    values = check.gen("GenValues")
    low, rest = values[:60], values[60:]
    if n == 0:
        return []
    if n is not None and n < len(values):
        rest = check.rng.sample(rest, n - len(low))
    return low + rest


def request(ident, value, strat, variant="plain", **kw):
    return {"op": "core", "id": ident, "value": value, "strat": strat, "cls": "Example", "variant": variant, **kw}


def corpus(check, n_universe, n_random, strat=None, depth=4, bias=None, keys=None, min_zero=False):
    """Values of the universe and random, deeper ones; every one with strategies."""
    rng = check.rng
    out = []
    strat = strat or gen.strat
    for v in universe(check, n_universe):
        s = strat(rng)
        if gen.trunc_safe(v, s):
            out.append((v, s, "plain"))
    check.count("enumerated_values", len(out))
    made = 0
    while made < n_random:
        names = keys or (gen.PLAIN_KEYS if rng.random() < 0.6 else gen.KEYS)
        if rng.random() < 0.06:
            v = gen.big(rng, keys=names)
        elif rng.random() < 0.2:
            v = gen.twins(rng, rng.choice([1, 2, 3]), keys=names, common=rng.choice([0.4, 0.9]), bias=bias)
        else:
            v = gen.value(rng, rng.choice([1, 2, 3, depth]), keys=names, common=rng.choice([0.4, 0.9]), bias=bias)
        s = strat(rng)
        if gen.trunc_safe(v, s) and gen.iter_safe(v):
            out.append((v, s, rng.choice(VARIANTS)))
            made += 1
    check.count("random_values", made)
    return out


def own(check):
    """Whether what is replayed, if anything, is a value of gen.py."""
    return getattr(check, "replay", {}).get("kind", "core") == "core"


def run(check, cases, focus):
    reqs = [request(i, *case[:3], **(case[3] if len(case) > 3 else {})) for i, case in enumerate(cases)]
    if hasattr(check, "replay"):
        reqs = [request(0, check.replay["value"], check.replay["strat"], check.replay["variant"],
                        alts=json.loads(check.replay.get("alts", "[]")))] if own(check) else []
    recs = check.drive(reqs)
    check.report(check.judge("JudgeCore", recs, FOCUS=focus), recs)
    check.sample(*[{"value": r["value"], "strat": r["strat"], "code": r["code"]} for r in recs[-3:]])
    check.assumptions.append("values are built from the harness's catalogue of objects; one-shot iterators are not "
                             "placed within dictionaries; sets are never larger than the scan limit")


def theorems(check, *families):
    for family in families:
        check.model("TypesMC", FAMILY=family, STRATS="few")


def soundness(check):
    theorems(check, *check.pick(["low", "deep"], ["low", "pairs", "families", "deep"]))
    run(check, corpus(check, check.pick(4000, None), check.pick(4000, 40000)), "sound")
    kinds.core(check, check.pick(1500, 15000), "sound")


def exactness(check):
    theorems(check, *check.pick(["low", "deep"], ["low", "pairs", "families", "deep"]))
    run(check, corpus(check, check.pick(4000, None), check.pick(4000, 40000)), "tight")
    kinds.core(check, check.pick(1500, 15000), "tight")


def product(rng):
    """Strategies drawn uniformly, so that every combination is met."""
    s = gen.strat(rng)
    s.update(dict=rng.choice(["TypedDict", "Mapping", "dict"]), ro=rng.random() < 0.5)
    return s


def specified(check):
    theorems(check, *check.pick(["low"], ["low", "pairs", "families", "deep"]))
    run(check, corpus(check, check.pick(5000, None), check.pick(5000, 50000), strat=product), "equal")
    kinds.core(check, check.pick(1500, 15000), "equal", strat=product)


def merging(check):
    rng = check.rng
    theorems(check, *check.pick(["deep"], ["families", "deep"]))

    def strat(rng):
        s = gen.strat(rng, limit=False)
        s.update(dict="TypedDict", list="list", thr=rng.choice([1, 10, 20, 25, 33, 34, 40, 50, 50, 51, 60, 66, 67, 75, 76, 80, 99,
                                                                100]))
        return s

    cases = corpus(check, 0, check.pick(5000, 50000), strat=strat, bias="merge", depth=5)
    fams = [v for v in check.gen("GenValues") if v["k"] in ("list", "tuple") and len(v["xs"]) >= 2
            and any(x["k"] in ("dict", "list") for x in v["xs"])]
    if not check.thorough:
        fams = rng.sample(fams, 4000)
    check.count("enumerated_families", len(fams))
    cases += [(v, strat(rng), "plain") for v in fams]
    # families of many dictionaries over a few keys: every ratio between common and total keys
    for _ in range(check.pick(2000, 20000)):
        n = rng.choice([2, 2, 3, 4, 5, 6])
        base = rng.sample(gen.PLAIN_KEYS, rng.choice([1, 2, 3, 4, 5]))
        types = {k: gen.leaf(rng, 1) for k in gen.PLAIN_KEYS}
        dicts = []
        for _ in range(n):
            names = [k for k in base if rng.random() < 0.85] + [k for k in gen.PLAIN_KEYS if rng.random() < 0.15
                                                                 and k not in base]
            rng.shuffle(names)
            odd = rng.random() < 0.08
            xs = [gen.leaf(rng, 1) if odd and rng.random() < 0.3 else types[k] for k in names]
            dicts.append(gen.mk("dict", xs=xs, ks=[{"t": "str", "s": k} for k in names]))
        if rng.random() < 0.3:
            dicts.insert(rng.randrange(n + 1), gen.leaf(rng))
        outer = gen.mk(rng.choice(["list", "list", "tuple"]), xs=dicts)
        if rng.random() < 0.2:
            outer = gen.mk("dict", xs=[outer, outer], ks=[{"t": "str", "s": "k"}, {"t": "str", "s": "l"}])
        cases.append((outer, strat(rng), "plain"))
    for _ in range(check.pick(120, 1200)):
        cases.append((gen.crowd(rng), {**strat(rng), "thr": rng.choice([1, 3, 4, 5, 25, 50])}, "plain"))
    # wide dictionaries, around the threshold
    ints = [gen.mk("leaf", "int")] * 100
    for total, common in [(50, 29), (100, 57), (100, 58), (100, 29), (7, 2), (3, 1), (3, 2), (97, 32), *[
            (n, rng.randint(1, n)) for n in rng.choices([8, 9, 11, 20, 30, 50, 77, 99, 100], k=check.pick(60, 600))]]:
        keys = [{"t": "str", "s": f"k{i}"} for i in range(total)]
        cut = rng.randint(common, total)
        alone = [keys[:cut], keys[:common] + keys[cut:]]
        fam = gen.mk(rng.choice(["list", "tuple"]), xs=[gen.mk("dict", xs=ints[:len(ks)], ks=rng.sample(ks, len(ks))) for ks in alone])
        for more in (-1, 0, 1):
            cases.append((fam, {**gen.DEFAULT, "thr": max(1, min(100, 100 * common // total + more))}, "plain"))
    run(check, cases, "equal")
    kinds.core(check, check.pick(1000, 10000), "equal", strat=strat)


def scanning(check):
    """The scan limit: describing the data is the same as describing what the limit leaves of it."""
    rng = check.rng
    theorems(check, "low")

    def strat(rng):
        s = gen.strat(rng)
        s["limit"] = rng.choice([1, 1, 2, 2, 3, 4, 500])
        s["dict"] = rng.choice(["TypedDict", "Mapping", "dict"])
        return s

    cases = []
    for v, s, variant in corpus(check, check.pick(3000, None), check.pick(3000, 30000), strat=strat):
        cases.append((v, s, variant, {"alts": [{"value": gen.truncate(v, s), "strat": {**s, "limit": 0}}]}))
    # long containers: what is different comes late
    for _ in range(check.pick(1500, 15000)):
        s = strat(rng)
        s["limit"] = rng.choice([1, 2, 3, 5, 8])
        n = s["limit"] + rng.choice([-1, 0, 1, 2, 5])
        kind = rng.choice(["list", "tuple", "iter", "dict", "mproxy", "dict"])
        common = gen.value(rng, rng.choice([0, 1]), iters=False)
        xs = [common for _ in range(max(n, 1))]
        for _ in range(rng.choice([1, 2])):
            xs[rng.choice([-1, rng.randrange(len(xs))])] = gen.value(rng, rng.choice([0, 1, 2]), iters=False)
        ks = []
        if kind in ("dict", "mproxy"):
            ks = [{"t": "str", "s": f"k{i}"} for i in range(len(xs))]
            if kind == "mproxy" or rng.random() < 0.5:
                ks[-1] = {"t": "int", "s": ""}
        v = gen.mk(kind, xs=xs, ks=ks)
        if gen.trunc_safe(v, s) and gen.iter_safe(v):
            cases.append((v, s, "plain", {"alts": [{"value": gen.truncate(v, s), "strat": {**s, "limit": 0}}]}))
    # long data: the default limit, around 500 elements, and no limit at all
    for n in (3, 64, 255, 499, 500, 501, 999, 1000, 1030):
        for kind in ("list", "tuple", "iter", "dict", "mproxy"):
            for limit in (500, 0):
                xs = [gen.mk("leaf", "int")] * n + [gen.mk("leaf", "str")]
                ks = [{"t": "str", "s": f"k{i}"} for i in range(len(xs))] if kind in ("dict", "mproxy") else []
                v = gen.mk(kind, xs=xs, ks=ks)
                s = {**gen.DEFAULT, "limit": limit, "tuple": "any size", "dict": rng.choice(["Mapping", "dict"])}
                cases.append((v, s, "plain", {"alts": [{"value": gen.truncate(v, s), "strat": {**s, "limit": 0}}]}))
    run(check, cases, "same-equal")
    kinds.core(check, check.pick(1000, 10000), "equal", strat=strat)


def formed(check):
    rng = check.rng
    cases = corpus(check, check.pick(3000, None), check.pick(5000, 50000), keys=gen.KEYS, depth=5)
    # names that collide once in camel case, and keys that look like generated names
    clash = ["a", "A", "a_", "a-", "_a", "Dict", "dict", "DictA", "a b", "aB", "a_b", "list", "ListDict", "2", "22", "é", "List2",
             "Example", "List", "Any", "pd", "error", "iteration"]
    for _ in range(check.pick(3000, 30000)):
        kw = {"keys": clash, "common": 0.9, "iters": False}
        v = gen.value(rng, 4, **kw) if rng.random() < 0.5 else gen.dct(rng, 3, n=rng.choice([2, 3, 4, 5]), **kw)
        s = gen.strat(rng, limit=False)
        s["min"] = rng.choice([0, 0, 1])
        if gen.iter_safe(v):
            cases.append((v, s, "plain"))
    check.count("name_clashes", 3000)
    reqs_cls = ["Example", "X", "Dict_", "ExampleDict", "_Private", "é", "A1", "Value", "Stop"]
    cases = [(*c, {"cls": rng.choice(reqs_cls)}) for c in cases]
    reqs = [{"op": "core", "id": i, "value": v, "strat": s, "variant": var, **kw}
            for i, (v, s, var, kw) in enumerate(cases)]
    if hasattr(check, "replay"):
        reqs = [{**check.replay, "op": "core", "id": 0}] if own(check) else []
    recs = check.drive(reqs)
    check.report(check.judge("JudgeCore", recs, FOCUS="formed-equal"), recs)
    kinds.core(check, check.pick(1500, 15000), "formed")
    check.sample(*[{"value": r["value"], "code": r["code"]} for r in recs[-2:]])
    check.assumptions.append("the class name given is not the name of a builtin or of something of `typing`; "
                             "importing is not attempted for modules that mention pd.Series[...]")


def layout(check):
    rng = check.rng
    cases = []
    for v, s, variant in corpus(check, check.pick(3000, None), check.pick(4000, 40000), depth=5):
        s["min"] = rng.choice([0, 1, 2, 3, 4, 5])
        cases.append((v, s, variant, {"alts": [{"strat": {**s, "min": m}} for m in (0, 1, 2, 9) if m != s["min"]]}))
    run(check, cases, "layout")

    def low(rng):
        return {**gen.strat(rng), "min": rng.choice([0, 1, 2, 3, 4])}

    kinds.core(check, check.pick(1000, 10000), "layout", strat=low,
               more=lambda v, s: {"alts": [{"strat": {**s, "min": m}} for m in (0, 1, 2, 9) if m != s["min"]]})


def unordered(check):
    """Neither the order nor the repetitions of the elements matter, nor which objects stand for the types."""
    rng = check.rng
    theorems(check, *check.pick(["low"], ["low", "pairs", "families", "deep"]))
    cases = []
    for v, s, variant in corpus(check, check.pick(3000, None), check.pick(4000, 40000), bias="merge",
                                strat=lambda rng: gen.strat(rng, limit=False)):
        alts = [{"value": gen.shuffle(rng, v), "start": 100}, {"value": gen.shuffle(rng, v, dup=True)},
                {"value": gen.shuffle(rng, v, dup=True), "start": 1000}, {"start": 77, "variant": rng.choice(VARIANTS)}]
        cases.append((v, s, variant, {"alts": [a for a in alts if gen.iter_safe(a.get("value", v))]}))
    run(check, cases, "same")
    kinds.core(check, check.pick(1000, 10000), "same", strat=lambda rng: gen.strat(rng, limit=False),
               more=lambda v, s: {"alts": [{"value": gen.shuffle(rng, v)}, {"value": gen.shuffle(rng, v, dup=True)}]})


def purity(check):
    rng = check.rng
    cases = corpus(check, check.pick(2000, None), check.pick(4000, 40000), depth=5, bias="merge")
    reqs = []
    for i, (v, s, variant) in enumerate(cases):
        if gen.has_iter(v):
            continue
        v, s = documented(rng, v, s)
        calls = [[rng.random() < 0.5 for _ in range(rng.choice([0, 1, 2]))] for _ in range(rng.choice([1, 1, 2]))]
        reqs.append({"op": "pure", "id": i, "value": v, "strat": s, "variant": variant, "calls": calls})
    if hasattr(check, "replay"):
        reqs = [{**check.replay, "op": "pure", "id": 0, "calls": [[True, False], [True]]}] if own(check) else []
    recs = check.drive(reqs)
    check.report(check.judge("JudgePure", recs), recs)
    more = kinds.run(check, kinds.requests(check, check.pick(1500, 15000), "any_pure", more=lambda v, s: {"calls": [[True, False], [True]]}))
    check.count("values_of_every_kind", len(more))
    check.report(check.judge("JudgePure", more), more)
    check.sample(*[{"value": r["value"], "before": r["before"][:300]} for r in recs[-2:]])


def documented(rng, v, s):
    """The same, at times, with documentation within the data."""
    if rng.random() < 0.75:
        return v, s
    v, plain = doc_checks.document(rng, v, "doc", rng.choice([0.3, 0.7, 1])), v
    if not gen.trunc_safe(v, s):
        return plain, s

    def writable(x):
        if "txt" in x:
            x["txt"] = x["txt"].encode("utf-8", "backslashreplace").decode("utf-8")
        for y in x["xs"]:
            writable(y)
    writable(v)
    return v, {**s, "doc": "doc"}


def has_set(v):
    return v["k"] in ("set", "frozenset") or any(has_set(x) for x in v["xs"])


def determinism(check):
    rng = check.rng
    reqs = []

    def events():
        out = [{"what": "render", "tree": rng.choice([0, 0, 1, 2]), "imports": rng.random() < 0.6} for _ in range(rng.choice([2, 3, 4]))]
        if rng.random() < 0.3:
            out.insert(rng.randrange(len(out)), {"what": "noise", "value": gen.value(rng, 3, iters=False)})
        return out

    cases = corpus(check, check.pick(400, 6000), check.pick(1500, 10000), depth=5, bias="merge")
    for i, (v, s, variant) in enumerate(cases):
        if not gen.has_iter(v):
            v, s = documented(rng, v, s)
            reqs.append({"op": "history", "id": i, "value": v, "strat": s, "variant": variant, "events": events()})
    if hasattr(check, "replay"):
        reqs = [{"op": "history", "id": 0, "value": check.replay["value"], "strat": check.replay["strat"],
                 "variant": check.replay["variant"],
                 "events": [{"what": "render", "tree": t, "imports": f} for t in (0, 1) for f in (True, False, True)]}] if own(check) else []
    histories(check, reqs, check.drive)
    histories(check, kinds.requests(check, check.pick(250, 2500), "any_history", more=lambda v, s: {"events": events()}),
              lambda reqs, **env: kinds.run(check, reqs, **env))


def histories(check, reqs, drive):
    merged = {}
    for proc, seed in enumerate(["0", "1", "2", str(3 + check.seed)]):
        for rec in drive(reqs, PYTHONHASHSEED=seed):
            for ev in rec["events"]:
                ev["proc"] = proc
            if rec["id"] in merged:
                merged[rec["id"]]["events"] += rec["events"]
                merged[rec["id"]]["err"] = merged[rec["id"]]["err"] or rec["err"]
            else:
                rec["ordered"] = not has_set(rec["value"])
                merged[rec["id"]] = rec
    recs = list(merged.values())
    check.count("renderings", sum(len(r["events"]) for r in recs))
    check.report(check.judge("JudgeHistory", recs, per_shard=40), recs)
    check.sample(*[{"value": r["value"], "events": [e["text"] for e in r["events"][:2]]} for r in recs[-2:]])
