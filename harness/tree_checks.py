"""Trees (Trees.tla)."""
import json

import core_checks
import gen
import kinds

NAMES = ["Other", "X", "AVeryLongNameForTheTrees", "Example", "ExampleList"]


def pairs(check, n):
    """A value and one that is the same, the same in other order, nearly the same, or another one."""
    rng, out = check.rng, []
    pool = core_checks.corpus(check, check.pick(1000, None), n, bias="merge")
    for v, s, variant in pool:
        x = rng.random()
        other = (v if x < 0.1 else gen.shuffle(rng, v, dup=rng.random() < 0.5) if x < 0.25 else gen.twin(rng, v) if x < 0.85 else rng.choice(pool)[0])
        if gen.trunc_safe(other, s) and gen.iter_safe(other):
            out.append({"op": "trees", "id": len(out), "kind": "core", "value": v, "other": other, "strat": s, "variant": variant, "name": rng.choice(NAMES)})
    return out


def trees(check):
    rng = check.rng
    check.model("TreesMC")
    reqs = pairs(check, check.pick(4000, 40000))
    asked = kinds.requests(check, check.pick(1200, 12000), "trees") if not hasattr(check, "replay") else []
    for req in asked:
        while True:
            other = req["value"] if rng.random() < 0.2 else kinds.swap(rng, req["value"], kinds.draw(rng, req["kind"], check))
            if gen.trunc_safe(other, req["strat"]):
                break
        reqs.append({**req, "id": len(reqs), "other": other, "name": rng.choice(NAMES)})
    if hasattr(check, "replay"):
        value, other = json.loads(check.replay["asked"])
        reqs = [{"op": "trees", "id": 0, **{k: check.replay[k] for k in ("kind", "strat", "variant")}, "value": value, "other": other, "name": name}
                for name in NAMES[:1]]
    recs = check.drive(reqs)
    for rec in recs:
        if rec["kind"] == "callables":
            for v in (rec["value"], rec["other"]):
                kinds.callable_checks.prepare(v, False)
    check.count("pairs_of_trees", len(recs))
    check.report(check.judge("JudgeTrees", recs), recs)
    check.sample(*[{"value": r["value"], "other": r["other"], "eq": r["eq"], "nodes": r["nodes"]} for r in recs[-2:]])
