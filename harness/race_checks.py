"""Processes that generate live type hints at once (RaceMC.tla, JudgeRace.tla)."""
from live_checks import event, mk_dict

import gen


def protocol(check):
    check.model("RaceMC", UNIQUE=1)
    for cfg, unique in (("RaceMC.cfg", 0), ("RaceLost.cfg", 1)):
        assert "is violated" in check.tlc("RaceMC", cfg, ok_codes=(12,), UNIQUE=unique)


def gen_event(cls, content, mode="overwrite", via="data"):
    return event({"ev": "gen", "inst": 1, "mode": mode, "cls": cls, "valid": True, "content": content, "via": via})


def races(check):
    protocol(check)
    rng = check.rng
    big = {**gen_event("A", [1, 1]), "value": mk_dict(**{f"key_{i}": gen.mk("leaf", "int") for i in range(1000)})}
    pasts = [[], [("A", [1, 1])], [("A", [1, 1]), ("AB", [2, 1])], [("C", [4, 1])]]
    pairs = [(("A", [1, 1]), ("B", [2, 1])), (("A", [1, 1]), ("A", [1, 1])), (("A", [1, 1]), ("A", [2, 1])), (("A", [3, 1]), ("AB", [4, 1])),
             (("A", [1, 1]), ("A", [1, 2])), (("B", [6, 1]), ("A", [7, 1])), ("big", ("A", [2, 1])), (("A", [2, 1]), "big"), ("big", ("B", [5, 1]))]
    reqs = []

    def made(x, mode, via):
        return dict(big) if x == "big" else gen_event(*x, mode, via)

    per = check.pick(40, 900)
    for past in pasts:
        for pair in pairs:
            for _ in range(check.pick(2, 4)):
                modes = [rng.choice(["overwrite", "overwrite", "validate"]) for _ in pair]
                vias = [rng.choice(["data", "data", "yaml"]) for _ in pair]
                stops = [[rng.random(), rng.random()] for _ in range(per)]
                reqs.append({"op": "race", "id": len(reqs), "history": [gen_event(*e) for e in past],
                             "pair": [made(x, m, v) for x, m, v in zip(pair, modes, vias)], "stops": stops})
    if hasattr(check, "replay"):
        def keep(ev):
            return {k: v for k, v in ev.items() if k not in ("out", "expect")}
        stops = [[(i + 0.5) / (check.replay["counts"][0] + 1), (j + 0.5) / (check.replay["counts"][1] + 1)]
                 for i, j in (run["stops"] for run in check.replay["runs"])]
        reqs = [{"op": "race", "id": 0, "history": [keep(e) for e in check.replay["history"]],
                 "pair": [keep(e) for e in check.replay["pair"]], "stops": stops}]
    recs = check.drive(reqs, own_package=True)
    check.count("schedules", sum(len(r["stops"]) for r in reqs))
    check.count("different_runs", sum(len(r["runs"]) for r in recs))
    check.report(check.judge("JudgeRace", recs, per_shard=10), recs,
                 lambda r: {**r, "runs": [{"stops": run["stops"], "outs": run["outs"]} for run in r["runs"]]})
    check.sample({"pair": [e["cls"] for e in recs[-1]["pair"]], "runs": [[r["stops"], r["outs"]] for r in recs[-1]["runs"][:20]]})
    check.assumptions.append("two processes, each stopped once, anywhere; there is no lock, and the class of one of them may be lost")
