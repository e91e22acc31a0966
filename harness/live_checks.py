"""Checks of LazyTypeHintLive (Live.tla)."""
import json
import re

import callable_checks
import gen
import kinds

S = {"t": "str"}


def mk_dict(**items):
    return gen.mk("dict", xs=list(items.values()), ks=[{**S, "s": k} for k in items])


def content(number, doc):
    """The values that stand for the contents of GenLive."""
    text = {**gen.mk("leaf", "str"), "txt": f"Number {doc}."}
    leaf = lambda t: gen.mk("leaf", t)  # noqa: E731
    return {
        1: lambda: mk_dict(a=leaf("int"), doc=text),
        2: lambda: mk_dict(a=leaf("str"), doc=text),
        3: lambda: mk_dict(a=leaf("int"), b=leaf("float"), doc=text),
        4: lambda: gen.mk("list", xs=[leaf("int"), leaf("str")]),
        5: lambda: leaf("int"),
        6: lambda: mk_dict(a=mk_dict(b=leaf("int")), doc=text),
        7: lambda: gen.mk("dict", xs=[leaf("int"), text], ks=[{**S, "s": "x-y"}, {**S, "s": "doc"}]),
    }[number]()


STRAT = {**gen.DEFAULT, "doc": "doc"}


def event(ev, value=None, strat=None):
    ev = dict(ev)
    if ev["ev"] == "gen":
        if "content" in ev:
            number, doc = ev.pop("content")
            ev["value"], ev["doc"] = content(number, doc), doc
        ev.setdefault("strat", STRAT)
        ev.setdefault("doc", 1)
        ev.setdefault("via", "data")
        ev.setdefault("fork", False)
    return ev


def histories(check, n, wide=False, num=0, seed=0):
    args = ["-simulate", f"num={num}", "-depth", str(n + 1), "-seed", str(seed)] if wide else []
    out = check.tlc("GenLive", N=n, WIDE=int(wide), args=args)
    found = dict.fromkeys(re.findall(r'^"HIST(.*)"$', out, re.M))
    return [json.loads(json.loads(f'"{text}"')) for text in found]


NAMES = ["_Private", "__dunder", "A1", "_", "Été", "class_name", "data", "from_data", "from_yaml_file", "kwargs", "path", "Anyone",
         "match", "case", "type", "self", "loader", "classes_created", "x" * 60, "Example", "build", "generators", "AA", "A_", "aB",
         "Literal1", "Type", "Overload", "reset", "str1", "漢字", "comments_are", "Union_", "ExampleExample", "lazy_type_hint", "true"]
WRONG = ["A\n", "a-b", "A.b", "../x", " A", "None", "True", "import", "A ", "é-", "1", "/tmp", "A/B", "A\x00", "²", 'A"', "lambda", "\n", "ﬁ", "ａ", "Ⅳ", "e\u0301", "ª"]


def rename(rng, hist):
    """The same history with other names of classes."""
    good = dict(zip(("A", "AB", "B_A", "Config", "a"), rng.sample(NAMES, 5)))
    bad = dict(zip(("1A", "a b", "class", ""), rng.sample(WRONG, 4)))
    hist = [{**ev, "cls": {**good, **bad}[ev["cls"]]} if "cls" in ev else ev for ev in hist]
    for _ in range(rng.choice([0, 1, 2])):  # requests to be rejected, anywhere
        hist.insert(rng.randrange(len(hist) + 1), {
            "ev": "gen", "inst": 1, "mode": "overwrite", "cls": rng.choice(WRONG), "valid": False, "content": [1, 1],
            "via": rng.choice(["data", "yaml"]), "fork": False})
    return hist


POSITIONS = [["side"], ["above"], ["below"], [], ["side", "above"], ["above", "side"], ["below", "side"], ["default"]]


def somewhere(rng, hist):
    """The same history with the comments of the YAML files at other places."""
    for ev in hist:
        if ev["ev"] == "gen" and ev["via"] == "yaml":
            ev["where"] = rng.choice(POSITIONS)
    return hist


def replay(check, hists):
    """Perform the histories with the real code and judge them."""
    reqs = [{"op": "live", "id": i, "events": h} for i, h in enumerate(hists)]
    if hasattr(check, "replay"):
        reqs = [{"op": "live", "id": 0, "events": [anew(ev) for ev in check.replay["events"]]}]
    else:
        for req in reqs:
            somewhere(check.rng, req["events"])
    recs = check.drive(reqs, own_package=True)
    for ev in (ev for rec in recs for ev in rec["events"] if ev.get("kind") == "callables"):
        callable_checks.prepare(ev["value"], False)
    check.count("events", sum(len(r["events"]) for r in recs))
    check.report(check.judge("JudgeLive", recs, per_shard=100), recs)
    check.sample({"events": [{k: ev[k] for k in ("ev", "cls", "mode", "out") if k in ev} for ev in recs[-1]["events"]]})


def anew(ev):
    """The event as it was requested."""
    asked = {"value": json.loads(ev["asked"])} if "asked" in ev else {}
    return {**{k: v for k, v in ev.items() if k not in ("obs", "out", "same", "expect", "asked")}, **asked}


def protocol(check):
    """The protocol with which the files are written, model-checked; without its rules it has to fail."""
    check.model("LiveMC", ATOMIC=1, CLASSFIRST=1, PYIFIRST=1)
    for rules in ((0, 1, 1), (1, 0, 1), (1, 1, 0)):
        names = dict(zip(("ATOMIC", "CLASSFIRST", "PYIFIRST"), rules))
        out = check.tlc("LiveMC", workers=1, ok_codes=(12,), **names)
        assert "is violated" in out


def history(check):
    protocol(check)
    hists = [[event(e) for e in h] for n in (1, 2) for h in histories(check, n)]
    more = histories(check, 3)
    check.count("enumerated_histories", len(hists) + len(more))
    if not check.thorough:
        more = check.rng.sample(more, 1500)
    hists += [[event(e) for e in h] for h in more]
    wide = histories(check, 10, wide=True, num=check.pick(150, 3000), seed=check.seed)
    hists += [[event(e) for e in (rename(check.rng, h) if i % 2 else h)] for i, h in enumerate(wide)]
    check.count("random_histories", len(wide))
    replay(check, hists)


def no_sets(v):
    return v["k"] not in ("set", "frozenset") and all(no_sets(x) for x in v["xs"])


def validation(check):
    """Type hints of some data, then validation of other data, for any pair of them."""
    rng = check.rng
    hists = []
    while len(hists) < check.pick(2500, 25000):
        a = gen.value(rng, rng.choice([1, 2, 3]), iters=False, bias="merge", keys=gen.PLAIN_KEYS if rng.random() < 0.7 else gen.KEYS)
        s = gen.strat(rng)
        x = rng.random()
        if x < 0.3:
            b = a
        elif x < 0.45:
            b = mutate(rng, a)
        elif x < 0.55:
            b = gen.twin(rng, a)
        elif x < 0.72:
            b = gen.shuffle(rng, a, dup=rng.random() < 0.5)
        elif x < 0.8 and a["k"] == "dict" and a["xs"] and all(k["t"] == "str" for k in a["ks"]):
            b = gen.vary(rng, a, 2, gen.PLAIN_KEYS, iters=False)
        else:
            b = gen.value(rng, 2, iters=False)
        if not (no_sets(a) and no_sets(b)):
            continue
        s2 = s if rng.random() < 0.8 else gen.strat(rng)
        new = [{"ev": "gen", "inst": 1, "mode": "overwrite", "cls": "Example", "valid": True, "value": a, "strat": s},
               {"ev": "gen", "inst": 2, "mode": "validate", "cls": "Example", "valid": True, "value": b, "strat": s2,
                "start": 50},
               {"ev": "gen", "inst": 2, "mode": "validate", "cls": "Example", "valid": True, "value": a, "strat": s}]
        if rng.random() < 0.3:
            new[0] = {**new[0], "mode": "validate"}
        if rng.random() < 0.3:
            new.insert(1, {**new[1], "cls": "Other", "mode": "validate"})
        hists.append([event(e) for e in new])
    hists += kinds_pairs(check)
    check.count("random_pairs", len(hists))
    # the same data with other documentation, read from YAML files or not
    for number in range(1, 8):
        for doc in (1, 2):
            for via in ("data", "yaml"):
                for other in range(1, 8):
                    for mode in ("overwrite", "validate"):
                        hists.append([event({"ev": "gen", "inst": 1, "mode": mode, "cls": "Example", "valid": True, "via": "yaml",
                                             "content": [number, 1]}),
                                      event({"ev": "gen", "inst": 2, "mode": "validate", "cls": "Example", "valid": True,
                                             "via": via, "content": [other, doc]}),
                                      event({"ev": "gen", "inst": 3, "mode": "validate", "cls": "Example", "valid": True,
                                             "via": via, "content": [number, doc]})])
    replay(check, hists)


SETS = re.compile('"k": "(set|frozenset)"')


def kinds_pairs(check):
    """The same for tables, objects of any class and callables."""
    rng, hists = check.rng, []
    for kind in [] if hasattr(check, "replay") else kinds.KINDS:
        made = 0
        while made < check.pick(200, 4000):
            s = {**gen.strat(rng), "pandas": rng.choice(kinds.PANDAS)}
            a, other = kinds.draw(rng, kind, check), kinds.draw(rng, kind, check)
            b = rng.choice([a, other, rng.choice(kinds.parts(a) or [other]), gen.mk("list", xs=[a]), kinds.swap(rng, a, other)])
            if not all(gen.trunc_safe(v, s) for v in (a, b)) or SETS.search(json.dumps([a, b])):
                continue  # the order of a set may be another one in an equal set
            made += 1
            one = {"ev": "gen", "cls": "Example", "valid": True, "strat": s, "kind": kind}
            hists.append([event(e) for e in (
                {**one, "inst": 1, "mode": rng.choice(["overwrite", "validate"]), "value": a},
                {**one, "inst": 2, "mode": "validate", "value": b},
                {**one, "inst": 2, "mode": "validate", "value": a})])
    return hists


def mutate(rng, v):
    """Change one leaf, one key or one kind of container."""
    if v["k"] == "dict" and v["xs"] and all(k["t"] == "str" for k in v["ks"]) and rng.random() < 0.6:
        i = rng.randrange(len(v["ks"]))
        old = v["ks"][i]["s"]
        new = rng.choice([old.swapcase(), old.swapcase(), old.capitalize(), old + "_", old + " ", old[:-1], old + "a", " " + old, old.replace("_", ""), "_" + old, old[::-1]])
        if rng.random() < 0.2:  # one key less
            return {**v, "xs": v["xs"][:i] + v["xs"][i + 1:], "ks": v["ks"][:i] + v["ks"][i + 1:]}
        if new not in [k["s"] for k in v["ks"]]:
            return {**v, "ks": [{**k, "s": new} if j == i else k for j, k in enumerate(v["ks"])]}
    if not v["xs"] or rng.random() < 0.2:
        if v["k"] == "leaf":
            return gen.mk("leaf", rng.choice(["int", "float", "str", "bool"]))
        if v["k"] in ("list", "tuple"):
            return {**v, "k": rng.choice(["list", "tuple"])}
        return gen.leaf(rng) if v["k"] in ("none", "inst", "fixed", "cls", "ucls") else v
    xs = list(v["xs"])
    i = rng.randrange(len(xs))
    xs[i] = mutate(rng, xs[i])
    return {**v, "xs": xs}


def crashes(check):
    protocol(check)
    rng = check.rng
    one = lambda c, x, mode="overwrite", via="data": event(  # noqa: E731
        {"ev": "gen", "inst": 1, "mode": mode, "cls": c, "valid": True, "content": x, "via": via})
    big = {**one("A", [1, 1]), "value": mk_dict(**{f"key_{i}": gen.mk("leaf", "int") for i in range(2000)})}
    pasts = [[], [one("A", [1, 1])], [one("A", [1, 1]), one("AB", [2, 1])], [one("AB", [4, 1])],
             [one("A", [6, 2]), one("B", [5, 1]), one("AB", [7, 1])], [one("A", [1, 1]), {"ev": "reset"}], [big]]
    lasts = [one(c, x, mode, via) for c in ("A", "B") for x in ([1, 1], [1, 2], [2, 1], [6, 1]) for mode in ("overwrite", "validate")
             for via in ("data", "yaml")] + [{"ev": "reset"}, big]
    after = [one("A", [3, 1]), one("B", [3, 1]), one("AB", [3, 1], "validate"), {"ev": "reset"}]
    cases = [(p, l) for p in pasts for l in lasts]
    if not check.thorough:
        keep = [c for c in cases if c[1]["ev"] == "reset" or c[1] is big]
        rest = [c for c in cases if c not in keep]
        cases = keep + rng.sample(rest, 90)
    reqs = [{"op": "crash", "id": i, "history": p, "last": l, "after": after} for i, (p, l) in enumerate(cases)]
    if hasattr(check, "replay"):
        keep = lambda ev: {k: v for k, v in ev.items() if k not in ("out", "expect")}  # noqa: E731
        reqs = [{"op": "crash", "id": 0, "history": [keep(e) for e in check.replay["history"]],
                 "last": keep(check.replay["last"]), "after": [keep(e) for e in check.replay["after"]]}]
    recs = check.drive(reqs, own_package=True)
    check.count("crash_points", sum(len(r["points"]) for r in recs))
    check.count("operations_interrupted", len(recs))
    check.report(check.judge("JudgeCrash", recs, per_shard=10), recs, lambda r: {**r, "points": len(r["points"])})
    check.sample({"last": recs[-1]["last"]["ev"], "points": [p["obs"]["left"] for p in recs[-1]["points"]]})
    check.assumptions.append("a crash is the death of the process: what it wrote before stays (no loss of power)")
