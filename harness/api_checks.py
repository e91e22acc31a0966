"""What may be asked for and what is written where (Api.tla)."""
import json
import re

import gen
from live_checks import no_sets

NAMES = ["A", "a", "_", "_a1", "Example", "A_b", "match", "type", "Self", "none", "true", "CLASS", "List", "self", "a1b2", "print"]
WRONG = ["", "1", "1a", "a b", "a-b", "a.b", "a\n", " a", "a ", "class", "None", "True", "def", "lambda", "async", "await", "a!", "if", "in",
         "return", "yield", "a:", "()", "A,B", "#a", "\"a\"", "False", "while", "with"]


HOW = ["crlf", "cr", "bom", "longer", "empty", "last", "first", "newline", "latin", "utf16", "spaces", "form"]  # see api_ops.ALTER


def histories(check, n):
    out = check.tlc("ApiMC", N=n)
    return [json.loads(json.loads(f'"{text}"')) for text in dict.fromkeys(re.findall(r'^"HIST(.*)"$', out, re.M))]


def ask(rng, wrong):
    """A request, with the given number of things that may be wrong about it."""
    req = {"via": rng.choice(["data", "yaml", "live", "live-yaml", "yaml"]), "cls": rng.choice(NAMES), "ext": rng.choice([".yaml", ".yml"]),
           "exists": True, "positions": rng.choice([["side"], ["above"], ["below"], [], ["side", "above"], ["below", "side"]]),
           "strat": {"list": rng.choice(["list", "Sequence"]), "tuple": rng.choice(["fixed", "any size"]),
                     "dict": rng.choice(["TypedDict", "Mapping", "dict"]), "min": rng.choice([0, 1, 2, 5]),
                     "thr": rng.choice([1, 2, 50, 99, 100]), "nolimit": rng.random() < 0.3, "limit": rng.choice([1, 2, 500]),
                     "pandas": rng.choice(["Full type hint", "Type hint only for autocomplete", "Do not type hint columns"])}}
    for what in rng.sample(["cls", "ext", "exists", "positions", "list", "tuple", "dict", "min", "thr", "limit", "pandas"], wrong):
        if what == "cls":
            req["cls"] = rng.choice(WRONG)
        elif what == "ext":
            req["ext"] = rng.choice(["", ".json", ".txt", ".yaml.bak", ".yam", ".py", ".yaml2", ".toml"])
        elif what == "exists":
            req["exists"] = False
        elif what == "positions":
            req["positions"] = rng.choice([["above", "below"], ["below", "above"], ["side", "above", "below"], ["below", "side", "above"]])
        elif what in ("list", "tuple", "dict", "pandas"):
            req["strat"][what] = rng.choice(["", "List", "Tuple", "sequence", "Dict", "typeddict", "any", "Fixed", "tuple", "mapping", "x",
                                             "list", "Sequence", "dict", "fixed", "Full type hint", "full type hint"])
        elif what == "min":
            req["strat"]["min"] = rng.choice([-1, -2, -100])
        elif what == "thr":
            req["strat"]["thr"] = rng.choice([0, -1, 101, 1000])
        else:
            req["strat"]["limit"] = rng.choice([0, -1, -500])
    return {**req, "op": "ask"}


def value(rng):
    """Sets are described in the order of their elements, which is not always the same."""
    while True:
        found = gen.value(rng, 2, iters=False, keys=gen.KEYS)
        if no_sets(found):
            return found


def files(check):
    rng = check.rng
    hists = [h for n in (1, 2) for h in histories(check, n)]
    more = histories(check, 3)
    check.count("enumerated_histories", len(hists) + len(more))
    hists += more if check.thorough else rng.sample(more, 700)
    hists += [[{**h, "ev": "write"}, {"ev": "alter", **{k: v for k, v in h.items() if k != "ev"}}, {**h, "ev": "write"}]
              for h in ({"path": p, "create": True, "content": 1} for p in (["f"], ["d", "f"])) for _ in range(60)]
    reqs = []
    for hist in hists:
        values = {x: value(rng) for x in (1, 2)}
        values[1] = {**gen.mk("dict", xs=[values[1]], ks=[{"t": "str", "s": rng.choice(["é", "漢字", "a", "😀", "\ud800"])}])}
        strat = gen.strat(rng, limit=False)
        reqs.append({"op": "writes", "events": [
            {**{k: v for k, v in ev.items() if k != "content"}, "value": values[ev["content"]], "strat": strat, "cls": "Example",
             "how": rng.choice(HOW), "tree": ev["content"] if rng.random() < 0.3 else 0, "ask": rng.random() < 0.5, "as": rng.choice(["str", "Path", "relative"])} for ev in hist]})
    judge(check, reqs)


def requests(check):
    n = check.pick(8000, 60000)
    reqs = [ask(check.rng, check.rng.choice([0, 0, 1, 1, 1, 2])) for _ in range(n)]
    check.count("random_requests", n)
    judge(check, reqs)


def judge(check, reqs):
    for i, req in enumerate(reqs):
        req["id"] = i
    if hasattr(check, "replay"):
        rec = check.replay
        reqs = [rec["request"] if rec["kind"] == "writes" else {**rec, "op": "ask"}]
        reqs[0]["id"] = 0
    recs = check.drive(reqs[::2], own_package=True)
    recs += check.drive(reqs[1::2], own_package=True, LANG="C", LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")
    check.report(check.judge("JudgeApi", recs), recs)
    check.sample({k: v for k, v in recs[-1].items() if k != "request"})
