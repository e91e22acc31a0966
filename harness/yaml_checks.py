"""Checks of from_yaml_file (Yaml.tla)."""
import yaml

import gen
import gen_yaml
from doc_checks import space

POSITIONS = [["side"], ["above"], ["below"], ["side", "above"], ["above", "side"], ["below", "side"], ["side", "below"]]


def loads(text):
    try:
        return yaml.safe_load(text.encode("utf-8", "surrogateescape")), True
    except Exception:  # noqa: BLE001
        return None, False


def supported(data, inside=False):
    """Sets are ordered by their hashes; the rest of what a loader returns can be described."""
    if isinstance(data, dict):
        return all(supported(v) for v in data.values())
    if isinstance(data, list):
        return all(supported(v) for v in data)
    return not (isinstance(data, set) and len(data) > 1)


def run(check, reqs, focus):
    for i, req in enumerate(reqs):
        req.update(op="yaml", id=i)
    if hasattr(check, "replay"):
        keep = ("positions", "strat", "text", "loader", "as", "file")
        reqs = [{**{k: check.replay[k] for k in keep}, "op": "yaml", "id": 0, "live": True}]
    recs = check.drive(reqs, own_package=True)
    for rec in recs:  # every space is the same for the specification
        for line in rec["file"]:
            line["text"] = space(line["text"])
        for one in [f for d in rec["mod"]["defs"] for f in [d, *d["fields"]]]:
            one["doc"] = space(one["doc"])
    check.report(check.judge("JudgeYaml", recs, FOCUS=focus), recs)
    check.sample(*[{"text": r["text"], "positions": r["positions"], "code": r["code"]} for r in recs[-3:]])


def strategy(rng):
    return gen.strat(rng)


def transparency(check):
    rng = check.rng
    reqs = []
    while len(reqs) < check.pick(5000, 60000):
        x = rng.random()
        text = gen_yaml.messy(rng) if x < 0.7 else "\n".join((gen_yaml.document if x < 0.85 else gen_yaml.family)(rng).raw) + "\n"
        data, fine = loads(text)
        if not fine or not supported(data):
            continue
        req = {"text": text, "positions": rng.choice([*POSITIONS, []]), "strat": strategy(rng) if rng.random() < 0.6 else gen.DEFAULT,
               "loader": "only-original" if rng.random() < 0.1 else "plain", "as": rng.choice(["str", "Path"]),
               "single": rng.random() < 0.5, "live": rng.random() < 0.5, "name": rng.choice(["file.yaml", "file.yml", "a b.yaml"])}
        reqs.append(req)
    check.count("random_files", len(reqs))
    for text in ["a: \udce9 # c\n", "a: 1 # \udce9\n", "a: \"\u2028\" # c\n", "a: 1 # \x07\n", "a: 1\nb: 2 # caf\u00e9\n"]:
        if loads(text)[1]:
            reqs.append({"text": text, "positions": ["side"], "strat": gen.DEFAULT, "live": True})
    run(check, reqs, "transparent")


def comments(check):
    rng = check.rng
    reqs = []
    files = check.gen("GenYaml", N=check.pick(4, 5))
    check.count("enumerated_files", len(files))
    if not check.thorough:
        short = [f for f in files if len(f) <= 3]
        files = short + rng.sample([f for f in files if len(f) > 3], 2500)
    for kinds in files:
        out = gen_yaml.small(kinds, rng.choice(["", ".", " etc"]))
        for positions in rng.sample(POSITIONS, 2):
            reqs.append({"text": "\n".join(out.raw) + rng.choice(["\n", ""]), "file": out.lines, "positions": positions,
                         "strat": gen.DEFAULT})
    made = 0
    while made < check.pick(4000, 60000):
        out = gen_yaml.family(rng) if rng.random() < 0.15 else gen_yaml.document(rng)
        text = "\n".join(out.raw) + "\n"
        if not loads(text)[1]:
            continue
        made += 1
        reqs.append({"text": text, "file": out.lines, "positions": rng.choice(POSITIONS), "live": False, "single": rng.random() < 0.5,
                     "strat": {**gen.DEFAULT, "ro": rng.random() < 0.1, "min": rng.choice([0, 1, 1, 3])}})
    check.count("random_files", made)
    run(check, reqs, "docs")
