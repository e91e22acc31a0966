"""Documentation within the data (Docs.tla)."""
import gen

WORDS = ["Person", "the", "data", "of", "it.", "e.g.", "\"quoted\"", "'single'", "\"\"\"", "'''", "\\n", "\\", "é", "漢字", "%s", "{x}", "# no",
         "a" * 40, "b" * 95, "line", "with", "Some", "words.", "\\\"", "r\"raw\"", "\x00", "\x07", "\ud800", "\u200b", "😀", "\x7f", "-",
         ":", "...", "end\\"]
KEYS = ["doc", "doc", "doc", "a", "x-y", "_doc", "class"]


def text(rng):
    n = rng.choice([0, 1, 1, 2, 3, 5, 9, 15, 16, 17, 18, 30, 60])
    pool = WORDS if rng.random() < 0.5 else WORDS[:6] + ["data"] * 6 + ["line", "with"]
    out = ""
    for i in range(n):
        if rng.random() < 0.1:  # words a line could be split within
            out += " " + joined(rng)
        out += ("" if i == 0 else rng.choice([" "] * 12 + ["\n", "\n\n", "  ", "\t", "\n    ", " \n", "\n \n"])) + rng.choice(pool)
    return rng.choice(["", "", "", "", "\n", " "]) + out + rng.choice(["", "", "", ".", "\n", ". ", ".\n", ' "', "\\", '"'])


def joined(rng):
    """A word of several parts."""
    parts = ["w" * rng.choice([1, 2, 3, 5, 8, 13, 40]) for _ in range(rng.choice([2, 2, 3, 5, 12]))]
    return rng.choice(["-", "-", "--", "\u2014", "/", ".", ",", ";", "_", "\u00ad", "\u2010", "\u200b", "&", "'", "|"]).join(parts)


def fitting(rng):
    """Around the width at which lines are split."""
    words, total = [], rng.choice([82, 83, 84, 85, 86, 88, 89, 90, 91, 92, 93, 94, 180, 181])
    while total > 0:
        n = min(total, rng.choice([1, 2, 5, 10]))
        words.append("w" * n if rng.random() < 0.8 or n < 4 else "w" * (n - 2) + rng.choice("-/.—_") + "w")
        total -= n + 1
    return " ".join(words) + rng.choice(["", "."])


def document(rng, value, key, p):
    """Give documentation to the dictionaries of a value."""
    xs, ks = [document(rng, x, key, p) for x in value["xs"]], list(value["ks"])
    if value["k"] == "dict" and all(k["t"] == "str" for k in ks) and key and rng.random() < p:
        said = fitting(rng) if rng.random() < 0.2 else text(rng)
        new = {**gen.mk("leaf", "str"), "txt": said}
        if rng.random() < 0.08:
            new = gen.mk("leaf", "int")
        at = next((i for i, k in enumerate(ks) if k["s"] == key), None)
        if at is None:
            at = rng.randrange(len(ks) + 1)
            ks.insert(at, {"t": "str", "s": key})
            xs.insert(at, new)
        else:
            xs[at] = new
    elif value["k"] == "dict":
        keep = [i for i, k in enumerate(ks) if k["s"] != key]
        xs, ks = [xs[i] for i in keep], [ks[i] for i in keep]
    return {**value, "xs": xs, "ks": ks}


def documentation(check):
    rng = check.rng
    reqs = []
    want = check.pick(6000, 60000)
    while len(reqs) < want:
        key = rng.choice(KEYS) if rng.random() < 0.95 else ""
        s = {**gen.strat(rng), "doc": key}
        if rng.random() < 0.7:
            s["dict"] = "TypedDict"
        v = gen.value(rng, rng.choice([1, 2, 2, 3]), iters=False, bias="merge" if rng.random() < 0.6 else None,
                      keys=gen.PLAIN_KEYS if rng.random() < 0.7 else gen.KEYS)
        v = document(rng, v, key, rng.choice([0.3, 0.7, 1]))
        if gen.trunc_safe(v, s):
            reqs.append({"op": "core", "id": len(reqs), "value": v, "strat": s, "cls": "Example"})
    if hasattr(check, "replay"):
        reqs = [{"op": "core", "id": 0, **{k: check.replay[k] for k in ("value", "strat", "cls")}}]
    recs = check.drive(reqs)
    for rec in recs:  # every space is the same for the specification, new lines aside
        spaces(rec["value"])
        for d in rec["mod"]["defs"]:
            d["doc"] = space(d["doc"])
    check.count("random_values", len(recs))
    check.report(check.judge("JudgeDocs", recs), recs)
    check.sample(*[{"value": r["value"], "code": r["code"]} for r in recs[-2:]])


def space(said):
    said = said.encode("utf-8", "backslashreplace").decode("utf-8")
    said = "".join(" " if c.isspace() and c != "\n" else c for c in said)
    return "".join(c if c <= "\uffff" else chr(0xE000 + ord(c) % 0x1000) for c in said)  # TLC counts UTF-16 units


def spaces(value):
    if "txt" in value:
        value["txt"] = space(value["txt"])
    for x in value["xs"]:
        spaces(x)
