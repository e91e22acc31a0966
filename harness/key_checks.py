"""Any text may be a key, and the modules define what they say once imported."""
import json

import gen

PIECES = ["a", "b", "A", "1", "9", "_", "__", " ", "-", ".", ",", ":", ";", "=", "==", "(", ")", "[", "]", "{", "}", "{name}", "{0}", "%s", "%",
          "'", '"', "'''", '"""', "\\", "\\n", "\n", "\r", "\t", "\0", "\x07", "\x1b", "\x7f", "\x85", "\u2028", "\u200b", "\u200d", "\ufeff", "\ud800",
          "\udfff", "é", "e\u0301", "ª", "º", "ﬁ", "fi", "ａ", "Ａ", "ℂ", "C", "ſ", "s", "ß", "ı", "İ", "K", "k", "Ω", "Ω", "漢", "字", "😀", "٣", "²", "①",
          "·", "℘", "\u0301", "x", "X", "#", "$", "@", "!", "->", "TypeAlias", "Example", "\\u0041", "\\N{BULLET}", "#x", "\u202e"]
WHOLE = ["class", "None", "True", "async", "match", "type", "_", "__", "___", "__init__", "__class__", "__doc__", "__annotations__", "__required_keys__",
         "__p", "_p", "__p__", "self", "keys", "items", "get", "int", "str", "float", "dict", "list", "List", "Dict", "Union", "Any", "Optional", "TypedDict",
         "NotRequired", "ReadOnly", "TypeAlias", "Example", "ExampleA", "Example2", "A", "a", "A2", "a2", "total", "name", "value", "Self", "object", "mro",
         "pop", "", " ", "  ", "\n", "WSpace", "import", "print", "a_b", "aB", "AB", "ab", "a b", "a-b", "a__b", "1a", "1_a", "__1"]


def name(rng):
    if rng.random() < 0.4:
        return rng.choice(WHOLE)
    return "".join(rng.choice(PIECES) for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 8])))


LEAVES = ["int", "float", "str", "bool", "bytes", "complex", "range", "bytearray", "ValueError"]


def no_object(v):
    """At run time Optional[object] is the same as object and None."""
    return not (v["k"] == "leaf" and v["t"] in ("object", "memoryview")) and not (
        v["k"] == "fixed" and v["t"].startswith(("proto", "Callable"))) and not any(k["t"] == "object" for k in v["ks"]) and all(
            no_object(x) for x in v["xs"])


def keys(check):
    rng = check.rng
    reqs, want = [], check.pick(8000, 80000)
    while len(reqs) < want:
        pool = list(dict.fromkeys(name(rng) for _ in range(rng.choice([3, 5, 8]))))
        s = gen.strat(rng)
        if rng.random() < 0.7:
            s["dict"] = "TypedDict"
        v = gen.value(rng, rng.choice([1, 2, 3, 3]), iters=False, keys=pool, bias="merge" if rng.random() < 0.4 else None)
        if gen.trunc_safe(v, s) and no_object(v):
            cls = rng.choice(["Example"] * 8 + ["A", "a", "_", "ExampleA", "List", "Foo", "TypedDict", "Union", "TypeAlias", "int", "_Example"])
            reqs.append({"op": "keys", "id": len(reqs), "value": v, "strat": s, "cls": cls})
    if hasattr(check, "replay"):
        reqs = [{"op": "keys", "id": 0, "value": json.loads(check.replay["asked"]), "strat": check.replay["strat"], "cls": check.replay["cls"]}]
    recs = check.drive(reqs)
    check.count("random_values", len(recs))
    check.report(check.judge("JudgeKeys", recs), recs)
    check.sample(*[{"code": r["code"]} for r in recs[-2:]])
