"""Callables within the data (Callables.tla): every shape of a signature."""
import ast

import gen

ODD = ["ODD", "object()", "float('nan')", "math.inf", "len", "Odd", "(1, ODD)", "lambda: 1", "asyncio", "{1: ODD}"]

# Bodies: whether there is a return or a yield in them
RETURNS = ["return", "return 1", "return None", "if ODD:\n    return 2", "for _ in []:\n    return 3", "try:\n    pass\nexcept Exception:\n    return 1",
           "try:\n    pass\nfinally:\n    return 2", "while ODD:\n    if ODD:\n        return 1", "with open('x'):\n    return 3",
           "x = 1\nif x:\n    pass\nelse:\n    return x", "match ODD:\n    case 1:\n        return 2", "\"\"\"Doc.\"\"\"\n\nreturn ODD",
           "# nothing\n\nreturn 1  # that", "try:\n    pass\nexcept Exception:\n    pass\nelse:\n    return 1", "for _ in []:\n    pass\nelse:\n    return 1",
           "return '''\nx\n'''"]
YIELDS = ["yield", "yield 1", "x = yield 1", "yield from [1]", "for i in []:\n    yield i", "print((yield))"]
QUIET = ["pass", "...", "\"\"\"It must return nothing.\"\"\"", "x = 'return 1'", "# return 1\nx = 2", "raise ValueError", "for _ in []:\n    x = 1",
         "if ODD:\n    pass\nelse:\n    x = lambda: 1", "assert ODD", "print('yield')", "x = '''\nreturn 1\n'''",
         "with open('x') as f:\n    pass", "del ODD"]

ANNS = ["int", "str", "List[int]", "Dict[str, int]", "Optional[str]", "Union[int, str]", "Callable[[int], str]", "Tuple[int, ...]", "Any", "list", "list[int]",
        "'int'", "'List[int]'", "Type[int]", "Sequence[str]", "bytes", "object", "Literal['a->b']", "Iterator[int]", "Set[int]", "Mapping[str, Any]", "None",
        "Callable[..., Any]", "Literal['(']", "FrozenSet[int]", "List[Union[int, str]]"]
DFLT = ["1", "-1", "0", "'a'", "'->'", "None", "True", "1.5", "(1, 2)", "[1, 2]", "{'a': 1}", "b'x'", "'it\\'s'", "()", "[]", "{}", "'a, b)'", "'\\n'",
        "1j", "(1,)", "{1, 2}", "?", "?", "?"]
TEXTS = ["<", ">", "<=", "<object>", "<lambda>", " at 0x7f", "...", "=", ":", "#", ", ", "(", ")", "->", "*", "/", "{", "}", "@", "lambda", "é", "漢", "😀", "\\", "\n",
         "\t", "'", '"', "a", "None", "self", "x" * 200, "%s", "\0", "\ud800", " "]


def default(rng):
    """The text of some default value: most of them, of the known ones."""
    x = rng.random()
    if x < 0.8:
        return rng.choice(DFLT)
    if x < 0.95:
        return repr("".join(rng.choice(TEXTS) for _ in range(rng.choice([1, 1, 2, 3]))))
    return rng.choice(["1e300", "-0.0", "10**0", "[{'a': [1, (2,)]}]", "(-1, '<')", "b'\\xff'", "True", "False", "...", "{'<': None}", "1e999", "-1e999", "(1+2j)",
                       "frozenset()", "set()", "range(3)", "1_000", "0x10", "[[]]", "{'a': {1: {2}}}", "(None,)", "''", "'' 'a'"])


NAMES = ["a", "b", "c", "x", "data", "self", "cls", "_x", "é", "args", "kwargs", "int_", "name", "Example", "List", "int", "match", "type"]
BUILTINS = ["len", "'a'.join", "[].append", "print", "math.sin", "max", "''.upper", "sorted", "dict.fromkeys"]


def canonical(text):
    """The text of a default value once written by Python."""
    return ast.unparse(ast.parse(text, mode="eval").body)


def written(text):
    """The text of a default value: it is written as Python does if that is a literal."""
    if text in ("", "?"):
        return text
    shown = repr(eval(text))  # noqa: S307
    try:
        ast.literal_eval(shown)
    except (ValueError, SyntaxError):
        return "?"
    return canonical(shown)


def shape_to_fn(rng, s):
    kind = s["kind"]
    if kind == "async" and rng.random() < 0.3:
        kind = "asyncmethod"
    bound = kind in ("method", "classm", "asyncmethod", "rawclassm")
    pks = ["po"] * s["po"] + ["pk"] * s["pk"] + (["va"] if s["va"] else []) + ["ko"] * s["ko"] + (["vk"] if s["vk"] else [])
    if bound and pks[:1] not in (["po"], ["pk"]):
        pks = ["pk", *pks]
    names = rng.sample(NAMES, len(pks))
    if bound:
        names = [n if n != "self" else "other" for n in names]
        names[0] = "self"
    params = []
    positional = sum(pk in ("po", "pk") for pk in pks)
    quiet = rng.random() < 0.3
    for i, pk in enumerate(pks):
        dflt = ""
        if (pk in ("po", "pk") and i >= positional - s["dflt"]) or (pk == "ko" and rng.random() < 0.4):
            dflt = default(rng)
        ann = "" if quiet or kind == "lambda" or rng.random() < 0.3 else rng.choice(ANNS)
        params.append({"name": names[i], "pk": pk, "ann": ann, "dflt": dflt, "odd": rng.choice(ODD)})
    returns, body = s["returns"], ""
    if kind == "builtin":
        params, body = [], rng.choice(BUILTINS)
    elif kind == "lambda":
        body = rng.choice(["1", "[2]", "None", "(lambda y: y)"])
    elif returns:
        body = rng.choice(RETURNS if kind in ("async", "asyncmethod") or rng.random() < 0.6 else YIELDS)
    else:
        body = rng.choice(QUIET)
        if rng.random() < 0.3:
            body += "\n" + rng.choice(QUIET[2:])
    return {"kind": kind, "params": params, "ret": rng.choice(ANNS) if s["ret"] else "", "returns": returns, "body": body}


BOUND = ("method", "classm", "asyncmethod", "rawclassm")
KINDS = (*BOUND, "def", "async", "wrapped", "static", "rawstatic", "unbound", "nosource")


def twin(rng, fn):
    """A callable with a single difference."""
    fn = {**fn, "params": [{**p} for p in fn["params"]]}
    kinds = [k for k in KINDS if (k in BOUND) == (fn["kind"] in BOUND)]
    x = rng.random()
    if fn["kind"] in ("builtin", "lambda"):
        return fn
    if x < 0.35:
        fn["kind"] = rng.choice(kinds)
        if fn["returns"] and fn["kind"] in ("async", "asyncmethod"):
            fn["body"] = "return 1"
    elif x < 0.5:
        fn["returns"] = not fn["returns"]
        fn["body"] = "return 1" if fn["returns"] else "pass"
    elif x < 0.6 or not fn["params"][1:]:
        fn["ret"] = rng.choice(ANNS) if rng.random() < 0.7 else ""
    else:
        p = rng.choice(fn["params"][1:])
        what = rng.choice(["name", "ann", "dflt"])
        if what == "name":
            p["name"] = rng.choice([n for n in NAMES if n not in [q["name"] for q in fn["params"]]])
        elif what == "ann":
            p["ann"] = rng.choice(["", *ANNS])
        elif p["dflt"]:
            p["dflt"] = default(rng)
    return fn


def place(rng, fns):
    """A value that holds them."""
    leaves = [{**gen.mk("leaf", "int"), "fn": fn} for fn in fns]
    x = rng.random()
    if x < 0.25 and len(leaves) == 1:
        return leaves[0], True
    if x < 0.5:
        return gen.mk(rng.choice(["list", "tuple", "iter"]), xs=leaves), False
    names = rng.sample(gen.KEYS, len(leaves))
    if x < 0.8:
        return gen.mk("dict", xs=leaves, ks=[{"t": "str", "s": n} for n in names]), True
    extra = gen.value(rng, 1, iters=False)
    inner = gen.mk("dict", xs=[gen.mk("list", xs=leaves), extra], ks=[{"t": "str", "s": n} for n in ("calls", "x")])
    return rng.choice([inner, gen.mk("list", xs=[inner, gen.mk("leaf", "int")])]), True


def callables(check):
    rng = check.rng
    shapes = check.gen("GenCallables")
    check.count("shapes", len(shapes))
    rng.shuffle(shapes)
    want = check.pick(7000, 60000)
    reqs, at = [], 0
    while at < want:
        n = rng.choice([1, 1, 1, 2, 2, 3, 5])
        fns = [shape_to_fn(rng, shapes[(at + i) % len(shapes)]) for i in range(n)]
        at += n
        if n > 1 and rng.random() < 0.5:  # one of them again, or only some difference
            again = rng.choice(fns)
            fns.append(again if rng.random() < 0.3 else twin(rng, again))
        value, apart = place(rng, fns)
        # annotations already written as texts would be quoted twice
        quoted = rng.random() < 0.1
        if quoted:
            for fn in fns:
                for p in fn["params"]:
                    p["ann"] = p["ann"].replace("'", "") and p["ann"] if "'" not in p["ann"] else ""
                fn["ret"] = "" if "'" in fn["ret"] else fn["ret"]
        s = gen.strat(rng)
        if gen.trunc_safe(value, s):
            reqs.append({"op": "callables", "id": len(reqs), "value": value, "strat": s, "apart": apart, "quoted": quoted})
    if hasattr(check, "replay"):
        reqs = [{"op": "callables", "id": 0, "quoted": False, **{k: check.replay[k] for k in ("value", "strat", "apart")}}]
    quotes = {r["id"]: r["quoted"] for r in reqs}
    recs = check.drive(reqs)
    for rec in recs:
        prepare(rec["value"], quotes[rec["id"]])
    check.count("random_values", len(recs))
    check.report(check.judge("JudgeCallables", recs), recs)
    check.sample(*[{"source": r["source"][-300:], "code": r["code"]} for r in recs[-2:]])


def prepare(value, quoted):
    """What has to be said of every function: canonical texts."""
    if "fn" in value:
        fn = value["fn"]
        for p in fn["params"]:
            p["dflt"] = written(p["dflt"])
            p["ann"] = said(p["ann"], quoted)
        fn["ret"] = said(fn["ret"], quoted)
    for x in value["xs"]:
        prepare(x, quoted)


def said(ann, quoted):
    if ann == "":
        return ""
    return canonical(repr(ann)) if quoted else canonical(ann)
