"""Turn a generated module into the data structure specs/PyModule.tla talks about. Purely syntactic."""
import ast
import re


QUOTED = re.compile(r"NDArray\[np\.\w+\]|pd\.(Series|Index|DataFrame)(\[\w+\])?")  # a forward reference, not the name of a class


def expr(node):
    if isinstance(node, ast.Name):
        return {"k": "n", "n": node.id, "as": []}
    if isinstance(node, ast.Attribute):
        return {"k": "n", "n": ast.unparse(node), "as": []}
    if isinstance(node, ast.Constant):
        if node.value is None:
            return {"k": "n", "n": "None", "as": []}
        if node.value is ...:
            return {"k": "e", "n": "...", "as": []}
        if isinstance(node.value, str):
            return {"k": "s", "n": node.value, "as": []}
        return {"k": "c", "n": ast.unparse(node), "as": []}
    if isinstance(node, ast.Subscript) and isinstance(node.value, (ast.Name, ast.Attribute)):
        base = ast.unparse(node.value)
        if base == "Callable":
            return {"k": "c", "n": ast.unparse(node), "as": []}
        args = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
        return {"k": "a", "n": base, "as": [expr(a) for a in args]}
    return {"k": "c", "n": ast.unparse(node), "as": []}


def refs(node):
    """Names a definition refers to: attribute bases count as the module they belong to."""
    found = []
    for sub in ast.walk(node):
        if isinstance(sub, ast.Name) and isinstance(sub.ctx, ast.Load) and sub.id not in found:
            found.append(sub.id)
        elif isinstance(sub, ast.Constant) and isinstance(sub.value, str) and QUOTED.fullmatch(sub.value):
            found += [r for r in refs(ast.parse(sub.value, mode="eval")) if r not in found]
    return found


def is_doc(stmt):
    return isinstance(stmt, ast.Expr) and isinstance(stmt.value, ast.Constant) and isinstance(stmt.value.value, str)


def new_def(name, form):
    return {"name": name, "form": form, "e": {"k": "c", "n": "", "as": []}, "fields": [], "refs": [], "sig": "",
            "doc": "", "hasdoc": False, "overs": [], "keys": []}


def field(key, node):
    return {"key": key, "e": expr(node), "doc": "", "hasdoc": False}


def sig_of(func):
    args = ast.parse(ast.unparse(func)).body[0].args
    for name, values in (("defaults", args.defaults), ("kw_defaults", args.kw_defaults)):  # the same with another name
        setattr(args, name, [ast.Constant(...) if isinstance(x, ast.Name) and x.id == "Ellipsis" else x for x in values])
    ret = ast.unparse(func.returns) if func.returns is not None else "?"
    how = "async " if isinstance(func, ast.AsyncFunctionDef) else ""
    return f"proto:{how}({ast.unparse(args)}) -> {ret}"


def extract(code):
    mod = {"imports": [], "defs": [], "junk": []}
    try:
        tree = ast.parse(code)
    except (SyntaxError, ValueError) as error:
        mod["junk"].append(f"unparsable: {error}")
        return mod
    for stmt in tree.body:
        if isinstance(stmt, ast.ImportFrom):
            for al in stmt.names:
                mod["imports"].append({"m": stmt.module or "", "n": al.name, "as": al.asname or al.name})
        elif isinstance(stmt, ast.Import):
            for al in stmt.names:
                mod["imports"].append({"m": al.name, "n": "", "as": al.asname or al.name})
        elif isinstance(stmt, ast.AnnAssign) and isinstance(stmt.target, ast.Name) and stmt.value is not None:
            d = new_def(stmt.target.id, "alias")
            d["e"] = expr(stmt.value)
            d["refs"] = refs(stmt.value) + refs(stmt.annotation)
            if ast.unparse(stmt.annotation) != "TypeAlias":
                mod["junk"].append("annotation is not TypeAlias: " + ast.unparse(stmt))
            mod["defs"].append(d)
        elif isinstance(stmt, ast.Assign) and len(stmt.targets) == 1 and isinstance(stmt.targets[0], ast.Name):
            mod["defs"].append(functional(stmt, mod))
        elif isinstance(stmt, ast.ClassDef):
            mod["defs"].append(klass(stmt, mod))
        elif is_doc(stmt) and mod["defs"] and mod["defs"][-1]["form"] == "ftd" and not mod["defs"][-1]["hasdoc"]:
            mod["defs"][-1]["doc"] = stmt.value.value
            mod["defs"][-1]["hasdoc"] = True
        else:
            mod["junk"].append(ast.unparse(stmt))
    return mod


def functional(stmt, mod):
    name, call = stmt.targets[0].id, stmt.value
    if (isinstance(call, ast.Call) and isinstance(call.func, ast.Name) and call.func.id == "TypedDict"
            and len(call.args) == 2 and not call.keywords and isinstance(call.args[0], ast.Constant)
            and isinstance(call.args[1], ast.Dict)
            and all(isinstance(k, ast.Constant) and isinstance(k.value, str) for k in call.args[1].keys)):
        d = new_def(name, "ftd")
        if call.args[0].value != name:
            mod["junk"].append(f"functional TypedDict assigned to another name: {name}")
        d["fields"] = [field(k.value, v) for k, v in zip(call.args[1].keys, call.args[1].values)]
        d["refs"] = refs(call)
        keys = [f["key"] for f in d["fields"]]
        if len(set(keys)) != len(keys):
            mod["junk"].append(f"repeated key in {name}")
        return d
    d = new_def(name, "other")
    mod["junk"].append("assignment without TypeAlias: " + ast.unparse(stmt))
    return d


def klass(stmt, mod):
    bases = [ast.unparse(b) for b in stmt.bases]
    body = list(stmt.body)
    base_refs = [r for b in stmt.bases for r in refs(b)]
    if bases == ["TypedDict"]:
        d = new_def(stmt.name, "td")
        d["refs"] = list(base_refs)
        last = None
        for idx, sub in enumerate(body):
            if isinstance(sub, ast.AnnAssign) and sub.value is None and isinstance(sub.target, ast.Name):
                last = field(sub.target.id, sub.annotation)
                d["fields"].append(last)
                d["refs"] += refs(sub.annotation)
            elif is_doc(sub) and idx == 0:
                d["doc"], d["hasdoc"] = sub.value.value, True
            elif is_doc(sub) and last is not None and not last["hasdoc"]:
                last["doc"], last["hasdoc"] = sub.value.value, True
            elif isinstance(sub, ast.Expr) and isinstance(sub.value, ast.Constant) and sub.value.value is ...:
                continue
            else:
                mod["junk"].append("within a TypedDict: " + ast.unparse(sub))
        keys = [f["key"] for f in d["fields"]]
        if len(set(keys)) != len(keys):
            mod["junk"].append(f"repeated key in {stmt.name}")
        return d
    if bases == ["Protocol"] and len(body) == 1 and isinstance(body[0], (ast.FunctionDef, ast.AsyncFunctionDef)):
        d = new_def(stmt.name, "proto")
        d["refs"] = list(base_refs) + refs(body[0])
        d["sig"] = sig_of(body[0])
        if body[0].name != "__call__":
            mod["junk"].append("protocol without __call__")
        return d
    if bases == ["pd.DataFrame"]:
        return frame(stmt, body, base_refs, mod)
    mod["junk"].append("class: " + stmt.name + "(" + ", ".join(bases) + ")")
    return new_def(stmt.name, "other")


def frame(stmt, body, base_refs, mod):
    """class X(pd.DataFrame): overs are the literal overloads, keys the rest of the overloads (and the method)."""
    d = new_def(stmt.name, "frame")
    d["refs"] = list(base_refs)
    for sub in body:
        if not isinstance(sub, ast.FunctionDef) or sub.name != "__getitem__" or len(sub.args.args) != 2:
            mod["junk"].append("within a DataFrame: " + ast.unparse(sub)[:80])
            continue
        d["refs"] += refs(sub)
        over = any(ast.unparse(x) == "overload" for x in sub.decorator_list)
        key = sub.args.args[1].annotation
        if over and isinstance(key, ast.Subscript) and ast.unparse(key.value) == "Literal":
            d["overs"].append({"key": ast.unparse(key.slice), "e": expr(sub.returns)})
        else:
            elts = []
            if isinstance(key, ast.Subscript) and isinstance(key.slice, ast.Tuple):
                elts = [ast.unparse(x) for x in key.slice.elts]
            d["keys"].append({"over": over, "elts": elts, "ret": ast.unparse(sub.returns)})
    d["refs"] = [r for r in d["refs"]
                 if r not in {a.arg for sub in body if isinstance(sub, ast.FunctionDef) for a in sub.args.args}]
    return d
