"""The trees behind the type hints: what they say of themselves, and of each other."""
import kind_ops
import lazy_type_hint
import ops
from build import strategies
from extract import extract
from lazy_type_hint.data_type_tree import data_type_tree_factory


def nodes(root):
    """The nodes that are found by iterating, and how they are linked."""
    found, index, out = [root], {id(root): 1}, []
    for tree in found:  # it grows meanwhile
        kids, again = list(tree), list(tree)
        for kid in kids:
            if id(kid) not in index:
                found.append(kid)
                index[id(kid)] = len(found)
        out.append({"kids": kids, "again": [id(k) for k in kids] == [id(k) for k in again], "len": len(tree), "depth": tree.depth,
                    "height": tree.height, "up": tree.parent})
    for node in out:
        node["kids"] = [index[id(kid)] for kid in node["kids"]]
        node["up"] = 0 if node["up"] is None else index.get(id(node["up"]), -1)
    return out


def op_trees(req, scratch):
    """Two values and the trees of both."""
    make = kind_ops.MAKE.get(req["kind"], ops.plain)
    if req["kind"] != "core" and not (kind_ops.known(req) and kind_ops.known({**req, "value": req["other"]})):
        return None
    rec = {"id": req["id"], "kind": req["kind"], "strat": req["strat"], "variant": req["variant"], "asked": [req["value"], req["other"]], "err": "",
           "nodes": [], "after": [], "more": [], "eq": [], "hash": [], "mod": ops.NOMOD, "renamed": ops.NOMOD, "str": False, "value": {}, "other": {}}
    rec["asked"] = ops.json.dumps(rec["asked"])
    value, rec["value"] = make(req["value"], variant=req["variant"], scratch=scratch)
    other, rec["other"] = make(req["other"], variant=req["variant"], start=50, scratch=scratch)
    again, _ = make(req["value"], variant=req["variant"], start=9, scratch=scratch)
    strat = strategies(lazy_type_hint, req["strat"])
    try:
        trees = [data_type_tree_factory(x, name="Example", strategies=strat) for x in (value, other, again)]

        def compared():
            a, b, c = trees
            return [a == b, b == a, not a != b, a == c, a == a, len({a, b}) == 1]
        rec["eq"].append(compared())
        rec["hash"] = [hash(trees[0]) == hash(tree) for tree in trees]
        rec["nodes"] = nodes(trees[0])
        text = trees[0].get_str_all_nodes()
        rec["mod"] = extract(text)
        rec["str"] = str(trees[0]) == text
        rec["after"] = nodes(trees[0])
        rec["eq"].append(compared())
        trees[0].rename(req["name"])
        rec["renamed"] = extract(str(trees[0]))
        rec["more"] = nodes(trees[0])
        rec["eq"].append(compared())
    except Exception as error:  # noqa: BLE001
        rec["err"] = f"{type(error).__name__}: {error}"
    return rec
