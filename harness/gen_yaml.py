"""YAML files: lines with the abstract description that specs/Yaml.tla reads, and messy texts."""
NAMES = ["name", "age", "b", "city", "Key", "a_b", "a-b", "x1", "with space", "items", "d", "Z", "zip"]
ODD = ["_u", "'quoted'", "\"double\"", "1", "9z", "é", "\"b\"", "'a b'", "'x: y'", "\"p # q\"", "b:c", "a#b", "'b'", "\"it's\"", "'9'"]
WORDS = ["first", "the", "Value", "of", "it", "A", "list", "of", "e.g.", "Done.", "end.", "x", "units", "(m)", "50%", "a/b", "key", "Note",
         "UPPER", "colon:", "k: v", "- item", "hash#tag", "[x]", "{y}", "*star", "&and", "!bang", "back\\slash", "tab", "1st",
         "ends with.", "comma,", "very-long-" + "word" * 8]
SCALARS = ["1", "2.5", "text", "true", "'single'", "\"double\"", "\"with # hash\"", "'a: b'", "[1, 2]", "[]", "{}", "{x: 1}", "null", "-3",
           "2020-01-01", "~", "\"a\ttab\"", "some words", "a-b", "http://x.y/z"]


def comment(rng, quotes=True):
    n = rng.choice([1, 1, 2, 3, 5, 8, 20])
    text = " ".join(rng.choice(WORDS) for _ in range(n))
    if rng.random() < 0.1:
        text = text.replace(" ", rng.choice(["   ", "\t", " \t "]), 1)
    if quotes and rng.random() < 0.1:
        text += rng.choice([" \"quoted\"", " it's", " 'x'", " é", " 漢字", " \"\"\"three\"\"\""])
    return text


class File:
    def __init__(self, rng):
        self.rng, self.lines, self.raw = rng, [], []

    def add(self, raw, kind, col=0, text="", path=(), cand=True):
        self.lines.append({"kind": kind, "col": col, "text": text, "path": list(path), "cand": cand})
        self.raw.append(raw)

    def comments(self, cols, p):
        rng = self.rng
        while rng.random() < p:
            col = rng.choice(cols)
            if rng.random() < 0.12:
                self.add(" " * col + "#" + " " * rng.choice([0, 1]), "comment", col)
            else:
                text = comment(rng).replace('"""', '"')
                if rng.random() < 0.15:
                    self.add("", "other")
                self.add(" " * col + "#" + " " * rng.choice([0, 1, 1, 1, 3]) + text, "comment", col, text)

    def blank(self):
        if self.rng.random() < 0.08:
            self.add(self.rng.choice(["", " " * 4]), "other")

    def key(self, indent, dash, name, path, cand, value, nested):
        """One line: [-] name: [value] [# comment]"""
        rng = self.rng
        lead = " " * (indent - len(dash)) + dash
        side = comment(rng, quotes=rng.random() < 0.5) if rng.random() < 0.35 else ""
        raw = f"{lead}{name}:"
        if not nested:
            raw += rng.choice([*[" ", " ", " ", "  "] * 5, "\t"]) + value
        if side:
            raw += rng.choice([*[" ", "  ", "  "] * 5, "\t", " \t"]) + "#" + " " * rng.choice([0, 1, 1]) + side
        elif rng.random() < 0.05:
            raw += "  #"
        self.add(raw, "key", indent, side, path, cand)

    def mapping(self, indent, path, depth, dash="", n=None, around=()):
        rng = self.rng
        names = rng.sample(NAMES if rng.random() < 0.8 else NAMES[:3], n or rng.choice([1, 2, 3, 3]))
        if rng.random() < 0.12:
            names[rng.randrange(len(names))] = rng.choice(ODD)
        for idx, name in enumerate(names):
            lead = dash if idx == 0 else ""
            if not lead:
                self.comments([indent, indent, indent, *around], 0.3)
                self.blank()
            plain = name.strip("'\"")
            here = [*path, plain]
            cand = (name[0].isalnum() or name[0] in "_'\"") and name != "b:c"
            x = rng.random()
            if depth > 0 and x < 0.3:
                self.key(indent, lead, name, here, cand, "", True)
                step = rng.choice([2, 2, 4])
                self.comments([indent, indent + step], 0.1)
                self.mapping(indent + step, here, depth - 1, around=[indent])
            elif depth > 0 and x < 0.5:
                self.key(indent, lead, name, here, cand, "", True)
                self.sequence(indent + rng.choice([0, 2, 2]), here, depth - 1)
            else:
                self.key(indent, lead, name, here, cand, rng.choice(SCALARS), False)

    def sequence(self, indent, path, depth):
        rng = self.rng
        here = [*path, "[]"]
        family = rng.random() < 0.5
        for _ in range(rng.choice([1, 2, 2, 3])):
            self.comments([indent, indent + 2], 0.15)
            x = rng.random()
            if depth > 0 and (family or x < 0.5):
                gap = rng.choice([1, 1, 1, 3])
                self.mapping(indent + 1 + gap, here, depth - 1, dash="-" + " " * gap, n=2 if family else None)
            else:
                side = "  # " + comment(rng, quotes=False) if rng.random() < 0.2 else ""
                self.add(" " * indent + "- " + rng.choice(["1", "text", "'a b'", "2.5", "true", "http://x.y/z"]) + side, "other")


def document(rng):
    out = File(rng)
    if rng.random() < 0.3:
        out.comments([0, 2], 0.6)
    if rng.random() < 0.8:
        out.mapping(0, [], rng.choice([0, 1, 2, 3]))
    else:
        out.sequence(0, [], rng.choice([1, 2, 3]))
    out.comments([0, 2, 4], 0.4)
    return out


def family(rng):
    """A list, or a mapping, of similar mappings; only some of their keys have comments."""
    out = File(rng)
    names = rng.sample(NAMES, rng.choice([2, 3, 4, 6]))
    values = {name: rng.choice(SCALARS) if rng.random() < 0.3 else "1" for name in names}
    listed, noted = rng.random() < 0.7, rng.random()
    if rng.random() < 0.5:
        out.add("items:", "key", 0, "", ["items"])
    base = 2 * len(out.raw)
    for i in range(rng.choice([2, 2, 3, 4])):
        path = ["items"] * (base > 0) + (["[]"] if listed else [f"m{i}"])
        if not listed:
            out.add(" " * base + f"m{i}:", "key", base, "", path)
        for j, name in enumerate(rng.sample(names, rng.randint(1, len(names)))):
            side = comment(rng) if rng.random() < noted else ""
            if rng.random() < noted / 3 and not (listed and j == 0):
                text = comment(rng).replace('"""', '"')
                out.add(" " * (base + 2) + "# " + text, "comment", base + 2, text)
            lead = " " * base + ("- " if listed and j == 0 else "  ")
            out.add(f"{lead}{name}: {values[name]}" + ("  # " + side if side else ""), "key", base + 2, side, [*path, name])
    return out


def small(kinds, salt):
    """A file for the kinds of lines that GenYaml enumerates."""
    out = File(None)
    parent = ""
    for i, kind in enumerate(kinds):
        word = f"comment {i}{salt}"
        if kind[0] in "KP":
            indent = 2 if kind[1] == "2" else 0
            name = f"k{i}"
            path = [parent, name] if indent else [name]
            parent = parent if indent else name
            side = word if kind.endswith("s") else ""
            out.add(" " * indent + name + ":" + (" 1" if kind[0] == "K" else "") + ("  # " + side if side else ""), "key", indent, side,
                    path)
        elif kind == "B":
            out.add("", "other")
        elif kind == "E0":
            out.add("#", "comment", 0)
        else:
            col = int(kind[1])
            text = word.capitalize() + "." if kind.endswith("u") else word
            out.add(" " * col + "# " + text, "comment", col, text)
    return out


# -- anything goes -------------------------------------------------------------
def messy(r):
    def cmt():
        return r.choice(["# c", "# a: b", "# - x: 1", "# 'q", "#no", "# \"\"\"", "  # two", "# Caps. and", "# k: # z", "# it's", "#", "# \\",
                         "# {x}", "# |", "#: -"])

    def scalar():
        return r.choice(["1", "1.5", "x", "'s'", "\"d\"", "true", "", "'a # b'", "\"x: y\"", "[1, 2]", "{a: 1, b: x}", "-1", "it's", "a-b",
                         "|\n@   text: 1 # c\n@   more", "{}", "[]", "&a 1", "!!str 3", "'it''s'", "\"a\\\"b\"", "2020-01-01", "~",
                         ">\n@  folded: x\n@  y # z", "\"two\n@   lines: # x\"", "http://x.y/#z", "x#y", "!!set {a, b}", "!!binary aGk=",
                         "2020-01-01 10:00:00", "0x10", ".inf", "a:b", "\"t\tt\""])

    def name():
        return r.choice(["a", "b", "cc", "d_e", "f-g", "h i", "'q'", "\"w\"", "1", "_u", "é", "a.b", "x1", "null", "true", "k/l", "-k",
                         "'a: b'", "2020-01-01", "a#b", "class", "a:b", "\"a\"", "'it''s'"])

    def node(ind, d):
        k = r.random()
        pad = " " * ind
        if d <= 0 or k < 0.1:
            return None
        n, out = r.choice([1, 2, 3]), []
        if k < 0.6:
            step, used = r.choice([2, 2, 4]), set()
            for _ in range(n):
                key = name()
                if key in used:
                    continue
                used.add(key)
                while r.random() < 0.3:
                    out.append(pad + cmt())
                sub = node(ind + step, d - 1)
                c = " " * r.choice([1, 2]) + cmt() if r.random() < 0.4 else ""
                if sub is None:
                    out.append(f"{pad}{key}:{' ' if r.random() < .9 else '  '}{scalar().replace('@', pad + '  ')}{c}")
                else:
                    out.append(f"{pad}{key}:{c}")
                    out += sub
                if r.random() < 0.2:
                    out.append(pad + cmt())
                if r.random() < 0.1:
                    out.append("")
        else:
            for _ in range(n):
                if r.random() < 0.3:
                    out.append(pad + cmt())
                sp = r.choice([1, 1, 1, 3])
                sub = node(ind + 1 + sp, d - 1)
                if sub is None:
                    c = "  " + cmt() if r.random() < 0.4 else ""
                    out.append(f"{pad}-{' ' * sp}{scalar().replace('@', pad + '  ')}{c}")
                elif sub[0].strip().startswith("#") or r.random() < 0.1:
                    out.append(pad + "-" + ("  " + cmt() if r.random() < 0.2 else ""))
                    out += sub
                else:
                    out.append(pad + "-" + " " * sp + sub[0][ind + 1 + sp:])
                    out += sub[1:]
        return out

    lines = node(0, r.choice([1, 2, 3, 4])) or ["a: 1"]
    text = "\n".join(lines) + r.choice(["\n", "\n", ""])
    x = r.random()
    if x < 0.04:
        text = "---" + r.choice(["", " # c"]) + "\n" + text
    elif x < 0.06:
        text = "%YAML 1.1\n---\n" + text
    elif x < 0.1:
        text = text.replace("\n", "\r\n")
    elif x < 0.12:
        text = text.replace("  #", r.choice([" \t#", "\t#"])) if r.random() < 0.5 else text.replace(": ", ":\t", r.choice([1, 2, 9]))
    elif x < 0.14:
        text = "\ufeff" + text
    return text
