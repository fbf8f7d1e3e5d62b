"""Literals of the library's sources, as hints for the workload.

A decoder that treats a value specially has to name it somewhere. The inputs made from
VERIF_SEED therefore also use the numbers and texts that occur in /repo/src (outside its tests);
those that occur more often than in literals.json, the list of the tree as it was when the
machinery was written, are used the most. The verdict never depends on any of this.

    literals.py > literals.json       the list for the current tree
"""
import json
import os
import re
import sys

TOKEN = re.compile(
    r"""//[^\n]*
    | /\*.*?\*/
    | b?r(?P<h>\#*)"(?P<raw>.*?)"(?P=h)
    | (?:b|c)?"(?P<str>(?:\\.|[^"\\])*)"
    | b?'(?P<chr>\\x[0-9a-fA-F]{2}|\\u\{[0-9a-fA-F_]+\}|\\.|[^'\\])'
    | (?<![\w.])(?P<int>0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?P<suffix>(?:[ui](?:8|16|32|64|128|size))?)(?![\w])
    | [A-Za-z_]\w*
    | [{}\#\[\]()!;]
    """,
    re.X | re.S,
)
ESC = {"n": "\n", "r": "\r", "t": "\t", "0": "\0", "\\": "\\", "'": "'", '"': '"'}


def unescape(s):
    def one(m):
        x = m.group(1)
        if x[0] == "x":
            return chr(int(x[1:], 16))
        if x[0] == "u":
            return chr(int(x[2:-1].replace("_", ""), 16))
        if x[0] == "\n":
            return ""
        return ESC.get(x[0], x[0])

    return re.sub(r"\\(x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|\n\s*|.)", one, s, flags=re.S)


def of(text):
    """Yields ("i", number) and ("s", text), not those of `#[cfg(test)] mod x { }`."""
    skip = None  # depth of the braces of a test module
    depth = 0
    pending = False
    recent = ""
    for m in TOKEN.finditer(text):
        t = m.group(0)
        if t.startswith(("//", "/*")):
            continue
        if t == "{":
            if pending and skip is None:
                skip = depth
            pending = False
            depth += 1
        elif t == "}":
            depth -= 1
            if skip == depth:
                skip = None
        elif t == ";" and pending:
            pending = False
        recent = (recent + t)[-40:]
        if re.search(r"#\[cfg\(test\)\]$", recent):
            pending = True
        if skip is not None:
            continue
        if m.group("int") is not None:
            s = m.group("int").replace("_", "")
            try:
                yield "i", int(s, 0) if not re.fullmatch(r"0\d+", s) else int(s)
            except ValueError:
                pass
        elif m.group("str") is not None:
            yield "s", unescape(m.group("str"))
        elif m.group("raw") is not None:
            yield "s", m.group("raw")
        elif m.group("chr") is not None:
            c = m.group("chr")
            c = unescape(c) if c.startswith("\\") else c
            if len(c) == 1:
                yield "i", ord(c)
                yield "s", c


def harvest(src):
    ints, strs = {}, {}
    for base, dirs, files in os.walk(src):
        dirs.sort()
        for f in sorted(files):
            if not f.endswith(".rs"):
                continue
            with open(os.path.join(base, f), errors="replace") as x:
                for kind, v in of(x.read()):
                    if kind == "i":
                        if v < 1 << 64:
                            ints[v] = ints.get(v, 0) + 1
                    else:
                        v = v.replace("\0", "")
                        if v and len(v.encode(errors="replace")) < 400 and not re.search(r"\{[^}]*\}", v):
                            strs[v] = strs.get(v, 0) + 1
    return ints, strs


def lines(src, known):
    """The hints for a worker: kind, then number or hex text; capital: not known."""
    ints, strs = harvest(src)
    try:
        with open(known) as f:
            old = json.load(f)
    except (OSError, ValueError):
        old = {"i": {}, "s": {}}
    out = []
    fresh = []
    for v, n in sorted(ints.items()):
        o = old["i"].get(str(v), 0)
        if n > o:
            fresh.append((min(o, 1), f"I {v}"))
        out.append(f"i {v}")
    for v, n in sorted(strs.items()):
        o = old["s"].get(v, 0)
        h = v.encode(errors="replace").hex()
        if n > o:
            fresh.append((min(o, 1), f"S {h}"))
        out.append(f"s {h}")
    fresh.sort(key=lambda x: x[0])
    return [x for _, x in fresh[:40]] + out


if __name__ == "__main__":
    i, s = harvest(sys.argv[1] if len(sys.argv) > 1 else "/repo/src")
    json.dump({"i": {str(k): v for k, v in sorted(i.items())}, "s": dict(sorted(s.items()))}, sys.stdout, indent=0)
    print()
