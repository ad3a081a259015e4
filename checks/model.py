"""Program model loaded from the extractor's output."""
import json

class Fn:
    __slots__ = ("id", "name", "file", "line", "end", "ret", "static", "params",
                 "vars", "nodes", "blocks", "entry", "exit", "parent", "tu", "_cache")

    def __repr__(self):
        return "<Fn %s>" % self.id


class Block:
    __slots__ = ("id", "elems", "term", "tline", "cond", "succs", "case", "case2",
                 "casen", "default", "label", "noret")


class Program:
    def __init__(self):
        self.funcs = {}      # id -> Fn
        self.globals = {}    # id -> dict
        self.records = {}    # name -> {field: type}
        self.enums = {}      # name -> {const: value}
        self.externs = {}    # id -> (ret, [param types])
        self.tus = []


CHILD1 = {"mem": ("b",), "un": ("s",), "bin": ("l", "r"), "asg": ("l", "r"),
          "cond": ("c", "t", "e"), "idx": ("b", "i"), "cast": ("s",), "cl": ("s",),
          "ret": ("s",), "stmtexpr": ("s",), "vaarg": ("s",)}


def children(n):
    k = n["k"]
    if k in CHILD1:
        return [n[c] for c in CHILD1[k] if n.get(c, -1) is not None and n.get(c, -1) >= 0]
    if k == "call":
        r = list(n["a"])
        if "fe" in n:
            r.append(n["fe"])
        return r
    if k == "init":
        return [p[1] for p in n["i"] if p[1] >= 0]
    if k == "decls":
        return [p[1] for p in n["d"] if p[1] >= 0]
    if k == "other":
        return n.get("a", [])
    return []


def fix(n, S):
    for key in ("T", "M", "MI", "r", "id", "fn"):
        if key in n and not (key == "r" and n["k"] in ("bin", "asg")):
            n[key] = S[n[key]]
    k = n["k"]
    if k == "call" and "f" in n:
        n["f"] = S[n["f"]]
    elif k == "mem":
        n["f"] = S[n["f"]]
    elif k == "ref":
        n["n"] = S[n["n"]]
    elif k == "init" and "r" in n:
        n["i"] = [(S[a] if isinstance(a, int) else a, b) for a, b in n["i"]]


def parents(nodes):
    par = [-1] * len(nodes)
    for i, n in enumerate(nodes):
        for c in children(n):
            if par[c] == -1:
                par[c] = i
    return par


def load(paths):
    P = Program()
    for path in paths:
        d = json.load(open(path))
        S = d["strings"]
        P.tus.append(d["tu"])
        for e in d["externs"]:
            P.externs.setdefault(e[0], (S[e[1]], [S[x] for x in e[2]]))
        for r in d["records"]:
            P.records.setdefault(r["n"], {a: S[b] for a, b in r["f"]})
        for e in d["enums"]:
            P.enums.setdefault(e["n"] or "anon:%s" % (e["c"][0][0] if e["c"] else ""), dict((a, b) for a, b in e["c"]))
        for g in d["globals"]:
            for n in g["nodes"]:
                fix(n, S)
            g["T"] = S[g["T"]]
            g["file"] = S[g["file"]]
            old = P.globals.get(g["id"])
            if old is None or (old["init"] < 0 and g["init"] >= 0):
                P.globals[g["id"]] = g
        for f in d["funcs"]:
            if f["id"] in P.funcs:
                continue
            F = Fn()
            F._cache = {}
            F.id = f["id"]
            F.name = f["n"]
            F.file = S[f["file"]]
            F.line = f["L"]
            F.end = f["E"]
            F.ret = S[f["R"]]
            F.static = f["st"]
            F.params = f["p"]
            F.tu = d["tu"]
            if f.get("nocfg"):
                continue
            F.vars = [(a[0], S[a[1]], a[2], a[3]) for a in f["vars"]]
            F.nodes = f["nodes"]
            for n in F.nodes:
                fix(n, S)
            F.parent = parents(F.nodes)
            F.entry = f["entry"]
            F.exit = f["exit"]
            F.blocks = {}
            for b in f["blocks"]:
                B = Block()
                B.id = b["i"]
                B.elems = b["e"]
                B.term = b.get("t")
                B.tline = b.get("tl")
                B.cond = b.get("c")
                B.succs = b["s"]
                B.case = b.get("case")
                B.case2 = b.get("case2")
                B.casen = b.get("casen")
                B.default = b.get("default", False)
                B.label = b.get("label")
                B.noret = b.get("nr", False)
                F.blocks[B.id] = B
            P.funcs[F.id] = F
    return P
