"""Queries shared by the rule modules (all over the resolved model)."""
import collections

from model import children
from front import Broken


def strip(fn, i):
    """through casts, parentheses, compound literals, & and * of literals"""
    n = fn.nodes[i]
    while n["k"] in ("cast", "stmtexpr"):
        i = n["s"]
        n = fn.nodes[i]
    return i


def walk(fn, i):
    st = [i]
    while st:
        x = st.pop()
        if x < 0:
            continue
        yield x, fn.nodes[x]
        st += reversed(children(fn.nodes[x]))


def root_var(fn, i):
    """(variable index, [fields]) of an lvalue/pointer expression, or None"""
    path = []
    while True:
        n = fn.nodes[i]
        k = n["k"]
        if k in ("cast", "stmtexpr", "cl"):
            i = n["s"]
        elif k == "un" and n["o"] in ("&", "*"):
            i = n["s"]
        elif k == "mem":
            path.append(n["f"])
            i = n["b"]
        elif k == "idx":
            i = n["b"]
        elif k == "ref" and n["d"] in ("l", "p"):
            return n["v"], tuple(reversed(path))
        else:
            return None


def var_defs(fn, v):
    """nodes whose value is assigned to local v (whole variable)"""
    c = fn._cache.setdefault("vdefs", None)
    if c is None:
        c = collections.defaultdict(list)
        for i, n in enumerate(fn.nodes):
            if n["k"] == "decls":
                for vv, init in n["d"]:
                    if init >= 0:
                        c[vv].append(init)
            elif n["k"] == "asg":
                l = fn.nodes[strip(fn, n["l"])]
                if l["k"] == "ref" and l["d"] in ("l", "p"):
                    c[l["v"]].append(n["r"])
        fn._cache["vdefs"] = c
    return c.get(v, [])


class Strings:
    """string constants an expression may be built from: through locals,
    helper results, constant globals and (optionally) parameters"""

    def __init__(self, ix):
        self.ix = ix
        self.p = ix.p

    def of(self, fn, i, depth=0, seen=None, params=None):
        """set of string constants reachable from expression i"""
        seen = set() if seen is None else seen
        out = set()
        if depth > 6:
            return out
        for x, n in walk(fn, i):
            if n["k"] == "str":
                out.add(n.get("s", ""))
            elif n["k"] == "ref":
                if n["d"] in ("l", "p"):
                    key = (fn.id, n["v"])
                    if key in seen:
                        continue
                    seen.add(key)
                    for d in var_defs(fn, n["v"]):
                        out |= self.of(fn, d, depth, seen, params)
                    if n["d"] == "p" and params:
                        out |= self.param(fn, n["v"], depth + 1, seen, params)
                elif n["d"] == "g":
                    out |= self.glob(n.get("id") or n["n"])
            elif n["k"] == "call" and "f" in n:
                g = self.p.funcs.get(n["f"])
                if g and (g.id, "ret") not in seen:
                    seen.add((g.id, "ret"))
                    for m in g.nodes:
                        if m["k"] == "ret" and m["s"] >= 0:
                            out |= self.of(g, m["s"], depth + 1, seen, False)
        return out

    def glob(self, gid, depth=0):
        """string constants of a constant global, through the globals it points to"""
        out = set()
        g = self.p.globals.get(gid)
        if g and g["init"] >= 0 and depth < 4:
            for m in g["nodes"]:
                if m["k"] == "str":
                    out.add(m.get("s", ""))
                elif m["k"] == "ref" and m["d"] == "g":
                    out |= self.glob(m.get("id") or m["n"], depth + 1)
        return out

    def param(self, fn, v, depth, seen, params):
        out = set()
        pi = fn.params.index(v) if v in fn.params else -1
        for g, ci in self.ix.calls.get(fn.id, ()):
            a = g.nodes[ci]["a"]
            if 0 <= pi < len(a):
                out |= self.of(g, a[pi], depth + 1, seen, params)
        return out


def calls(prog, name):
    """[(fn, node id, node)] of every call to a function with that name"""
    c = getattr(prog, "_callidx", None)
    if c is None:
        c = collections.defaultdict(list)
        for f in prog.funcs.values():
            for i, n in enumerate(f.nodes):
                if n["k"] == "call" and "fn" in n:
                    c[n["fn"]].append((f, i, n))
        prog._callidx = c
    return c.get(name, [])


def is_ref(fn, i, name=None):
    n = fn.nodes[strip(fn, i)]
    return n["k"] == "ref" and (name is None or n.get("n") == name)


def lit(fn, i):
    """the string constant expression i is, if it is exactly one"""
    n = fn.nodes[strip(fn, i)]
    if n["k"] == "str":
        return n.get("s", "")
    return None


def loops_of(fn):
    """natural loops: {header block: set(blocks)} from back edges (DFS)"""
    c = fn._cache.get("loops")
    if c is not None:
        return c
    # dominators (iterative)
    order = []
    seen = set()
    st = [(fn.entry, iter(fn.blocks[fn.entry].succs))]
    seen.add(fn.entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s >= 0 and s not in seen:
                seen.add(s)
                st.append((s, iter(fn.blocks[s].succs)))
                break
        else:
            order.append(b)
            st.pop()
    order.reverse()
    pos = {b: k for k, b in enumerate(order)}
    preds = collections.defaultdict(list)
    for b in order:
        for s in fn.blocks[b].succs:
            if s >= 0:
                preds[s].append(b)
    idom = {fn.entry: fn.entry}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while pos[x] > pos[y]:
                                x = idom[x]
                            while pos[y] > pos[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True
    loops = {}
    for b in order:
        for s in fn.blocks[b].succs:
            if s < 0 or s not in idom:
                continue
            d = b
            while d != s and d != fn.entry:
                d = idom[d]
            if d == s:
                body = loops.setdefault(s, {s})
                w = [b]
                while w:
                    x = w.pop()
                    if x not in body:
                        body.add(x)
                        w += preds[x]
    fn._cache["loops"] = loops
    fn._cache["idom"] = idom
    return loops


def field_of(fn, i):
    """(record, field) an lvalue or address expression ends in, or None"""
    while True:
        n = fn.nodes[i]
        k = n["k"]
        if k in ("cast", "stmtexpr") or (k == "un" and n["o"] in ("&", "*")):
            i = n["s"]
        elif k == "mem":
            return (n.get("r"), n["f"])
        elif k == "idx":
            i = n["b"]
        else:
            return None


def fields_of(fn, i):
    """every (record, field) on the way from an lvalue to its base object"""
    out = []
    while True:
        n = fn.nodes[i]
        k = n["k"]
        if k in ("cast", "stmtexpr") or (k == "un" and n["o"] in ("&", "*")):
            i = n["s"]
        elif k == "mem":
            out.append((n.get("r"), n["f"]))
            i = n["b"]
        elif k == "idx":
            i = n["b"]
        else:
            return out


def fp_field(fn, n):
    """(record, field) of the function pointer a call goes through, or None"""
    if "fe" not in n:
        return None
    return field_of(fn, n["fe"])


def is_mem(fn, i, rec, field=None):
    f = field_of(fn, i)
    return f is not None and f[0] == rec and (field is None or f[1] == field)


def files_under(prog, prefix):
    return [f for f in prog.funcs.values() if f.file.startswith(prefix)]


def same(fn, i, j):
    """structurally equal expressions (side-effect free forms)"""
    i, j = strip(fn, i), strip(fn, j)
    a, b = fn.nodes[i], fn.nodes[j]
    if a["k"] != b["k"]:
        return False
    k = a["k"]
    if k == "ref":
        return a["d"] == b["d"] and a.get("n") == b.get("n") and a.get("v") == b.get("v")
    if k == "mem":
        return a["f"] == b["f"] and a.get("ar") == b.get("ar") and same(fn, a["b"], b["b"])
    if k == "un":
        return a["o"] == b["o"] and same(fn, a["s"], b["s"])
    if k == "idx":
        return same(fn, a["b"], b["b"]) and same(fn, a["i"], b["i"])
    if k == "bin":
        return a["o"] == b["o"] and same(fn, a["l"], b["l"]) and same(fn, a["r"], b["r"])
    if "cv" in a and "cv" in b:
        return a["cv"] == b["cv"]
    return False


def block_of(fn, i):
    """block in which node i is evaluated (climbing to an element)"""
    c = fn._cache.get("blkof")
    if c is None:
        c = {}
        for b in fn.blocks.values():
            for e in b.elems:
                c.setdefault(e, b.id)
            if b.cond is not None:
                c.setdefault(b.cond, b.id)
        fn._cache["blkof"] = c
    x = i
    while x >= 0:
        if x in c:
            return c[x]
        x = fn.parent[x]
    return None


def dominates(fn, a, b):
    loops_of(fn)
    idom = fn._cache["idom"]
    if a is None or b is None or b not in idom:
        return False
    while True:
        if b == a:
            return True
        if b == fn.entry:
            return False
        b = idom[b]


def guards_of(fn, blk):
    """[(cond node, truth)] of branches whose taken side dominates the block"""
    loops_of(fn)
    idom = fn._cache["idom"]
    out = []
    npred = fn._cache.get("npred")
    if npred is None:
        npred = collections.Counter()
        for b in fn.blocks.values():
            if b.id not in idom and b.id != fn.entry:
                continue        # unreachable, e.g. the condition of do { return } while (0)
            for s in set(x for x in b.succs if x >= 0):
                npred[s] += 1
        fn._cache["npred"] = npred
    x = blk
    while x in idom and x != fn.entry:
        p = idom[x]
        B = fn.blocks[p]
        if len(B.succs) == 2 and B.cond is not None and B.term != "switch":
            for k in (0, 1):
                s = B.succs[k]
                if s >= 0 and B.succs[1 - k] != s and npred[s] == 1 and dominates(fn, s, blk):
                    out.append((B.cond, k == 0))
        x = p
    return out


def raise_src(fn, a):
    """source expression of an assignment that can only raise its target
    (x = MAX(x, src), or x = src where src > x is known), or None"""
    n = fn.nodes[a]
    if n["k"] != "asg" or n["o"] != "=":
        return None
    L = n["l"]
    r = strip(fn, n["r"])
    m = fn.nodes[r]
    if m["k"] == "cond":
        c = fn.nodes[strip(fn, m["c"])]
        if c["k"] == "bin" and c["o"] in ("<", ">", "<=", ">="):
            big, small = (c["l"], c["r"]) if c["o"][0] == ">" else (c["r"], c["l"])
            # big > small ? t : e   must yield the larger one
            if same(fn, m["t"], big) and same(fn, m["e"], small):
                if same(fn, L, big):
                    return small
                if same(fn, L, small):
                    return big
        return None
    b = block_of(fn, a)
    for c, t in guards_of(fn, b):
        c = fn.nodes[strip(fn, c)]
        if c["k"] == "bin" and c["o"] in ("<", ">", "<=", ">="):
            op = c["o"]
            if not t:
                op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<"}[op]
            big, small = (c["l"], c["r"]) if op[0] == ">" else (c["r"], c["l"])
            if same(fn, L, small) and same(fn, r, big):
                return n["r"]
    return None


class Sources:
    """terminals an integer expression's value may come from"""

    def __init__(self, ix):
        self.ix = ix
        self.p = ix.p
        self.memo = {}

    def of(self, fn, i, depth=0, seen=None):
        seen = set() if seen is None else seen
        i = strip(fn, i)
        n = fn.nodes[i]
        if "cv" in n:
            return {("const", n["cv"])}
        k = n["k"]
        if k == "un" and n["o"] in ("++", "--", "p++", "p--"):
            f = field_of(fn, n["s"])
            return {("step", n["o"]) + (f or (None, None))}
        if k == "asg":
            if n["o"] == "=":
                return self.of(fn, n["r"], depth, seen)
            f = field_of(fn, n["l"])
            return {("step", n["o"]) + (f or (None, None))}
        if k == "mem":
            return {("mem", n.get("r"), n["f"])}
        if k == "cond":
            return self.of(fn, n["t"], depth, seen) | self.of(fn, n["e"], depth, seen)
        if k == "bin":
            if n["o"] == ",":
                return self.of(fn, n["r"], depth, seen)
            return {("expr", n["o"])}
        if k == "call":
            out = set()
            g = self.p.funcs.get(n.get("f"))
            if g is None or depth > 5:
                return {("call", n.get("fn"))}
            if (g.id, "ret") in seen:
                return out
            seen.add((g.id, "ret"))
            for m in g.nodes:
                if m["k"] == "ret" and m["s"] >= 0:
                    out |= self.of(g, m["s"], depth + 1, seen)
            return out
        if k == "ref" and n["d"] in ("l", "p"):
            return self.var(fn, n["v"], depth, seen)
        if k == "ref":
            return {("global", n.get("n"))}
        if k == "un" and n["o"] == "*":
            return {("deref", None)}
        return {("expr", k)}

    def var(self, fn, v, depth, seen):
        if (fn.id, v) in seen:
            return set()
        seen.add((fn.id, v))
        out = set()
        for d in var_defs(fn, v):
            out |= self.of(fn, d, depth, seen)
        for ci, ai in addr_args(fn, v):
            out.add(("outarg", fn.nodes[ci].get("fn"), ai))
        if v in fn.params:
            pi = fn.params.index(v)
            cs = self.ix.calls.get(fn.id, ())
            if not cs or depth > 5:
                out.add(("param", fn.name, pi))
            for g, ci in cs:
                a = g.nodes[ci]["a"]
                if pi < len(a):
                    out |= self.of(g, a[pi], depth + 1, seen)
            if fn.id in self.ix.addr_taken:
                out.add(("param", fn.name, pi))
        return out


def addr_args(fn, v):
    """[(call, arg index)] of calls given &v"""
    c = fn._cache.get("addrargs")
    if c is None:
        c = collections.defaultdict(list)
        for i, n in enumerate(fn.nodes):
            if n["k"] == "call":
                for ai, a in enumerate(n["a"]):
                    m = fn.nodes[strip(fn, a)]
                    if m["k"] == "un" and m["o"] == "&":
                        r = fn.nodes[strip(fn, m["s"])]
                        if r["k"] == "ref" and r["d"] in ("l", "p"):
                            c[r["v"]].append((i, ai))
        fn._cache["addrargs"] = c
    return c.get(v, [])


def reach_down(prog, t, depth=8):
    seen, work = {t}, [(t, 0)]
    while work:
        x, d = work.pop()
        f = prog.funcs.get(x)
        if not f or d > depth:
            continue
        for n in f.nodes:
            if n["k"] == "call" and n.get("f") in prog.funcs and n["f"] not in seen:
                seen.add(n["f"])
                work.append((n["f"], d + 1))
    return seen
