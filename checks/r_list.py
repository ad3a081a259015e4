"""E09: list heads and list elements are told apart; an object taken off a
list is put on another one, handed on or released."""
import collections
import re

from util import strip
from sim import NZ
import r_own
from r_own import Own, World, GONE
from r_alloc import scope

ELEM = {"link_list_append", "link_list_prepend"}
MOVE = {"link_list_append_list", "link_list_prepend_list"}
TAKE = {"link_list_pop_first", "link_list_pop_last"}
POP = {"link_list_pop_first", "link_list_pop_last", "hashmap_pop_iter", "hashmap_pop_next", "hashmap_dels", "hashmap_delu", "jsw_apop", "jsw_aerase", "hashmap_sets", "hashmap_setu"}


REMOVE = {"link_remove", "hash_elem_remove"}


class Item(Own):
    def acquire(self, sim, fn, i, n, q, args, env):
        v = self.W.removed(fn, n)
        if v is None:
            return Own.acquire(self, sim, fn, i, n, q, args, env)
        self.acq.add(i)
        res = []
        c = ("v", v)
        for r, _, e in sim.opaque(fn, i, n, q, args, env):
            e = dict(e)
            self.now = frozenset([c])
            sim.put(e, c, NZ)
            res.append((r, ("H", frozenset([c])), e))
        return res

    def cellof(self, sim, fn, i, env):
        i = strip(fn, i)
        n = fn.nodes[i]
        if n["k"] == "call" and n.get("fn", "").endswith("_container_of"):
            return self.cellof(sim, fn, n["a"][0], env)
        return Own.cellof(self, sim, fn, i, env)

    def agg(self, sim, fn, c, ini, q, env):
        # storage inside the object is given away
        if q is not None and q[0] == "H":
            for x in self.inits(fn, ini):
                m = fn.nodes[strip(fn, x[1])]
                if m["k"] == "mem" and m["ar"] and "[" in m.get("T", "") and self.cellof(sim, fn, m["b"], env) in q[1]:
                    return GONE
        return Own.agg(self, sim, fn, c, ini, q, env)

    def given(self, sim, fn, i, n, q, args, env, ex):
        st, cells = q
        if st == "H":
            for a in n["a"]:
                # &x->member of the object is put somewhere
                m = fn.nodes[strip(fn, a)]
                if m["k"] == "un" and m["o"] == "&":
                    b = fn.nodes[strip(fn, m["s"])]
                    if not ex and b.get("T", "").replace("struct ", "") in ("dstr_t", "derr_t"):
                        continue        # a value inside the object is worked on
                    while b["k"] == "mem" and not b["ar"]:
                        b = fn.nodes[strip(fn, b["b"])]
                    if b["k"] == "mem" and self.cellof(sim, fn, b["b"], env) in cells:
                        return [(r, GONE, e) for r, _, e in sim.opaque(fn, i, n, q, args, env)]
        return Own.given(self, sim, fn, i, n, q, args, env, ex)

    def passed(self, sim, fn, i, n, ai, c, q, args, env, ex, byref=False):
        name = n.get("fn", "")
        if "f" not in n or name in ELEM and ai == 1:
            return [(r, GONE, e) for r, _, e in sim.opaque(fn, i, n, q, args, env)]
        return Own.passed(self, sim, fn, i, n, ai, c, q, args, env, ex, byref)

    def lost(self, sim, fn, i, cells, how):
        nm = self.names(fn, cells)
        self.report(sim, fn, i, "%s, taken off a list, %s without being queued, handed on or released" % (nm, how))


class Items(World):
    rule = Item

    def __init__(self, prog, ix):
        World.__init__(self, prog, ix)
        self.prod = {}
        self.conv = {}
        self.fnd = {}
        self.members = collections.defaultdict(set)
        link = {"link_t", "hash_elem_t", "jsw_anode_t"}
        for _ in range(3):
            for f in prog.funcs.values():
                if f.name.endswith("_container_of") and len(f.params) == 1:
                    m = f.vars[f.params[0]][1].replace("const ", "").replace("struct ", "").rstrip(" *")
                    r = f.ret.replace("const ", "").replace("struct ", "").rstrip(" *")
                    if m in link:
                        self.conv[f.id] = r
                        self.members[r].add(f.name)
                    elif m in self.members:
                        self.members[r].add(f.name)

    def failval(self, fn, n):
        return 0 if n.get("fn") in POP else None

    def removed(self, fn, n):
        """variable whose object a removal takes out of its only container"""
        name = n.get("fn")
        if name not in REMOVE or len(n["a"]) < 1:
            return None
        m = fn.nodes[strip(fn, n["a"][-1])]
        if m["k"] != "un" or m["o"] != "&":
            return None
        y = fn.nodes[strip(fn, m["s"])]
        if y["k"] != "mem" or not y["ar"]:
            return None
        x = fn.nodes[strip(fn, y["b"])]
        if x["k"] != "ref" or x["d"] != "l" or len(self.members.get(y.get("r"), ())) != 1:
            return None
        if not any(self.conv.get(t) == y["r"] and self.p.funcs[t].name == "%s_%s_container_of" % (y["r"], y["f"]) for t in self.conv):
            return None
        return x["v"] if x["v"] in self.found(fn) else None

    def found(self, fn):
        """locals that only ever hold an object found through its link"""
        if fn.id not in self.fnd:
            src = collections.defaultdict(list)
            for n in fn.nodes:
                if n["k"] == "asg":
                    m = fn.nodes[strip(fn, n["l"])]
                    if m["k"] == "ref" and "v" in m:
                        src[m["v"]].append(strip(fn, n["r"]))
                elif n["k"] == "decls":
                    for v, j in n["d"]:
                        if j >= 0:
                            src[v].append(strip(fn, j))
            ok = {v for v in src if v not in fn.params}
            while True:
                bad = {v for v in ok if not all(self.fromlink(fn, x, ok) for x in src[v])}
                if not bad:
                    break
                ok -= bad
            self.fnd[fn.id] = ok
        return self.fnd[fn.id]

    def fromlink(self, fn, x, ok):
        n = fn.nodes[x]
        if n.get("cv") == 0:
            return True
        if n["k"] == "ref":
            return n.get("v") in ok
        if n["k"] == "cond":
            return self.fromlink(fn, strip(fn, n["t"]), ok) and self.fromlink(fn, strip(fn, n["e"]), ok)
        if n["k"] == "call" and n.get("f") in self.conv:
            m = fn.nodes[strip(fn, n["a"][0])]
            if m["k"] == "mem" and m["f"] in ("next", "prev"):
                return True
            if m["k"] == "call" and m.get("fn", "").startswith(("jsw_a", "hashmap_")):
                return True
            return m["k"] == "ref" and m.get("d") == "l" and m.get("T", "").replace("struct ", "").startswith(("jsw_anode_t", "hash_elem_t"))
        return False

    def opens(self, fn, n):
        if self.removed(fn, n) is not None:
            return True
        return n.get("f") in self.prod or self.failval(fn, n) is not None and self.owned(fn, n)

    def owned(self, fn, n):
        """the popped element is turned into its object here, and that object
        is a member of no other container"""
        i = next(k for k, x in enumerate(fn.nodes) if x is n)
        vs = {i}
        for k, x in enumerate(fn.nodes):
            if x["k"] == "asg" and strip(fn, x["r"]) == i:
                m = fn.nodes[strip(fn, x["l"])]
                if m["k"] == "ref" and "v" in m:
                    vs.add(("v", m["v"]))
            elif x["k"] == "decls":
                vs |= {("v", v) for v, j in x["d"] if j >= 0 and strip(fn, j) == i}
        recs = set()
        for x in fn.nodes:
            if x["k"] == "call" and x.get("f") in self.conv:
                a = strip(fn, x["a"][0])
                m = fn.nodes[a]
                if a in vs or m["k"] == "asg" and strip(fn, m["r"]) in vs or m["k"] == "ref" and ("v", m.get("v")) in vs:
                    recs.add(self.conv[x["f"]])
        return bool(recs) and all(len(self.members[r]) == 1 for r in recs)


def roles(prog, W, res):
    """a whole list is only moved from a list head, and only elements are
    queued"""
    elem = set()
    for t in W.conv:
        f = prog.funcs[t]
        rec = W.conv[t]
        fld = f.name[len(rec) + 1:-len("_container_of")]
        elem.add((rec, fld))
    heads = set()
    for fn in prog.funcs.values():
        for n in fn.nodes:
            if n["k"] == "call" and n.get("fn") in ELEM | TAKE and n["a"]:
                m = fn.nodes[strip(fn, n["a"][0])]
                if m["k"] == "un" and m["o"] == "&":
                    y = fn.nodes[strip(fn, m["s"])]
                    if y["k"] == "mem" and (y.get("r"), y["f"]) not in elem:
                        heads.add((y.get("r"), y["f"]))
    n1 = n2 = 0
    for t in sorted(prog.funcs):
        fn = prog.funcs[t]
        if not scope(fn):
            continue
        popped = pops(fn)
        for i, n in enumerate(fn.nodes):
            if n["k"] != "call" or n.get("fn") not in ELEM | MOVE | TAKE or len(n["a"]) < 1:
                continue
            name = n["fn"]
            x = strip(fn, n["a"][1 if name in ELEM | MOVE else 0])
            m = fn.nodes[x]
            if name in ELEM:
                n1 += 1
                if m["k"] == "un" and m["o"] == "&":
                    y = fn.nodes[strip(fn, m["s"])]
                    head = y["k"] == "ref" and y.get("T", "").replace("struct ", "") == "link_t" or \
                        y["k"] == "mem" and (y.get("r"), y["f"]) in heads
                    if head:
                        res.add(fn, n["L"], "%s is given a list head where it expects an element to queue" % name)
            else:
                n2 += 1
                bad = None
                if m["k"] == "un" and m["o"] == "&":
                    y = fn.nodes[strip(fn, m["s"])]
                    if y["k"] == "mem" and (y.get("r"), y["f"]) in elem:
                        bad = "the link of a %s" % y["r"]
                elif m["k"] == "ref" and ("v", m.get("v")) in popped:
                    bad = "an element taken off another list"
                elif x in popped:
                    bad = "an element taken off another list"
                if bad:
                    res.add(fn, n["L"], "%s is given %s where it expects a list: the element itself is not on any list afterwards" % (name, bad))
    res.floor("elements queued", n1, 80)
    res.floor("lists moved or taken from", n2, 100)


def pops(fn):
    """variables (and nodes) that only ever hold a popped element"""
    is_pop = {i for i, n in enumerate(fn.nodes) if n["k"] == "call" and n.get("fn") in TAKE}
    src = collections.defaultdict(list)
    for n in fn.nodes:
        if n["k"] == "asg":
            m = fn.nodes[strip(fn, n["l"])]
            if m["k"] == "ref" and "v" in m:
                src[m["v"]].append(strip(fn, n["r"]))
        elif n["k"] == "decls":
            for v, j in n["d"]:
                if j >= 0:
                    src[v].append(strip(fn, j))
    params = set(fn.params)
    return is_pop | {("v", v) for v, s in src.items() if v not in params and s and all(x in is_pop or fn.nodes[x].get("cv") == 0 for x in s)
                     and any(x in is_pop for x in s)}


def e09(prog, ix, res, tier):
    W, done = r_own.run_all(prog, ix, Items(prog, ix))
    for (t, i), (r, s) in done.items():
        res.functions.add(t)
        res.violations += list(r.found.values())
    roles(prog, W, res)
    steps = sum(s.steps for r, s in done.values())
    res.floor("places that take an object off a list", len(done), 60)
    res.floor("record types that are queued", len(W.members), 25)
    res.stats["abstract block states"] = steps
    res.stats["callee effects on an object passed in"] = len(W.memo)


CHECKS = {
    "E09": dict(check=e09, level="other",
                technique="path-sensitive ownership typestate of every object taken off a linked list (with computed callee "
                          "effects), and role inference over all link fields and locals: only list heads are moved or "
                          "taken from, only elements are queued",
                assumptions=["an object that is a member of several containers stays reachable through the others",
                             "handing an object to a callback or storing it anywhere keeps it reachable"]),
}
