"""E06: a local pointer is not used after its object was freed or given away."""
import re

import front
from sim import NZ, is_derr, is_derr_ptr
from util import strip
from r_own import Own, World, GONE
from r_alloc import ASim, scope

FREES = {"free"}


class Gone(Own):
    """q: None, or ("R", cells that hold the dead pointer, why)"""

    def on_call(self, sim, fn, i, n, q, args, env):
        if i == self.only:
            c = self.cellat(sim, fn, i, n, env)
            outs = sim.opaque(fn, i, n, q, args, env)
            self.acq.add(i)
            if c is None:
                return None
            kind = self.W.kills[i, fn.id]
            res = []
            for r, _, e in outs:
                e = dict(e)
                self.now = frozenset([c])
                if kind == "null":
                    sim.put(e, c, 0)
                elif kind == "free" and c in env:
                    e[c] = env[c]
                res.append((r, ("R", frozenset([c])), e))
            return res
        if q and q[0] == "R" and self.W.kills.get((self.only, fn.id)) == "free":
            x = self.placed(fn, i, env, q[1])
            if x is not None:
                self.report(sim, fn, x[0], "%s is used after it was freed at line %d" % (self.names(fn, [x[1]]), self.line(fn)))
                q = GONE
        return Own.on_call(self, sim, fn, i, n, q, args, env)

    def cellat(self, sim, fn, i, n, env):
        a = self.W.arg[i, fn.id]
        m = fn.nodes[strip(fn, n["a"][a])]
        if m["k"] == "un" and m["o"] == "&":
            return sim.cell(fn, strip(fn, m["s"]), env)
        return self.cellof(sim, fn, n["a"][a], env)

    def passed(self, sim, fn, i, n, ai, c, q, args, env, ex, byref=False):
        st, cells = q
        name = n.get("fn", "")
        outs = sim.opaque(fn, i, n, q, args, env)
        if byref:
            # it may be given a new value, or be freed as NULL
            if c in env and env[c] == 0 and not ex and "f" in n:
                return [(r, q if self.keepsnull(n, ai) else GONE, self.keep(e, env, c) if self.keepsnull(n, ai) else e) for r, _, e in outs]
            return [(r, GONE, e) for r, _, e in outs]
        if env.get(c) == 0:
            return [(r, q, self.keep(e, env, c)) for r, _, e in outs]
        if name in ("__builtin_expect",) or not n["a"]:
            return [(r, q, e) for r, _, e in outs]
        self.report(sim, fn, i, "%s is passed to %s after it was released at line %d" % (self.names(fn, cells), name or "a callback", self.line(fn)))
        return [(r, GONE, e) for r, _, e in outs]

    def placed(self, fn, i, env, dead):
        """a freed pointer placed in a temporary object below expression i"""
        for y in self.W.lits(fn, i):
            for f, x in self.inits(fn, fn.nodes[y]):
                m = fn.nodes[strip(fn, x)]
                if m["k"] == "ref":
                    c = ("v", m.get("v"))
                    if c in dead and env.get(c) != 0:
                        return x, c
        return None

    def line(self, fn):
        return fn.nodes[self.only]["L"]

    def keepsnull(self, n, ai):
        return self.W.nulls(n["f"], ai)

    def deref(self, sim, fn, i, n, q, env):
        if not q or q[0] != "R":
            return q
        if n["k"] == "mem":
            if not n["ar"]:
                return q
            b = n["b"]
        elif n["k"] == "un":
            if n["o"] != "*":
                return q
            b = n["s"]
        else:
            b = n["b"]
            if "[" in fn.nodes[strip(fn, b)].get("T", ""):
                return q
        c = self.cellof(sim, fn, b, env)
        if c is not None and c in q[1]:
            k = self.W.kills.get((self.only, fn.id))
            self.report(sim, fn, i, "%s is dereferenced after it was %s at line %d" % (
                self.names(fn, [c]), "given away (and cleared)" if k == "null" else "freed", self.line(fn)))
            return GONE
        return q

    def store(self, sim, fn, i, lhs, rhs, q, env):
        if q is None or q[0] != "R":
            return q
        st, cells = q
        c = sim.cell(fn, strip(fn, lhs), env)
        if c is None:
            return q
        rest = frozenset(x for x in cells if x[:len(c)] != c)
        return ("R", rest) if rest else GONE

    def on_decl(self, sim, fn, i, v, init, val, q, env):
        if q is None or q[0] != "R":
            return q
        rest = frozenset(x for x in q[1] if x[:2] != ("v", v))
        return ("R", rest) if rest else GONE

    def lost(self, *a):
        pass

    def on_exit(self, sim, fn, q, ret, env):
        if self.param is not None:
            self.exits.append((ret, q, env.get(self.param)))


def addr_taken(f):
    s = set()
    for n in f.nodes:
        if n["k"] == "un" and n["o"] == "&":
            m = f.nodes[strip(f, n["s"])]
            if m["k"] == "ref" and "v" in m:
                s.add(m["v"])
    return s


class Cleared(Own):
    """value left behind a pointer-to-pointer parameter"""
    def track(self, fn, c, v):
        return c == self.param or len(c) == 2 or Own.track(self, fn, c, v)

    def store(self, sim, fn, i, lhs, rhs, q, env):
        return q

    def on_call(self, sim, fn, i, n, q, args, env):
        for k, a in enumerate(n["a"]):
            m = fn.nodes[strip(fn, a)]
            if m["k"] == "ref" and m.get("v") == self.param[1]:
                z = "f" in n and self.W.nulls(n["f"], k)
                res = []
                for r, _, e in sim.opaque(fn, i, n, q, args, env):
                    e = dict(e)
                    e.pop(self.param, None)
                    if z:
                        e[self.param] = 0
                    res.append((r, q, e))
                return res
        return None

    def lost(self, *a):
        pass

    def on_ret(self, sim, fn, i, v, q, env):
        return q

    def on_exit(self, sim, fn, q, ret, env):
        self.exits.append((ret, q, env.get(self.param)))


class Freed(Own):
    """has the object a by-value pointer parameter designates been freed?"""
    def cells(self, q):
        return frozenset([self.param])

    def track(self, fn, c, v):
        return c == self.param or len(c) == 2 and Own.track(self, fn, c, v)

    def store(self, sim, fn, i, lhs, rhs, q, env):
        # the parameter itself is reassigned: give up
        if q == "H" and sim.cell(fn, strip(fn, lhs), env) == self.param:
            return "?"
        return q

    def on_decl(self, sim, fn, i, v, init, val, q, env):
        return q

    def on_assign(self, sim, fn, i, lhs, val, q, env):
        return self.store(sim, fn, i, lhs, -1, q, env) if fn.nodes[i]["k"] == "asg" else q

    def on_call(self, sim, fn, i, n, q, args, env):
        if q != "H":
            return None
        name = n.get("fn", "")
        for k, a in enumerate(n["a"]):
            m = fn.nodes[strip(fn, a)]
            if m["k"] == "ref" and m.get("v") == self.param[1]:
                if name == "free" and n.get("f") not in self.W.p.funcs or "f" in n and self.W.frees(n["f"], k):
                    return [(r, "F", dict(e, **{})) for r, _, e in sim.opaque(fn, i, n, q, args, env)]
        return None

    def lost(self, *a):
        pass

    def on_ret(self, sim, fn, i, v, q, env):
        return q

    def on_exit(self, sim, fn, q, ret, env):
        self.exits.append(q)


class World6(World):
    rule = Gone

    def frees(self, t, ai):
        """does the callee free the object its argument ai points to on every
        path?"""
        key = (t, ai)
        if key in self.fr:
            return self.fr[key]
        self.fr[key] = False
        f = self.p.funcs.get(t)
        if f is None or ai >= len(f.params):
            return False
        v = f.params[ai]
        T = f.vars[v][1].replace(" ", "")
        if not T.endswith("*") or T.endswith("**") or v in addr_taken(f):
            return False
        cell = ("v", v)
        r = Freed(self.ix, self, param=cell)
        r.now = frozenset([cell])
        try:
            ASim(r).run([(f.id, "H", ((cell, NZ),))])
        except front.Broken:
            return False
        self.fr[key] = bool(r.exits) and all(x == "F" for x in r.exits)
        return self.fr[key]

    def __init__(self, prog, ix):
        World.__init__(self, prog, ix)
        self.fr = {}
        self.lt = {}
        self.kills = {}
        self.arg = {}
        self.nm = {}

    def lits(self, fn, i):
        """record initialisers below an expression, other calls excluded"""
        key = (fn.id, i)
        if key not in self.lt:
            out, todo = [], list(fn.nodes[i]["a"])
            while todo:
                x = todo.pop()
                n = fn.nodes[x]
                if n["k"] == "call":
                    continue
                if n["k"] == "init" and n.get("r"):
                    out.append(x)
                for k in ("s", "b", "l", "r", "c", "t", "e"):
                    if isinstance(n.get(k), int) and not isinstance(n.get(k), bool) and n[k] >= 0 and k != "c":
                        todo.append(n[k])
                for f, y in n.get("i", ()) if isinstance(n.get("i"), list) else ():
                    if y >= 0:
                        todo.append(y)
            self.lt[key] = out
        return self.lt[key]

    def nulls(self, t, ai):
        """does the callee always leave NULL in the pointer whose address is
        argument ai?"""
        key = (t, ai)
        if key in self.nm:
            return self.nm[key]
        self.nm[key] = False
        f = self.p.funcs.get(t)
        if f is None or ai >= len(f.params) or not f.vars[f.params[ai]][1].replace(" ", "").endswith("**"):
            return False
        v = f.params[ai]
        cell = ("d", v)
        r = Cleared(self.ix, self, param=cell)
        r.now = frozenset([cell])
        try:
            ASim(r).run([(f.id, None, ((cell, NZ),))])
        except front.Broken:
            return False
        self.nm[key] = bool(r.exits) and all(x[2] == 0 for x in r.exits)
        return self.nm[key]


World6.effect_rule = Own


def e06(prog, ix, res, tier):
    W = World6(prog, ix)
    W.rule = Own        # callee effects
    sites = []
    for t in sorted(prog.funcs):
        f = prog.funcs[t]
        if not scope(f):
            continue
        for i, n in enumerate(f.nodes):
            if n["k"] != "call":
                continue
            name = n.get("fn", "")
            if name == "free" and "f" in n and n["f"] not in prog.funcs:
                m = f.nodes[strip(f, n["a"][0])]
                if m["k"] == "ref" and m["d"] in ("l", "p"):
                    W.kills[i, t], W.arg[i, t] = "free", 0
                    sites.append((t, i))
            elif n.get("f") in prog.funcs:
                for k, a in enumerate(n["a"]):
                    m = f.nodes[strip(f, a)]
                    if m["k"] == "ref" and m["d"] in ("l", "p") and W.frees(n["f"], k):
                        W.kills[i, t], W.arg[i, t] = "free", k
                        sites.append((t, i))
                        break
                    if m["k"] == "un" and m["o"] == "&":
                        y = f.nodes[strip(f, m["s"])]
                        if y["k"] == "ref" and y["d"] in ("l", "p") and W.nulls(n["f"], k):
                            W.kills[i, t], W.arg[i, t] = "null", k
                            sites.append((t, i))
                            break
    steps = 0
    for t, i in sites:
        r = Gone(ix, W, only=i)
        s = ASim(r)
        s.run([(t, None, ())])
        steps += s.steps
        res.functions.add(t)
        res.violations += list(r.found.values())
    res.floor("places that free or give away what a local points to", len(sites), 250)
    res.floor("functions that always free what they are given", sum(W.fr.values()), 40)
    res.floor("functions that always clear the pointer they are given", sum(W.nm.values()), 12)
    res.stats["abstract block states"] = steps


CHECKS = {
    "E06": dict(check=e06, level="other",
                technique="path-sensitive typestate of local pointers from every call that frees their object or takes it "
                          "over and clears them (computed callee summaries) to every later dereference",
                assumptions=["other copies of the pointer are followed only within the function"]),
}
