"""E04: what an allocation returned is tested before it is used."""
import re

import front
from sim import Rule, is_derr, is_derr_ptr, NZ, truth
from util import strip, walk, fp_field
from r_init import LSim, ERR_READ, ERR_PLAIN

EXACT = {"malloc", "calloc", "realloc", "strdup", "strndup", "fopen", "fdopen", "opendir", "mysql_init",
         "mysql_stmt_init", "PyBytes_FromStringAndSize", "PyList_New", "_Py_BuildValue_SizeT",
         "PyLong_FromUnsignedLong", "PyErr_NewException", "PyModule_Create2"}
PAT = re.compile(r"^(BIO|EVP|X509|SSL|BN|EC|ECDSA|OPENSSL|RSA|HMAC|ASN1)\w*_(new|new_\w+|dup|get1_\w+|Q_keygen)$"
                 r"|^PEM_read|^d2i_")
TOLERANT = re.compile(r"free|Free|XDECREF|^__builtin_expect$|^realloc$|^va_|^EVP_PKEY_CTX_new_id$|^Py_BuildValue$"
                      r"|^mysql_close$")


def allocator(prog, n):
    if "f" not in n or n["f"] in prog.funcs:
        return False
    return n["fn"] in EXACT or bool(PAT.match(n["fn"]))


def scope(f):
    return not f.file.startswith(("test/", "server/smphp/")) and "/test_" not in f.file and f.nodes


class Alloc(Rule):
    """q: cells that are NULL because an allocation failed"""
    max_states = 60000

    def __init__(self, ix, W, param=None):
        super().__init__(ix)
        self.W = W
        self.param = param
        self.now = frozenset()  # marks of the state being advanced
        self.only = None        # the one site whose failure is studied
        self.derefs = None
        self.sites = set()
        self.uses = 0
        self.exits = []

    def track(self, fn, c, v):
        if len(c) > 2:
            return c in self.now
        T = fn.vars[c[1]][1]
        if "*" in T and not is_derr_ptr(T):
            return c in self.now
        return "*" in T or is_derr(T) or T in ("bool", "_Bool")

    def cells(self, q):
        return q

    def settle(self, q, env):
        for c in q:
            if c[0] in ("v", "d"):
                env[c] = 0

    # -- marks ---------------------------------------------------------------
    def marked(self, sim, fn, i, q, env):
        """cell of expression i if it is marked"""
        if not q:
            return None
        i = strip(fn, i)
        n = fn.nodes[i]
        if n["k"] == "asg":
            i = strip(fn, n["l"])
            n = fn.nodes[i]
        if n["k"] == "call":
            return ("t", i) if ("t", i) in q else None
        if n["k"] == "cond":
            t = truth(sim.ev(fn, n["c"], env))
            if t is not None:
                return self.marked(sim, fn, n["t"] if t else n["e"], q, env)
            return None
        if n["k"] not in ("ref", "mem", "un", "idx"):
            return None
        c = sim.cell(fn, i, env)
        return c if c in q else None

    def hit(self, sim, fn, i, c, q, what):
        if c == ("P",) or c == self.param:
            self.derefs = i
            return q - {c}
        if c[0] == "t":
            name = "result of %s" % fn.nodes[c[1]].get("fn")
        else:
            name = ".".join(str(x) for x in (fn.vars[c[1]][0],) + c[2:])
        self.report(sim, fn, i, "'%s' is %s although its allocation may have failed" % (name, what))
        return q - {c}

    def ref(self, sim, fn, i, n, q, env):
        return q

    def deref(self, sim, fn, i, n, q, env):
        if not q:
            return q
        k = n["k"]
        if k == "mem":
            if not n["ar"]:
                return q
            b = n["b"]
        elif k == "un":
            if n["o"] != "*":
                return q
            b = n["s"]
        else:
            b = n["b"]
        c = self.marked(sim, fn, b, q, env)
        if c is None or c[0] == "t" and self.param:
            return q
        # &p->x only computes an address
        p, x = fn.parent[i], i
        while p >= 0 and (fn.nodes[p]["k"] == "cast" or fn.nodes[p]["k"] == "mem" and not fn.nodes[p]["ar"]):
            x, p = p, fn.parent[p]
        if p >= 0 and fn.nodes[p]["k"] == "sizeof":
            return q
        if p >= 0 and fn.nodes[p]["k"] == "un" and fn.nodes[p]["o"] == "&":
            # an address inside the missing object: given to a function that uses it?
            x, p = p, fn.parent[p]
            while p >= 0 and fn.nodes[p]["k"] == "cast":
                x, p = p, fn.parent[p]
            if p < 0 or fn.nodes[p]["k"] != "call" or x not in fn.nodes[p]["a"]:
                return q
            m = fn.nodes[p]
            name = m.get("fn", "")
            if name.endswith("_container_of") or TOLERANT.search(name):
                return q
            bad = self.bad(fn, m, [sim.ev(fn, a, env) for a in m["a"]], env)
            if bad and not self.W.uses(m, m["a"].index(x), bad):
                return q
            self.uses += 1
            return self.hit(sim, fn, i, c, q, "passed to %s in part" % (m.get("fn") or "a callback"))
        self.uses += 1
        return self.hit(sim, fn, i, c, q, "dereferenced")

    def give(self, sim, fn, lhs, val, rhs, q, env):
        c = sim.cell(fn, lhs, env)
        if c is None:
            return q
        l = len(c)
        q = frozenset(x for x in q if x[:l] != c and x[1:l + 1] != c)
        if val == 0 and rhs >= 0:
            m = self.marked(sim, fn, rhs, q, env)
            if m is not None and m[0] != "P":
                q = q | {c}
        return q

    def on_assign(self, sim, fn, i, lhs, val, q, env):
        n = fn.nodes[i]
        if n["k"] != "asg" or n["o"] != "=":
            return q
        r = strip(fn, n["r"])
        while fn.nodes[r]["k"] == "cl":
            r = strip(fn, fn.nodes[r]["s"])
        ini = fn.nodes[r]
        if ini["k"] == "init" and ini.get("r"):
            return self.fields(sim, fn, lhs, ini, q, env)
        q = self.give(sim, fn, lhs, val, n["r"], q, env)
        self.now = frozenset(x for x in q if x[0] != "t" or x[1] not in self.below(fn, n["r"]))
        return self.now

    def below(self, fn, i):
        """the calls of an expression"""
        c = fn._cache.setdefault("below", {})
        if i not in c:
            c[i] = {x for x, m in walk(fn, i) if m["k"] == "call"}
        return c[i]

    def fields(self, sim, fn, lhs, ini, q, env):
        c = sim.cell(fn, lhs, env)
        if c is None:
            return q
        l = len(c)
        add = set()
        for f, x in ini["i"]:
            if isinstance(f, str) and x >= 0 and sim.ev(fn, x, env) == 0:
                m = self.marked(sim, fn, x, q, env)
                if m is not None and len(c) < 5:
                    add.add(c + (f,))
        q = frozenset(x for x in q if x[:l] != c) | add
        self.now = q
        return q

    def on_decl(self, sim, fn, i, v, init, val, q, env):
        q = frozenset(x for x in q if x[:2] != ("v", v) and x[:2] != ("d", v))
        if val == 0 and init >= 0:
            m = self.marked(sim, fn, init, q, env)
            if m is not None:
                q = q | {("v", v)}
                env[("v", v)] = 0
            q = frozenset(x for x in q if x[0] != "t" or x[1] not in self.below(fn, init))
        return q

    def bad(self, fn, n, args, env):
        return tuple(k for k, x in enumerate(args) if isinstance(x, tuple) and x[0] == "&"
                     and is_derr_ptr(fn.nodes[n["a"][k]].get("T", "")) and truth(env.get(x[1])) is True)

    # -- calls ---------------------------------------------------------------
    def on_call(self, sim, fn, i, n, q, args, env):
        name = n.get("fn", "")
        if name in ERR_READ or name in ERR_PLAIN or name.endswith("_container_of"):
            return None
        thru = False
        if q:
            for ai, a in enumerate(n["a"]):
                c = self.marked(sim, fn, a, q, env)
                if c is None:
                    continue
                self.uses += 1
                bad = self.bad(fn, n, args, env)
                thru |= self.W.passes(n, ai, bad)
                if self.W.uses(n, ai, bad):
                    q = self.hit(sim, fn, a, c, q, "passed to %s" % (name or "a callback"))
            # a callee given the object may fill its members in
            keep = set()
            given = set()
            for a in n["a"]:
                m = fn.nodes[strip(fn, a)]
                if m["k"] == "ref" and m["d"] in ("l", "p"):
                    given.add(("d", m["v"]))
                elif m["k"] == "un" and m["o"] == "&":
                    c = sim.cell(fn, m["s"], env)
                    if c:
                        given.add(c)
            if given and not TOLERANT.search(name):
                q = frozenset(("w",) + x if len(x) > 2 and x[0] != "w" and any(x[:len(g)] == g for g in given) else x
                              for x in q)
        kind = self.W.kind(n)
        if thru:
            return [(0, q | {("t", i)}, dict(env))]
        if not kind:
            return None
        self.sites.add((fn.id, i))
        if self.only is not None and i != self.only or self.param:
            return [(NZ, q, dict(env))]
        mark = q | {("t", i)}
        e0 = dict(env)
        if kind == "null":
            return [(NZ, q, dict(e0)), (0, mark, dict(e0))]
        # the failure is announced in a derr_t argument
        res = []
        for ai, a in enumerate(args):
            if isinstance(a, tuple) and a[0] == "&" and is_derr_ptr(fn.nodes[n["a"][ai]].get("T", "")):
                old = env.get(a[1])
                bad = dict(e0)
                if truth(old) is not True:
                    bad[a[1]] = NZ
                res.append((0, mark, bad))
                if truth(old) is not True:
                    res.append((NZ, q, e0))
                return res
        return [(NZ, q, dict(e0)), (0, mark, dict(e0))]

    def on_exit(self, sim, fn, q, ret, env):
        q2 = frozenset(x for x in q if x[0] != "t" or True)
        errs = any(truth(env.get(("d", v))) is True for v in fn.params if is_derr_ptr(fn.vars[v][1]))
        self.exits.append((ret, q2, errs))
        if self.param:
            return
        if is_derr(fn.ret) and truth(ret) is not True or fn.ret in ("bool", "_Bool") and False:
            for c in q:
                c = c[1:] if c[0] == "w" else c
                if c[0] == "d" and fn.vars[c[1]][2] == "p":
                    self.report(sim, fn, -1, "success is reported with '*%s' NULL because its allocation failed"
                                % ".".join((fn.vars[c[1]][0],) + c[2:]))


class ASim(LSim):
    def put(self, env, c, v):
        if c is not None and c[0] == "d" and len(c) > 2 and c not in self.rule.now:
            v = None
        LSim.put(self, env, c, v)

    def setx(self, fn, i, v, env):
        e = LSim.setx(self, fn, i, v, env)
        if e is not env:
            for c in [c for c in e if c[0] == "d" and len(c) > 2 and c not in self.rule.now and c not in env]:
                del e[c]
        return e

    def cell(self, fn, i, env):
        c = LSim.cell(self, fn, i, env)
        if c is not None:
            return c
        n = fn.nodes[i]
        while n["k"] == "cast":
            n = fn.nodes[n["s"]]
        if n["k"] != "mem" or n.get("r") == "derr_t":
            return None
        b = self.deref(fn, n["b"], env) if n["ar"] else self.cell(fn, n["b"], env)
        if b is None or b[0] == "g" or len(b) > 5:
            return None
        return b + (n["f"],)

    def branch(self, fn, b, env):
        self.rule.now = self.rule.cells(self.q)
        return LSim.branch(self, fn, b, env)

    def elem(self, fn, i, q, env):
        self.rule.now = self.rule.cells(q)
        out = LSim.elem(self, fn, i, q, env)
        for q2, e in out:
            self.rule.settle(q2, e)
        if fn.nodes[i]["k"] != "decls":
            return out
        # members of a fresh object matter only if an allocation left them NULL
        return [(q2, {c: v for c, v in e.items()
                      if c[0] != "v" or len(c) == 2 or c in env or c in self.rule.cells(q2)}) for q2, e in out]


class World:
    def __init__(self, prog, ix):
        self.p = prog
        self.ix = ix
        self.wrap = {}
        self.memo = {}
        self.busy = 0

    def kind(self, n):
        if allocator(self.p, n):
            return "null"
        return self.wrap.get(n.get("f"))

    def uses(self, n, ai, bad):
        """does the callee dereference (or rely on) argument ai, when the derr_t
        its arguments `bad` point to already hold an error"""
        name = n.get("fn", "")
        if "f" not in n or TOLERANT.search(name):
            return False
        f = self.p.funcs.get(n["f"])
        if f is None:
            return True
        if ai >= len(f.params):
            return False
        v = f.params[ai]
        return self.study(f, v, bad)[0]

    def passes(self, n, ai, bad):
        """a NULL argument ai makes the callee return NULL"""
        f = self.p.funcs.get(n.get("f"))
        if f is None or not f.nodes or not f.ret.endswith("*") or ai >= len(f.params) or TOLERANT.search(f.name) \
                or "*" not in f.vars[f.params[ai]][1]:
            return False
        return self.study(f, f.params[ai], bad)[1]

    def study(self, f, v, bad):
        key = (f.id, v, bad)
        if key in self.memo:
            return self.memo[key]
        if self.busy > 25:
            return False, False
        self.memo[key] = (False, False)
        self.busy += 1
        try:
            r = Alloc(self.ix, self, ("v", v))
            s = ASim(r)
            try:
                s.run([(f.id, frozenset({("v", v)}), ((("v", v), 0),) + tuple((("d", f.params[k]), NZ) for k in bad if k < len(f.params)))])
                self.memo[key] = (r.derefs is not None, bool(r.exits) and all(x[0] == 0 for x in r.exits))
            except front.Broken:
                self.memo[key] = (False, False)
        finally:
            self.busy -= 1
        return self.memo[key]


def sites_in(f, W):
    return [i for i, n in enumerate(f.nodes) if n["k"] == "call" and W.kind(n)]


def wrappers(prog, W):
    """pointer-returning functions that yield NULL when an allocation failed"""
    cand = [f for f in prog.funcs.values() if f.nodes and f.ret.endswith("*") and scope(f)]
    for _ in range(4):
        ch = False
        for f in sorted(cand, key=lambda f: f.id):
            if f.id in W.wrap or not any(n["k"] == "call" and W.kind(n) for n in f.nodes):
                continue
            bad = []
            for i in sites_in(f, W):
                r = Alloc(W.ix, W)
                r.only = i
                ASim(r).run([(f.id, frozenset(), ())])
                bad += [x for x in r.exits if x[0] == 0 and x[1]]
            if bad:
                W.wrap[f.id] = "err" if all(x[2] for x in bad) else "null"
                ch = True
        if not ch:
            break
    W.memo.clear()


def e04(prog, ix, res, tier):
    W = World(prog, ix)
    wrappers(prog, W)
    nf = 0
    sites = set()
    uses = steps = 0
    for t in sorted(prog.funcs):
        f = prog.funcs[t]
        if not scope(f):
            continue
        if not any(n["k"] == "call" and W.kind(n) for n in f.nodes):
            continue
        nf += 1
        res.functions.add(t)
        for i in sites_in(f, W):
            r = Alloc(ix, W)
            r.only = i
            s = ASim(r)
            s.run([(t, frozenset(), ())])
            sites |= r.sites
            uses += r.uses
            steps += s.steps
            res.violations += list(r.found.values())
    res.floor("functions that allocate", nf, 150)
    res.floor("allocation sites", len(sites), 200)
    res.floor("functions handing on a failed allocation as NULL", len(W.wrap), 30)
    res.stats["abstract block states"] = steps
    res.stats["callee contracts for a NULL argument"] = len(W.memo)


CHECKS = {
    "E04": dict(check=e04, level="other",
                technique="path-sensitive nullness analysis from every allocation site (and every function found to "
                          "hand a failed allocation on), with callee summaries of which pointer arguments are "
                          "dereferenced",
                assumptions=["a NULL stored where the analysis has no name for the location (through two pointers) is "
                             "followed only as far as the function that stored it",
                             "external functions other than those that free rely on their pointer arguments"]),
}
