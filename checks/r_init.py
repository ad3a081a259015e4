"""E07, E08: no local is used on a path that has not given it a value; values
decoded from JSON are used only where the document provided them."""
import itertools

import front
from sim import Rule, Sim, is_derr, is_derr_ptr, NZ, truth
from model import children
from util import strip, walk, var_defs, fp_field

ERR_READ = {"pvt_prop": (0,), "pvt_prop_var": (0, 1), "pvt_check": (0,), "pvt_rethrow": (0, 1),
            "pvt_merge_cmd": (0,), "pvt_merge_var": (0, 1), "pvt_orig": (0,), "trace_catch": (0,),
            "DROP_VAR": (0,), "pvt_multiprop_var": (0,), "pvt_trace_quiet": ()}
ERR_PLAIN = ("is_error", "DROP_CMD", "DUMP", "DUMP_DEBUG", "pvt_do_log")
JOUT = ("out", "ptr", "nonnull")
# callers hand over raw storage that these only prepare to be written
PREP = {"va_start", "sigemptyset", "__builtin_va_start"}


def local_root(fn, i):
    """local variable an lvalue lies in (not through a pointer), or None"""
    while True:
        n = fn.nodes[i]
        k = n["k"]
        if k == "mem":
            if n["ar"]:
                return None
            i = n["b"]
        elif k in ("cast", "stmtexpr"):
            i = n["s"]
        elif k == "idx":
            b = fn.nodes[n["b"]]
            while b["k"] == "cast":
                b = fn.nodes[b["s"]]
            if "*" in b.get("T", "") and not b.get("T", "").endswith("]"):
                return None
            i = n["b"]
        elif k == "ref":
            return n["v"] if n["d"] in ("l", "p") else None
        else:
            return None


def pointee_root(fn, i):
    """pointer parameter whose pointee an lvalue lies in, or None"""
    while True:
        n = fn.nodes[i]
        k = n["k"]
        if k == "mem":
            if n["ar"]:
                return pvar(fn, n["b"])
            i = n["b"]
        elif k == "un" and n["o"] == "*":
            return pvar(fn, n["s"])
        elif k == "idx":
            r = pvar(fn, n["b"])
            if r is not None:
                return r
            i = n["b"]
        elif k in ("cast", "stmtexpr"):
            i = n["s"]
        else:
            return None


def pvar(fn, i):
    n = fn.nodes[strip(fn, i)]
    if n["k"] == "ref" and n["d"] == "p" and "*" in fn.vars[n["v"]][1]:
        return n["v"]
    return None


def use_of(fn, x):
    """how the object of lvalue node x is used by its context:
    'read', 'write', ('addr', node of the & expression) or None"""
    while True:
        p = fn.parent[x]
        if p < 0:
            return "read"
        n = fn.nodes[p]
        k = n["k"]
        if k == "mem" and not n["ar"] and n["b"] == x:
            x = p
            continue
        if k == "mem":
            return "read"
        if k == "idx":
            if n["b"] != x:
                return "read"
            if fn.nodes[x].get("T", "").endswith("]"):
                x = p
                continue
            return "read"
        if k == "asg" and n["l"] == x:
            return "write" if n["o"] == "=" else "read"
        if k == "un" and n["o"] == "&":
            return ("addr", p)
        if k == "un" and n["o"] in ("++", "--", "p++", "p--"):
            return "read"
        if k == "cast":
            if n.get("T") == "void":
                return None
            if fn.nodes[x].get("T", "").endswith("]"):
                return ("addr", p)
            x = p
            continue
        if k == "stmtexpr":
            return "read"
        if k == "sizeof":
            return None
        if fn.nodes[x].get("T", "").endswith("]"):
            return ("addr", x)
        return "read"


def arg_of(fn, x):
    """(call, argument index) if node x (through casts) is an argument"""
    while True:
        p = fn.parent[x]
        if p < 0:
            return None
        n = fn.nodes[p]
        if n["k"] == "cast":
            x = p
            continue
        if n["k"] == "call" and x in n["a"]:
            return p, n["a"].index(x)
        return None


def in_spec(fn, x):
    """the & expression x is an output of a JSON specification"""
    p = fn.parent[x]
    while p >= 0 and fn.nodes[p]["k"] == "cast":
        x, p = p, fn.parent[p]
    if p < 0 or fn.nodes[p]["k"] != "init":
        return False
    n = fn.nodes[p]
    r = str(n.get("r", ""))
    if r == "_jkey_t":
        return any(f == "present" and c == x for f, c in n["i"])
    return r.startswith("jspec_") and any(f in JOUT and c == x for f, c in n["i"])


def specs(fn, i, out, req, seen):
    """[(variable, presence variables or None, node)] a specification writes"""
    n = fn.nodes[i]
    k = n["k"]
    if k == "ref":
        if n["d"] == "l" and n["v"] not in seen:
            for d in var_defs(fn, n["v"]):
                specs(fn, d, out, req, seen | {n["v"]})
        return
    if k == "call":
        return
    if k == "init":
        r = str(n.get("r", ""))
        d = dict(n["i"])
        if r == "_jkey_t":
            sub = req
            if "present" in d and "value" in d:
                v = addr_local(fn, d["present"])
                if v is None:
                    sub = None if req is not None else None
                else:
                    out.append((v, req, i))
                    sub = None if req is None else req | {v}
            if "value" in d:
                specs(fn, d["value"], out, sub, seen)
            return
        if r.startswith("jspec_") and r != "jspec_t":
            if r == "jspec_optional_t" and "nonnull" in d:
                v = addr_local(fn, d["nonnull"])
                if v is not None:
                    out.append((v, req, i))
                    if "subspec" in d:
                        specs(fn, d["subspec"], out, None if req is None else req | {v}, seen)
                    return
            for f in JOUT:
                if f in d:
                    v = addr_local(fn, d[f])
                    if v is not None:
                        out.append((v, req, i))
            for f, c in n["i"]:
                if f not in JOUT and c >= 0:
                    specs(fn, c, out, req, seen)
            return
    for c in children(n):
        specs(fn, c, out, req, seen)


def addr_local(fn, i):
    n = fn.nodes[strip(fn, i)]
    if n["k"] == "un" and n["o"] == "&":
        return local_root(fn, n["s"])
    return None


class LSim(Sim):
    """intraprocedural engine: every element is shown to the rule"""

    def _relevant(self):
        self.base = set()
        return set()

    def _touch(self):
        self.allg = frozenset()
        self.gtouch = {}

    def elem(self, fn, i, q, env):
        n = fn.nodes[i]
        if n["k"] == "ref" and n["d"] in ("l", "p"):
            q = self.rule.ref(self, fn, i, n, q, env)
        elif n["k"] in ("mem", "un", "idx"):
            q = self.rule.deref(self, fn, i, n, q, env)
        return Sim.elem(self, fn, i, q, env)


    def merged(self, fn, q0):
        """path-insensitive pass: block states are unions over all paths"""
        self.stack = ["%s:%s" % (fn.file, fn.name)]
        state = {fn.entry: q0}
        work = [fn.entry]
        pred = {}
        exits = []
        while work:
            blk = work.pop()
            b = fn.blocks[blk]
            self.cur = (fn, blk, None, pred)
            self.steps += 1
            if blk == fn.exit:
                continue
            qs = {state[blk]}
            for ei in b.elems:
                nxt = set()
                for q in qs:
                    for q2, e2 in self.elem(fn, ei, q, {}):
                        nxt.add(q2)
                qs = {frozenset().union(*nxt)} if nxt else set()
            if b.noret or not qs:
                continue
            q = frozenset().union(*qs)
            for s in b.succs:
                if s < 0:
                    continue
                old = state.get(s)
                new = q if old is None else old | q
                if new != old:
                    state[s] = new
                    work.append(s)
        return state.get(fn.exit)


class Init(Rule):
    max_states = 60000

    def __init__(self, ix, summ, roots):
        super().__init__(ix)
        self.S = summ
        self.roots = roots      # function id -> pseudo variables under study
        self.exits = []
        self.reads = None
        self.checked = 0
        self.json = 0
        self.jsonvars = set()
        self.suspects = set()

    def track(self, fn, c, v):
        return True

    # -- uses ----------------------------------------------------------------
    def used(self, sim, fn, i, v, q):
        if isinstance(v, tuple):
            self.reads = i
            return q - {v}
        self.suspects.add(v)
        name = fn.vars[v][0]
        kind = "E08" if v in self.jsonvars else "E07"
        msg = ("'%s' is used although the document may not have provided it" if kind == "E08"
               else "'%s' may be used before it is given a value") % name
        self.report(sim, fn, i, msg)
        return q - {v}

    def ref(self, sim, fn, i, n, q, env):
        v = n["v"]
        if v in q:
            u = use_of(fn, i)
            self.checked += 1
            if u == "read":
                return self.used(sim, fn, i, v, q)
            if isinstance(u, tuple):
                if arg_of(fn, u[1]) is None and not in_spec(fn, u[1]):
                    return q - {v}      # its address is kept somewhere
        p = ("p", v)
        if p in q and "*" in fn.vars[v][1]:
            # the pointer itself: dereference and call arguments are seen
            # elsewhere, comparisons are harmless, anything else is an alias
            par = fn.parent[i]
            x = i
            while par >= 0 and fn.nodes[par]["k"] == "cast":
                if fn.nodes[par].get("T") == "void":
                    return q
                x, par = par, fn.parent[par]
            m = fn.nodes[par] if par >= 0 else {"k": "none"}
            if m["k"] == "mem" and m["ar"] or m["k"] == "un" and m["o"] in ("*", "!") or m["k"] == "idx" and m["b"] == x:
                return q
            if m["k"] == "bin" and m["o"] in ("==", "!=", "&&", "||", "<", ">") or m["k"] in ("none",):
                return q
            if m["k"] == "call" and x in m["a"]:
                return q
            if m["k"] == "cond" and m["c"] == x:
                return q
            return q - {p}
        return q

    def deref(self, sim, fn, i, n, q, env):
        """outermost lvalue into the pointee of a parameter under study"""
        if not any(isinstance(x, tuple) for x in q):
            return q
        p = fn.parent[i]
        while p >= 0 and fn.nodes[p]["k"] == "cast":
            p = fn.parent[p]
        if p >= 0:
            m = fn.nodes[p]
            if m["k"] == "mem" and not m["ar"] and strip(fn, m["b"]) == i:
                return q
        v = pointee_root(fn, i)
        if v is None or ("p", v) not in q:
            return q
        u = use_of(fn, i)
        if u == "read" and not n.get("T", "").endswith("]"):
            return self.used(sim, fn, i, ("p", v), q)
        if isinstance(u, tuple) and arg_of(fn, u[1]) is None:
            return q - {("p", v)}
        return q

    # -- definitions ----------------------------------------------------------
    def written(self, fn, lhs, q):
        v = local_root(fn, lhs)
        if v is not None and v in q:
            q = q - {v}
        p = pointee_root(fn, lhs)
        if p is not None and ("p", p) in q:
            q = q - {("p", p)}
        return q

    def on_assign(self, sim, fn, i, lhs, val, q, env):
        return self.written(fn, lhs, q)

    def on_decl(self, sim, fn, i, v, init, val, q, env):
        if v not in self.vars:
            return q
        return q - {v} if init >= 0 else q | {v}

    def on_call(self, sim, fn, i, n, q, args, env):
        name = n.get("fn", "")
        if name in ERR_PLAIN or name.endswith("_container_of"):
            return None
        if name in ERR_READ:
            for ai in ERR_READ[name]:
                if ai < len(n["a"]):
                    for v in self.designated(fn, n["a"][ai], q):
                        q = self.used(sim, fn, n["a"][ai], v, q)
            return None
        if name in ("jspec_read", "jspec_read_ex", "jctx_read") or fp_field(fn, n) == ("jspec_t", "read"):
            r = self.decode(sim, fn, i, n, q, args, env)
            if r is not None:
                return r
        eff = []        # (item, summary)
        for ai, a in enumerate(n["a"]):
            for v in self.designated(fn, a, q):
                eff.append((v, ai))
        outs = sim.opaque(fn, i, n, q, args, env)
        if not eff:
            return outs
        split = False
        ss = []
        for v, ai in eff:
            s = self.S.of(fn, n, ai)
            if s.reads:
                q = self.used(sim, fn, n["a"][ai], v, q)
            ss.append((v, s))
            if s.ok != s.bad:
                split = True
        res = []
        for ret, _, e in outs:
            cases = [ret]
            if split and ret is None:
                cases = [0, NZ]
            for r in cases:
                t = truth(r)
                q2 = q
                for v, s in ss:
                    w = s.ok if t is None else (s.bad if t == s.badtruth else s.ok)
                    if w:
                        q2 = q2 - {v}
                res.append((r, q2, e))
        return res

    def designated(self, fn, a, q):
        """items of q whose object argument expression a points to"""
        if not q:
            return
        m = fn.nodes[strip(fn, a)]
        if m["k"] == "un" and m["o"] == "&":
            v = local_root(fn, m["s"])
            if v is not None and v in q:
                yield v
            p = pointee_root(fn, m["s"])
            if p is not None and ("p", p) in q:
                yield ("p", p)
        elif m["k"] == "ref" and m["d"] == "p" and ("p", m["v"]) in q:
            yield ("p", m["v"])
        elif m["k"] == "ref" and m["d"] == "l" and m["v"] in q and m.get("T", "").endswith("]"):
            yield m["v"]
        elif m["k"] == "call":
            # CONTAINER_OF-style and writer wrappers: assume they initialise
            pass

    # -- JSON -----------------------------------------------------------------
    def decode(self, sim, fn, i, n, q, args, env):
        name = n.get("fn")
        si = 1 if name == "jctx_read" else 0
        outs = []
        specs(fn, n["a"][si], outs, frozenset(), frozenset())
        self.json += len(outs)
        for v, req, _ in outs:
            self.jsonvars.add(v)
        ok = None
        if name == "jspec_read_ex":
            ok = addr_local(fn, n["a"][2])
        elif name != "jspec_read":
            # the outcome flag was given to the context
            cv = addr_local(fn, n["a"][0 if name else 1])
            for d in var_defs(fn, cv) if cv is not None else ():
                m = fn.nodes[strip(fn, d)]
                if m["k"] == "call" and m.get("fn") == "jctx_fork":
                    ok = addr_local(fn, m["a"][2])
        if not outs and ok is None:
            return None
        res = []
        bad = dict(env)
        res.append((NZ, q, bad))
        pres = sorted({x for v, req, _ in outs for x in (req or ())})
        if len(pres) > 7:
            raise front.Broken("too many optional keys in " + fn.id)
        for combo in itertools.product((0, 1), repeat=len(pres)):
            got = {p for p, b in zip(pres, combo) if b}
            e = dict(env)
            q2 = q
            good = True
            for p, b in zip(pres, combo):
                # a nested presence flag is only written inside its parent
                par = [req for v, req, _ in outs if v == p]
                if any(req is not None and not req <= got for req in par):
                    if b:
                        good = False
                    continue
                e[("v", p)] = b
            if not good:
                continue
            for v, req, _ in outs:
                if req is None or req <= got:
                    q2 = q2 - {v}
                    if v not in pres:
                        sim.put(e, ("v", v), None)
            if ok is not None:
                e[("v", ok)] = 1
                q2 = q2 - {ok}
            res.append((0, q2, e))
        if ok is not None:
            e = dict(env)
            e[("v", ok)] = 0
            res.append((0, q - {ok}, e))
        return res

    def on_exit(self, sim, fn, q, ret, env):
        self.exits.append((ret, q))


class Eff:
    __slots__ = ("ok", "bad", "reads", "badtruth")

    def __init__(self, ok, bad, reads, badtruth=True):
        self.ok, self.bad, self.reads, self.badtruth = ok, bad, reads, badtruth


WRITES = Eff(True, True, False)
READS = Eff(False, False, True)


def scalar(prog, T):
    return T not in prog.records and T.replace("struct ", "") not in prog.records


class Summaries:
    """what a callee does to the object one of its pointer arguments designates:
    written on success / on failure, read before it is written"""

    def __init__(self, prog, ix):
        self.p = prog
        self.ix = ix
        self.memo = {}
        self.depth = 0
        self.n = 0

    def of(self, fn, n, ai):
        if "f" not in n:
            return WRITES
        if n.get("fn") in PREP:
            return WRITES
        f = self.p.funcs.get(n["f"])
        if f is None:
            x = self.p.externs.get(n["f"])
            pt = x[1][ai] if x and ai < len(x[1]) else ""
            if pt.startswith("const ") and pt.count("*") == 1 and pt != "const void *":
                return READS
            return WRITES
        if ai >= len(f.params):
            return WRITES
        return self.fn(f, f.params[ai])

    def fn(self, f, v):
        key = (f.id, v)
        if key in self.memo:
            return self.memo[key] or WRITES
        T = f.vars[v][1]
        if "*" not in T or T.endswith("void *") or T.count("*") > 2:
            self.memo[key] = WRITES
            return WRITES
        if self.depth > 40:
            return WRITES
        self.memo[key] = None
        self.depth += 1
        self.n += 1
        try:
            r = Init(self.ix, self, None)
            r.vars = set()
            s = LSim(r)
            qx = s.merged(f, frozenset({("p", v)}))
            if r.reads is None and (qx is None or ("p", v) not in qx):
                self.memo[key] = WRITES
                return WRITES
            r = Init(self.ix, self, None)
            r.vars = set()
            s = LSim(r)
            try:
                s.run([(f.id, frozenset({("p", v)}), ((("v", v), NZ),))])
            except front.Broken:
                self.memo[key] = WRITES
                return WRITES
        finally:
            self.depth -= 1
        item = ("p", v)
        cls = {0: set(), 1: set()}
        for ret, q in r.exits:
            t = truth(ret)
            w = item not in q
            if is_derr(f.ret) or f.ret in ("bool", "_Bool", "int") or "derr_type" in f.ret:
                for k in ((0, 1) if t is None else ((1,) if t else (0,))):
                    cls[k].add(w)
            else:
                cls[0].add(w)
                cls[1].add(w)
        # may the caller learn from another result whether this one is set?
        told = not is_derr(f.ret) or any(
            x != v and f.vars[x][1].endswith("*") and f.vars[x][1].count("*") == 1 and not f.vars[x][1].startswith("const ")
            and scalar(self.p, f.vars[x][1][:-1].strip()) for x in f.params)
        res = self.classify(f, cls, r.reads is not None, told)
        self.memo[key] = res
        return res

    @staticmethod
    def classify(f, cls, reads, told):
        def w(s, other):
            if s == {True}:
                return True
            if s == {False}:
                return False
            if not s:
                return None
            return True         # only some paths write: cannot tell
        derr = is_derr(f.ret) or "derr_type" in f.ret
        if f.ret in ("bool", "_Bool"):
            # 'bad' is whichever outcome leaves the object alone
            if cls[0] == {False} and cls[1] == {True}:
                return Eff(True, False, reads, False)
            if cls[1] == {False} and cls[0] == {True}:
                return Eff(True, False, reads, True)
            a = w(cls[0] | cls[1], None)
            return Eff(bool(a), bool(a), reads)
        if derr:
            ok = w(cls[0], None)
            bad = False not in cls[1]     # vacuous when it never fails this way
            if ok is None:
                ok = False
            if cls[0] == {True, False}:
                # success does not settle it: nothing to hold callers to
                return Eff(told, True if cls[1] != {False} and told else False, reads)
            return Eff(bool(ok), bool(bad), reads)
        a = w(cls[0] | cls[1], None)
        return Eff(bool(a), bool(a), reads)


def scope(f):
    # the PHP binding's locals are written by PHP's own parameter macros
    return not f.file.startswith(("test/", "server/smphp/")) and "/test_" not in f.file and f.nodes


def run_all(prog, ix, res):
    c = getattr(prog, "_initrun", None)
    if c is not None:
        return c
    S = Summaries(prog, ix)
    found = {}
    stat = dict(functions=0, locals=0, checked=0, states=0, json=0)
    stat["locals needing path sensitivity"] = 0
    for t in sorted(prog.funcs):
        f = prog.funcs[t]
        if not scope(f):
            continue
        cand = candidates(f)
        if not cand:
            continue
        stat["functions"] += 1
        stat["locals"] += len(cand)
        r = Init(ix, S, None)
        r.vars = cand
        s = LSim(r)
        s.merged(f, frozenset(cand))
        stat["checked"] += r.checked
        stat["states"] += s.steps
        stat["json"] += r.json
        if not r.suspects:
            continue
        stat["locals needing path sensitivity"] += len(r.suspects)
        for one in sorted(r.suspects):
            r = Init(ix, S, None)
            r.vars = {one}
            s = LSim(r)
            s.run([(t, frozenset({one}), ())])
            stat["states"] += s.steps
            for k, v in r.found.items():
                found[k] = v
        continue
        stat["json"] += r.json
    stat["callee summaries"] = S.n
    prog._initrun = (found, stat)
    return found, stat


def candidates(f):
    """locals that can be without a value somewhere: declared without an
    initialiser, or declared in a scope that a jump can enter past it"""
    c = set()
    uninit, init = set(), {}
    for i, n in enumerate(f.nodes):
        if n["k"] == "decls":
            for v, x in n["d"]:
                T = f.vars[v][1]
                if f.vars[v][2] != "l" or T.endswith("]") or "va_list" in T:
                    continue
                if x < 0:
                    uninit.add(v)
                else:
                    init.setdefault(v, []).append(i)
    c |= uninit
    if init:
        # is there a path from entry to a use that avoids the declaration?
        decl = {}
        for b in f.blocks.values():
            for e in b.elems:
                n = f.nodes[e]
                if n["k"] == "decls":
                    for v, x in n["d"]:
                        decl.setdefault(v, set()).add(b.id)
        uses = {}
        for b in f.blocks.values():
            for e in b.elems:
                n = f.nodes[e]
                if n["k"] == "ref" and n["d"] == "l":
                    uses.setdefault(n["v"], set()).add(b.id)
        for v in init:
            stop = decl.get(v, set())
            if f.entry in stop or not uses.get(v):
                continue
            seen = {f.entry}
            st = [f.entry]
            hit = False
            while st:
                x = st.pop()
                if x in uses[v] and x not in stop:
                    hit = True
                    break
                if x in stop:
                    continue
                for y in f.blocks[x].succs:
                    if y >= 0 and y not in seen:
                        seen.add(y)
                        st.append(y)
            if hit:
                c.add(v)
    return c


def report(res, found, kind):
    for v in found.values():
        k = "E08" if "document" in v["message"] else "E07"
        if k == kind:
            res.violations.append(v)


def e07(prog, ix, res, tier):
    found, st = run_all(prog, ix, res)
    report(res, found, "E07")
    res.floor("functions with locals to follow", st["functions"], 600)
    res.floor("locals followed", st["locals"], 1000)
    res.floor("uses of a possibly unset local examined", st["checked"], 1000)
    res.stats["abstract block states"] = st["states"]
    res.stats["callee summaries"] = st["callee summaries"]


def e08(prog, ix, res, tier):
    found, st = run_all(prog, ix, res)
    report(res, found, "E08")
    res.floor("decoded outputs followed", st["json"], 20)


CHECKS = {
    "E07": dict(check=e07, level="other",
                technique="path-sensitive definite-initialisation analysis of every local over the control-flow "
                          "graph, with interprocedural summaries of what each callee writes or reads through its "
                          "pointer arguments on success and on failure",
                assumptions=["a struct counts as given a value once any member is written",
                             "external functions write what their non-const pointer arguments designate"]),
    "E08": dict(check=e08, level="other",
                technique="the same definite-initialisation analysis with the JSON decoder's contract: required keys "
                          "are written only when the document matched, optional keys only when their presence flag is set",
                assumptions=["decoder contract as in libdstr/jspec.c"]),
}
