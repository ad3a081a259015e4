"""E01: no failure is silently discarded."""
from sim import Rule, Sim, truth, is_derr, is_derr_ptr, NZ
from front import Broken

# setting up the diagnostics sinks themselves: nowhere left to report to
DIAG_SINKS = {"logger_add_fileptr", "logger_add_filename"}
ERRAPI_FILE = "libdstr/logger.c"


def in_scope(f):
    return not f.file.startswith(("tools/",)) and "/test_" not in f.file \
        and f.file not in (ERRAPI_FILE, "libdstr/logger.h")


class Lost(Rule):
    """typestate of every derr_t local: an error value must be returned,
    propagated, handed on, caught or dropped before it is overwritten or goes
    out of scope"""
    max_states = 400000

    def __init__(self, ix, borrow):
        super().__init__(ix)
        self.borrow = borrow
        self.mode = "report"
        self.consumed_param = False

    def track(self, fn, c, v):
        t = fn.vars[c[1]][1]
        return (is_derr(t) and len(c) == 2) or (isinstance(v, tuple) and v[0] == "&" and is_derr_ptr(t)) \
            or t in ("bool", "_Bool")

    def keep_var(self, fn, v):
        return is_derr(fn.vars[v][1])

    def mark(self, c, env):
        if c and c[0] == "v":
            env[("c",) + c] = 1

    def on_call(self, sim, fn, i, n, q, args, env):
        name = n.get("fn")
        if name == "is_error":
            return None
        for ai, a in enumerate(n["a"]):
            if is_derr(fn.nodes[a].get("T", "")):
                if (n.get("f"), ai) in self.borrow:
                    continue
                self.mark(sim.cell(fn, a, env), env)
        if name == "trace_catch":
            v = args[0]
            if isinstance(v, tuple) and v[0] == "&":
                self.mark(v[1], env)
        return None

    def lost(self, sim, fn, i, c, env, what):
        if c and c[0] == "v" and len(c) == 2 and is_derr(fn.vars[c[1]][1]):
            if truth(env.get(c)) and ("c",) + c not in env and len(sim.stack) == 1:
                if self.mode == "report":
                    self.report(sim, fn, i, "error in '%s' is %s" % (fn.vars[c[1]][0], what))

    def on_assign(self, sim, fn, i, lhs, val, q, env):
        n = fn.nodes[i]
        if n["k"] == "asg" and is_derr(fn.nodes[n["l"]].get("T", "")):
            c = sim.cell(fn, n["l"], env)
            rc = sim.cell(fn, n["r"], env)
            self.mark(rc, env)
            if rc != c:
                self.lost(sim, fn, i, c, env, "overwritten before anything looked at it")
                if c:
                    env.pop(("c",) + c, None)
        return q

    def on_decl(self, sim, fn, i, v, init, val, q, env):
        env.pop(("c", "v", v), None)
        if init >= 0:
            self.consume_in(sim, fn, init, env)
        return q

    def consume_in(self, sim, fn, x, env):
        from model import children
        n = fn.nodes[x]
        if is_derr(n.get("T", "")):
            self.mark(sim.cell(fn, x, env), env)
        if n["k"] in ("init", "cl", "cond"):
            for c in children(n):
                self.consume_in(sim, fn, c, env)

    def on_ret(self, sim, fn, i, v, q, env):
        n = fn.nodes[i]
        if n["s"] >= 0:
            self.consume_in(sim, fn, n["s"], env)
        return q

    def on_exit(self, sim, fn, q, ret, env):
        for c, v in list(env.items()):
            if c[0] == "v" and len(c) == 2:
                if fn.vars[c[1]][2] == "p" and ("c",) + c in env:
                    self.consumed_param = True
                self.lost(sim, fn, -1, c, env, "lost when the function ends")


def run_one(sim, f, ps, val):
    sim.stack = []
    sim.run_fn((f.id, 0, frozenset((("v", v), val) for v in ps)))
    sim.stack = []


def check_E01(prog, ix, res, tier):
    # (a) call results of type derr_t that nothing consumes
    ncalls = ndisc = 0
    for f in prog.funcs.values():
        if not in_scope(f):
            continue
        for i, n in enumerate(f.nodes):
            if n["k"] != "call" or not is_derr(n.get("T", "")):
                continue
            ncalls += 1
            p = f.parent[i]
            while p >= 0 and f.nodes[p]["k"] in ("cast", "stmtexpr"):
                p = f.parent[p]
            if p >= 0 and not (f.nodes[p]["k"] == "bin" and f.nodes[p]["o"] == ","):
                continue
            if p >= 0 and f.nodes[p]["r"] == i and f.parent[p] >= 0:
                continue
            name = n.get("fn") or pointer_name(f, n)
            if name in DIAG_SINKS:
                continue
            ndisc += 1
            res.add(f, n["L"], "result of %s() is discarded" % name)
    res.floor("calls returning an error value", ncalls, 2500)
    # (b) error values held in locals
    borrow = set()
    fns = [f for f in prog.funcs.values() if in_scope(f) and any(is_derr(v[1]) for v in f.vars)]
    rule = Lost(ix, borrow)
    sim = Sim(rule)
    sim.relevant = {f.id for f in prog.funcs.values() if f.file != ERRAPI_FILE and
                    any(is_derr_ptr(f.vars[v][1]) for v in f.params) and drops_param(f)}
    # functions that only inspect an error passed by value
    withp = [(f, [v for v in f.params if is_derr(f.vars[v][1])]) for f in prog.funcs.values()]
    withp = [(f, ps) for f, ps in withp if ps and f.file != ERRAPI_FILE and f.name not in ("DROP_CMD", "is_error")]
    rule.mode = "infer"
    for _ in range(5):
        new = set()
        for f, ps in withp:
            sim.done = set()
            rule.consumed_param = False
            run_one(sim, f, ps, NZ)
            if not rule.consumed_param and not touches_addr(f, ps):
                for v in ps:
                    new.add((f.id, f.params.index(v)))
        if new == borrow:
            break
        borrow.clear()
        borrow |= new
    res.floor("functions taking an error by value", len(withp), 50)
    res.stats["of which only inspect it"] = len(borrow)
    rule.mode = "report"
    rule.found = {}
    steps = 0
    for f in fns:
        ps = [v for v in f.params if is_derr(f.vars[v][1])]
        if ps and (f.id, f.params.index(ps[0])) in borrow:
            continue
        for val in ([0, NZ] if ps else [0]):
            sim.done = set()
            run_one(sim, f, ps, val)
    res.floor("functions holding error values", len(fns), 1000)
    res.stats["abstract block states"] = sim.steps
    res.functions |= {f.id for f in fns}
    res.add_rule(rule)
    res.samples = ["%s:%d %s" % (f.file, f.line, f.name) for f in fns[:40]]


def pointer_name(f, n):
    e = f.nodes[n["fe"]]
    while e["k"] in ("cast", "un"):
        e = f.nodes[e["s"]]
    return e.get("f") or e.get("n") or "?"


def drops_param(f):
    for n in f.nodes:
        if n["k"] == "call" and n.get("fn") in ("DROP_VAR", "pvt_prop_var", "pvt_merge_var", "pvt_rethrow"):
            return True
        if n["k"] == "asg" and is_derr(n.get("T", "")):
            return True
    return False


def touches_addr(f, ps):
    """the parameter's address is taken by something other than is_error etc."""
    for i, n in enumerate(f.nodes):
        if n["k"] == "un" and n["o"] == "&":
            s = f.nodes[n["s"]]
            if s["k"] == "ref" and s["d"] == "p" and s["v"] in ps:
                return True
    return False


CHECKS = {
    "E01": dict(
        check=check_E01, level="other",
        technique="unused-result query over every call returning an error value, plus a path-sensitive "
        "typestate analysis of every local error value (returned, propagated, caught, handed on or dropped "
        "before overwrite or scope end)",
        assumptions=["errors handed to a callee by value are that callee's responsibility (each such callee is "
                     "analysed in turn)", "setting up diagnostics sinks is exempt"]),
}
