"""W01: an event that changes an object's state is followed by running its
state machine."""
import collections
import re

from sim import Rule
from util import strip
from r_alloc import ASim, scope

DIRS = ("libcitm/", "libduv/", "libduvtls/", "libhttp/", "libacme/", "api_client.c")
# not deliveries of an event: queries, writers, parsers, visitors, finalisers
EXC = re.compile(r"^qw_|_filter$|^_?instr|^web_parse|^uv_walk|^signal|^refs_init|^hashmap|^jsw|^imap_cmd_cb|^io_add|hook|^uvam_")
SLOT = re.compile(r"^\.|^=$")
METHOD = {".cancel", ".await", ".shutdown"}

# callbacks whose event nobody waits for, or that leave the next step to
# another event which is known to be outstanding
QUIET = {
    ("libcitm/uv.c", "uv_citm_update_cb"): "replaces the certificate used for later connections",
    ("libcitm/uv_acme_manager.c", "http_close_cb"): "a key generation in progress reports later",
    ("libduv/reader.c", "read_cb"): "at the end of the stream the await callback follows",
    ("libduv/scheduler.c", "timer_cb"): "the scheduler itself",
}


def refs(prog):
    addr = collections.defaultdict(list)
    for f in prog.funcs.values():
        for i, n in enumerate(f.nodes):
            xs = []
            if n["k"] == "call":
                xs = [(a, n.get("fn") or "?") for a in n["a"]]
            elif n["k"] == "asg":
                xs = [(n["r"], "=")]
            elif n["k"] == "init":
                xs = [(x, ".%s" % fl) for fl, x in n["i"] if x >= 0]
            for x, how in xs:
                m = f.nodes[strip(f, x)]
                if m["k"] == "un" and m["o"] == "&":
                    m = f.nodes[strip(f, m["s"])]
                if m["k"] == "ref" and m["d"] == "f" and m.get("id") in prog.funcs:
                    addr[m["id"]].append((f, i, how))
    return addr


class Base(Rule):
    max_states = 30000

    def __init__(self, ix):
        super().__init__(ix)
        self.now = frozenset()
        self.out = []

    def settle(self, q, env):
        pass

    def cells(self, q):
        return frozenset()

    def ref(self, sim, fn, i, n, q, env):
        return q

    def deref(self, sim, fn, i, n, q, env):
        return q

    def on_assign(self, sim, fn, i, lhs, val, q, env):
        return q

    def on_decl(self, sim, fn, i, v, init, val, q, env):
        return q

    def on_ret(self, sim, fn, i, v, q, env):
        return q


def base_mem(fn, i):
    """the member of a pointed-to object an lvalue lies in, or None"""
    m = fn.nodes[strip(fn, i)]
    while m["k"] in ("mem", "idx") and not m.get("ar"):
        m = fn.nodes[strip(fn, m["b"])]
    return m if m["k"] == "mem" and m["ar"] else None


class Wake(Base):
    """q = (changed, progressed, something else is known to be outstanding)"""
    def __init__(self, ix, M):
        super().__init__(ix)
        self.M = M
        self.calls = 0

    def track(self, fn, c, v):
        return len(c) == 2

    def on_assign(self, sim, fn, i, lhs, val, q, env):
        m = base_mem(fn, lhs)
        if m is not None and not q[1]:
            return (True, False, False)
        return q

    def on_call(self, sim, fn, i, n, q, args, env):
        name = n.get("fn", "")
        if self.M.progress(fn, n):
            q2 = (q[0], True, False)
            self.calls += 1
        elif name == "link_list_isempty":
            # the others on the list are still to come
            return [(0, q if q[1] else (q[0], False, True), dict(env)), (1, q, dict(env))]
        elif (name.startswith("link_list_") or self.M.changes(n)) and not q[1]:
            q2 = (True, False, q[2])
        else:
            q2 = q
        return [(r, q2, e) for r, _, e in sim.opaque(fn, i, n, q, args, env)]

    def on_exit(self, sim, fn, q, ret, env):
        self.out.append(q)


class Machine:
    def __init__(self, prog, ix):
        self.p = prog
        self.ix = ix
        self.addr = refs(prog)
        self.memo = {}
        self.wmemo = {}
        self.pmemo = {}         # functions that change an object and leave the rest to the caller
        self.prim = set()
        for t, us in self.addr.items():
            if any(h == "schedulable_prep" for _, _, h in us):
                f = prog.funcs[t]
                self.prim.add(t)
                for n in f.nodes:
                    if n["k"] == "call" and n.get("f") in prog.funcs and not n["fn"].endswith("_container_of") \
                            and prog.funcs[n["f"]].file.startswith(DIRS) and prog.funcs[n["f"]].ret in ("void", "bool"):
                        self.prim.add(n["f"])
        for f in prog.funcs.values():
            if re.search(r"(^|_)advance_", f.name) and not f.name.endswith("_container_of"):
                self.prim.add(f.id)
            if f.ret == "void" and len(f.params) == 1:
                for n in f.nodes:
                    if n["k"] == "call" and "f" not in n and n.get("fe", -1) >= 0:
                        m = f.nodes[strip(f, n["fe"])]
                        if m["k"] == "mem" and m["f"] == "schedule" and m.get("r") == "scheduler_i":
                            self.prim.add(f.id)

    def progress(self, fn, n):
        if "f" not in n or n["f"] in self.prim:
            return True
        name = n["fn"]
        if n["f"] not in self.p.funcs:
            return name.startswith("uv_") and name not in ("uv_buf_init", "uv_strerror", "uv_err_name", "uv_is_active", "uv_is_closing")
        if self.p.funcs[n["f"]].file.startswith("libdstr/"):
            return False
        for a in n["a"]:
            m = fn.nodes[strip(fn, a)]
            if m["k"] == "ref" and m["d"] == "f" and not EXC.search(name):
                return True         # the next operation is started
        return self.must(n["f"])

    def changes(self, n):
        """a call that hands the event on to a part of the object"""
        t = n.get("f")
        if t not in self.p.funcs or n.get("T") != "void":
            return False
        if t not in self.pmemo:
            self.pmemo[t] = False       # recursion
            self.pmemo[t] = self.writes(t) and any(q[0] and not q[1] and not q[2] for q in self.run(t)[0].out)
        return self.pmemo[t]

    def writes(self, t, depth=0):
        if t in self.wmemo:
            return self.wmemo[t]
        self.wmemo[t] = False
        f = self.p.funcs[t]
        w = False
        if f.file.startswith(DIRS) and f.params and not re.search("free|close|_container_of|cancel", f.name):
            for i, n in enumerate(f.nodes):
                if n["k"] == "asg":
                    m = base_mem(f, n["l"])
                    if m is not None:
                        w = True
                elif n["k"] == "call" and n.get("f") in self.p.funcs and depth < 3 and n.get("T") == "void" and self.writes(n["f"], depth + 1):
                    w = True
        self.wmemo[t] = w
        return w

    def run(self, t):
        r = Wake(self.ix, self)
        s = ASim(r)
        s.run([(t, (False, False, False), ())])
        return r, s

    def must(self, t):
        if t not in self.memo:
            self.memo[t] = False
            o = self.run(t)[0].out
            self.memo[t] = bool(o) and all(x[1] for x in o)
        return self.memo[t]


def w01(prog, ix, res, tier):
    M = Machine(prog, ix)
    ev = meth = steps = act = 0
    for t in sorted(M.addr):
        f = prog.funcs[t]
        if f.ret != "void" or not scope(f) or not f.file.startswith(DIRS) or not f.params or t in M.prim:
            continue
        T = f.vars[f.params[0]][1]
        if "*" not in T or "uv_buf_t *" in f.vars[f.params[-1]][1] and len(f.params) == 3 and "size_t" in f.vars[f.params[1]][1] and "ssize" not in f.vars[f.params[1]][1] and "long" not in f.vars[f.params[1]][1].replace("unsigned long", ""):
            continue
        if all(EXC.search(h) for _, _, h in M.addr[t]) or f.file == "libhttp/sync.c":
            continue
        if any("http_pair_t" in f.vars[v][1] for v in f.params) or T.replace(" ", "") == "uv_work_t*" and len(f.params) == 1:
            continue        # notified of a header on the way; runs on another thread
        method = all(h in METHOD for _, _, h in M.addr[t])
        if not method and all(SLOT.match(h) and h not in (".cb", "=") for _, _, h in M.addr[t]):
            continue
        r, s = M.run(t)
        steps += s.steps
        res.functions.add(t)
        done = any(q[1] for q in r.out)
        act += done
        if method:
            meth += 1
            if not done and any(q[0] for q in r.out):
                res.add(f, f.line, "%s: a request that changes the object's state never makes it act on it" % f.name)
            continue
        ev += 1
        if (f.file, f.name) in QUIET:
            continue
        if any(q[0] and not q[1] and not q[2] for q in r.out):
            res.add(f, f.line, "%s: the event changes the state of its object, but on some path nothing is done with it: "
                    "neither its state machine is run or scheduled, nor a callback called, nor another operation started" % f.name)
        elif not done and acts(prog, f):
            res.add(f, f.line, "%s: the event is not acted on" % f.name)
    res.floor("event callbacks", ev, 120)
    res.floor("cancel, await and shutdown methods", meth, 12)
    res.floor("callbacks and methods that make progress", act, 110)
    res.floor("functions that run or schedule a state machine", len(M.prim), 40)
    res.stats["abstract block states"] = steps


def acts(prog, f):
    """does a callback that makes no progress look at its object at all, other
    than to release it?"""
    seen = False
    for n in f.nodes:
        if n["k"] == "call":
            name = n.get("fn", "")
            if "free" in name or "close" in name or "citm" in name or "cancel" in name:
                return False
            if name.endswith("_container_of"):
                seen = True
        elif n["k"] == "mem" and n["f"] == "data":
            seen = True
    return seen


CHECKS = {
    "W01": dict(check=w01, level="other",
                technique="path-sensitive effect analysis of every event callback: a path that stores to the object must "
                          "run or schedule its state machine, call a callback or start another operation before it returns",
                assumptions=["a state machine that is run takes every step it can",
                             "the scheduler runs what was scheduled"]),
}
