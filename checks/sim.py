"""Path-sensitive, interprocedural property simulation over the CFG model.

An abstract state is (q, env): q is the rule's automaton state, env a finite
valuation (frozenset of (cell, value)) of the cells the engine tracks:
  ('v', i, *fields)   local variable i (or a field of a local struct)
  ('d', i, *fields)   the object that pointer variable i designates
  ('g', record, field) a guard field chosen by the rule (instance-insensitive)
derr_t objects are identified with their .type member.
Values: ints, 'NZ' (non zero), ('S', name) (an error type), ('F', id),
('&', cell).  A missing cell is unknown.  Every summary is a set of outcomes
(return value, q', guard cells, pointee cells) and is computed to a fixpoint.
"""
import collections
import sys

from front import Broken

sys.setrecursionlimit(20000)

NZ = "NZ"
KILL = ("kill",)   # returned by a rule hook: this path cannot happen


def truth(v):
    if v is None:
        return None
    if isinstance(v, int):
        return v != 0
    if isinstance(v, tuple):
        if v[0] == "0":
            return False
        if v[0] == "&" and len(v) > 2:
            return None     # an output pointer the caller may leave NULL
    return True


def is_derr(t):
    return t in ("derr_t", "struct derr_t")


def is_derr_ptr(t):
    return t.replace("const ", "") in ("derr_t *", "struct derr_t *")


BOOLISH = ("bool", "_Bool")


class Index:
    """whole-program indices shared by the rules"""

    def __init__(self, prog):
        self.p = prog
        self.callers = collections.defaultdict(set)     # fn id -> caller ids
        self.calls = collections.defaultdict(list)      # fn id -> [(fn, node id)]
        self.addr_taken = collections.defaultdict(set)  # fn id -> where
        self.fp = collections.defaultdict(set)          # (record, field) -> fn ids
        self.fnparam = collections.defaultdict(set)     # (callee, param idx) -> fn ids
        self.byname = collections.defaultdict(list)
        for f in prog.funcs.values():
            self.byname[f.name].append(f)
            for i, n in enumerate(f.nodes):
                k = n["k"]
                if k == "call" and "f" in n:
                    self.callers[n["f"]].add(f.id)
                    self.calls[n["f"]].append((f, i))
                    for ai, a in enumerate(n["a"]):
                        t = self._fnref(f.nodes, a)
                        if t:
                            self.fnparam[(n["f"], ai)].add(t)
                elif k == "ref" and n["d"] == "f":
                    if f.parent[i] < 0:
                        continue      # the callee of a direct call
                    self.addr_taken[n["id"]].add((f.id, n["L"]))
                elif k == "asg":
                    l = f.nodes[n["l"]]
                    if l["k"] == "mem":
                        t = self._fnref(f.nodes, n["r"])
                        if t:
                            self.fp[(l.get("r"), l["f"])].add(t)
                elif k == "init":
                    self._init(f.nodes, n)
        for g in prog.globals.values():
            for n in g["nodes"]:
                if n["k"] == "init":
                    self._init(g["nodes"], n)
                if n["k"] == "ref" and n["d"] == "f":
                    self.addr_taken[n["id"]].add((g["id"], n["L"]))

    def _fnref(self, nodes, i):
        n = nodes[i]
        while n["k"] in ("cast", "cl") or (n["k"] == "un" and n["o"] == "&"):
            n = nodes[n["s"]]
        if n["k"] == "ref" and n["d"] == "f":
            return n["id"]
        return None

    def _init(self, nodes, n):
        r = n.get("r")
        if not r:
            return
        for fld, c in n["i"]:
            if c >= 0:
                t = self._fnref(nodes, c)
                if t:
                    self.fp[(r, fld)].add(t)

    def one(self, name, file=None):
        c = [f for f in self.byname.get(name, []) if file is None or f.file == file]
        return c[0] if c else None

    def targets(self, fn, n):
        """callee ids of a call node (function pointers by record field)"""
        if "f" in n:
            return [n["f"]]
        e = fn.nodes[n["fe"]]
        while e["k"] in ("cast",) or (e["k"] == "un" and e["o"] in ("*", "&")):
            e = fn.nodes[e["s"]]
        if e["k"] == "mem":
            return sorted(self.fp.get((e.get("r"), e["f"]), ()))
        return []

    def reach_up(self, ids, fp=False):
        """ids plus all transitive (direct) callers"""
        seen = set(ids)
        work = list(ids)
        fpc = None
        if fp:
            fpc = self.fp_callers()
        while work:
            x = work.pop()
            cs = set(self.callers.get(x, ()))
            if fpc:
                cs |= fpc.get(x, set())
            for c in cs:
                if c not in seen:
                    seen.add(c)
                    work.append(c)
        return seen

    def fp_callers(self):
        if not hasattr(self, "_fpc"):
            r = collections.defaultdict(set)
            for f in self.p.funcs.values():
                for n in f.nodes:
                    if n["k"] == "call" and "fe" in n:
                        for t in self.targets(f, n):
                            r[t].add(f.id)
            self._fpc = r
        return self._fpc


class Rule:
    """subclass and override"""
    guards = frozenset()     # {(record, field)}
    guard_globals = frozenset()
    guard_cell = None        # optional f(fn, member node) -> member of guards it denotes, or None
    follow_fp = False
    max_states = 60000
    keep_err_types = False
    ptr_types = ()           # pointer parameters whose targets are cells of their own
    addr_guards = False      # the address of a guard field designates its cell
    frame = False            # do not pass guard cells to callees that never mention them
    fork_ret = False         # follow both outcomes of a returned condition
    bind_ptr = False         # callees know that the address of an object is not NULL
    any_int = False          # callees know every integer argument, not just small ones
    track = None             # optional f(fn, cell, value): track this local?

    def __init__(self, index):
        self.ix = index
        self.p = index.p
        self.found = {}
        self.count = collections.Counter()

    def keep_var(self, fn, v):
        """keep this local's value even when nothing reads it any more"""
        return False

    def is_event(self, fn, i, n):
        return False

    def on_call(self, sim, fn, i, n, q, args, env):
        """None: default; list of (ret, q'): replaces the callee's effect"""
        return None

    def after_call(self, sim, fn, i, n, q, args, ret, env):
        """q' once the callee's own effect was applied"""
        return q

    def on_assign(self, sim, fn, i, lhs, val, q, env):
        return q

    def on_decl(self, sim, fn, i, v, init, val, q, env):
        return q

    def on_ret(self, sim, fn, i, v, q, env):
        return q

    def on_read(self, sim, fn, i, n, q, env):
        return q

    def on_enter(self, fn, q):
        return q

    def on_leave(self, fn, q, ret):
        return q

    def on_exit(self, sim, fn, q, ret, env):
        pass

    def report(self, sim, fn, i, msg):
        n = fn.nodes[i] if i is not None and i >= 0 else None
        line = n["L"] if n else fn.end
        key = (fn.file, fn.name, line, msg)
        if key not in self.found:
            self.found[key] = {
                "file": fn.file, "function": fn.name, "line": line, "message": msg,
                "via": [f for f in sim.stack], "path": sim.path_lines(),
            }


class Sim:
    def __init__(self, rule):
        self.rule = rule
        self.ix = rule.ix
        self.p = rule.p
        self.summ = {}
        self.done = set()
        self.inprog = set()
        self.rec_hit = False
        self.changed = False
        self.stack = []
        self.steps = 0
        self.fns = set()
        self.pred = []
        self.cur = None
        self.relevant = self._relevant()
        self._touch()

    # -- relevance -------------------------------------------------------
    def _relevant(self):
        r = self.rule
        base = set()
        for f in self.p.funcs.values():
            for i, n in enumerate(f.nodes):
                if n["k"] == "mem" and (n.get("r"), n["f"]) in r.guards:
                    base.add(f.id)
                    break
                if n["k"] == "ref" and n["d"] == "g" and n["n"] in r.guard_globals:
                    base.add(f.id)
                    break
                if r.is_event(f, i, n):
                    base.add(f.id)
                    break
        if r.any_int:
            # helpers that only calculate
            for f in self.p.funcs.values():
                if f.nodes and len(f.nodes) < 120 and "*" not in f.ret and f.ret != "void" and \
                        not any(n["k"] in ("call", "asg", "un") and (n["k"] != "un" or n["o"] in ("*", "&")) and
                                (n["k"] != "asg" or f.nodes[n["l"]]["k"] != "ref") for n in f.nodes) and \
                        all("*" not in f.vars[v][1] for v in f.params):
                    base.add(f.id)
        self.base = base
        return self.ix.reach_up(base, fp=r.follow_fp)

    def _touch(self):
        """guard cells a function or anything it calls mentions; the others
        are framed around a call"""
        r = self.rule
        self.allg = frozenset(r.guards) | frozenset(("", g) for g in r.guard_globals)
        own = {}
        out = {}
        for t in self.relevant:
            f = self.p.funcs.get(t)
            if f is None:
                continue
            s = set()
            o = set()
            for i, n in enumerate(f.nodes):
                if n["k"] == "mem" and (n.get("r"), n["f"]) in r.guards:
                    s.add((n["r"], n["f"]))
                elif n["k"] == "ref" and n["d"] == "g" and n["n"] in r.guard_globals:
                    s.add(("", n["n"]))
                elif n["k"] == "ref" and n["d"] == "f":
                    o.add(n["id"])
                elif n["k"] == "call":
                    o.update(self.ix.targets(f, n))
            own[t] = s
            out[t] = {x for x in o if x in self.relevant}
        ch = True
        while ch:
            ch = False
            for t in own:
                s = own[t]
                k = len(s)
                for x in out[t]:
                    s |= own.get(x, set())
                if len(s) != k:
                    ch = True
        self.gtouch = {t: frozenset(s) for t, s in own.items()}

    def curfn(self):
        return self.cur[0]

    def path_lines(self):
        try:
            fn, blk, st, pred = self.cur
        except TypeError:
            return []
        out = []
        key = (blk, st)
        n = 0
        while key is not None and n < 400:
            b = fn.blocks[key[0]]
            if b.tline:
                out.append(b.tline)
            key = pred.get(key)
            n += 1
        out.reverse()
        return out[-40:]

    # -- cells -----------------------------------------------------------
    def cell(self, fn, i, env):
        n = fn.nodes[i]
        k = n["k"]
        if k == "ref":
            if n["d"] in ("l", "p"):
                return ("v", n["v"])
            if n["d"] == "g" and n["n"] in self.rule.guard_globals:
                return ("g", "", n["n"])
            return None
        if k == "mem":
            rec = n.get("r")
            if rec == "derr_t":
                if n["f"] == "type":
                    return self.deref(fn, n["b"], env) if n["ar"] else self.cell(fn, n["b"], env)
                return None
            if self.rule.guard_cell is not None:
                c = self.rule.guard_cell(fn, n)
                if c is not None:
                    return ("g",) + c
            if (rec, n["f"]) in self.rule.guards:
                return ("g", rec, n["f"])
            b = self.deref(fn, n["b"], env) if n["ar"] else self.cell(fn, n["b"], env)
            if b is None or b[0] == "g" or len(b) > 5:
                return None
            if b[0] == "d":
                return None
            return b + (n["f"],)
        if k == "un" and n["o"] == "*":
            return self.deref(fn, n["s"], env)
        if k == "idx":
            # p[0] where p == &x
            if fn.nodes[n["i"]].get("cv") == 0:
                return self.deref(fn, n["b"], env) if "*" in fn.nodes[n["b"]].get("T", "") else None
            return None
        if k == "cast":
            return self.cell(fn, n["s"], env)
        return None

    def deref(self, fn, i, env):
        """cell designated by pointer expression i"""
        n = fn.nodes[i]
        if n["k"] == "un" and n["o"] == "&":
            return self.cell(fn, n["s"], env)
        if n["k"] == "cast":
            return self.deref(fn, n["s"], env)
        if n["k"] == "ref" and n["d"] in ("l", "p"):
            v = env.get(("v", n["v"]))
            if isinstance(v, tuple) and v[0] == "&":
                return v[1]
            return ("d", n["v"])
        v = self.ev(fn, i, env)
        if isinstance(v, tuple) and v[0] == "&":
            return v[1]
        return None

    # -- expression evaluation --------------------------------------------
    def ev(self, fn, i, env):
        if i < 0:
            return None
        n = fn.nodes[i]
        if "cv" in n:
            return n["cv"]
        k = n["k"]
        if ("known", i) in env:
            return env[("known", i)]
        if k == "call":
            return env.get(("t", i))
        if k == "ref":
            if n["d"] == "f":
                return ("F", n["id"])
            if n["d"] == "g":
                if n["n"].startswith("E_") and "derr_type" in n.get("T", ""):
                    return 0 if n["n"] == "E_NONE" else ("S", n["n"])
                c = self.cell(fn, i, env)
                return env.get(c) if c else None
            c = ("v", n["v"])
            v = env.get(c)
            if v is None and "*" in n.get("T", ""):
                t = n["T"]
                if is_derr_ptr(t) or t in ("bool *", "_Bool *", "int *", "unsigned int *") or t in self.rule.ptr_types:
                    if n["d"] != "p":
                        return None
                    if is_derr_ptr(t) or t in self.rule.ptr_types:
                        return ("&", ("d", n["v"]))
                    return ("&", ("d", n["v"]), "?")
            return v
        if k in ("mem", "idx"):
            c = self.cell(fn, i, env)
            return env.get(c) if c else None
        if k == "un":
            o = n["o"]
            if o == "*":
                c = self.cell(fn, i, env)
                return env.get(c) if c else None
            if o == "&":
                c = self.cell(fn, n["s"], env)
                return ("&", c) if c and (c[0] != "g" or self.rule.addr_guards) else NZ
            v = self.ev(fn, n["s"], env)
            if o == "!":
                t = truth(v)
                return None if t is None else int(not t)
            if isinstance(v, int):
                if o == "-":
                    return -v
                if o == "+":
                    return v
                if o == "~":
                    return ~v
            return None
        if k == "bin":
            o = n["o"]
            a = self.ev(fn, n["l"], env)
            b = self.ev(fn, n["r"], env)
            if o == ",":
                return b
            if o == "&&":
                ta, tb = truth(a), truth(b)
                if ta is False or tb is False:
                    return 0
                if ta and tb:
                    return 1
                return None
            if o == "||":
                ta, tb = truth(a), truth(b)
                if ta or tb:
                    return 1
                if ta is False and tb is False:
                    return 0
                return None
            if o in ("==", "!="):
                r = self.eq(a, b)
                if r is None:
                    return None
                return int(r if o == "==" else not r)
            if isinstance(a, int) and isinstance(b, int):
                try:
                    return {"<": lambda: int(a < b), ">": lambda: int(a > b),
                            "<=": lambda: int(a <= b), ">=": lambda: int(a >= b),
                            "+": lambda: a + b, "-": lambda: a - b, "&": lambda: a & b,
                            "|": lambda: a | b, "^": lambda: a ^ b}[o]()
                except KeyError:
                    return None
            if o == "&" and (a == 0 or b == 0):
                return 0
            if o == "|" and ((truth(a) and a is not None) or (truth(b) and b is not None)):
                return NZ
            return None
        if k == "asg":
            c = self.cell(fn, n["l"], env)
            return env.get(c) if c else (self.ev(fn, n["r"], env) if n["o"] == "=" else None)
        if k == "cond":
            t = truth(self.ev(fn, n["c"], env))
            if t is True:
                return self.ev(fn, n["t"], env)
            if t is False:
                return self.ev(fn, n["e"], env)
            a = self.ev(fn, n["t"], env)
            b = self.ev(fn, n["e"], env)
            return a if a == b else (NZ if truth(a) and truth(b) else None)
        if k in ("cast", "stmtexpr"):
            return self.ev(fn, n["s"], env)
        if k == "cl":
            return self.ev(fn, n["s"], env)
        if k == "init":
            if n.get("r") == "derr_t":
                for fld, c in n["i"]:
                    if fld == "type":
                        return self.ev(fn, c, env)
                return 0
            if not n.get("r") and len(n["i"]) == 1 and n["i"][0][0] == 0:
                return None
            return None
        if k == "str":
            return NZ
        return None

    @staticmethod
    def eq(a, b):
        if a is None or b is None:
            return None
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0]:
            if a[0] == "S":
                return a == b
            return a == b or None
        if a == 0 or b == 0:
            return False
        return None

    # -- refinement ---------------------------------------------------------
    def refine(self, fn, i, t, env):
        """env with condition i known to be t; None if infeasible"""
        n = fn.nodes[i]
        v = truth(self.ev(fn, i, env))
        if v is not None:
            if v != t:
                return None
            if n["k"] != "bin":
                return env
        k = n["k"]
        if k == "un" and n["o"] == "!":
            return self.refine(fn, n["s"], not t, env)
        if k in ("cast", "stmtexpr"):
            return self.refine(fn, n["s"], t, env)
        if k == "asg":
            if n["o"] == "=":
                return self.refine(fn, n["l"], t, env)
            return env
        if k == "bin":
            o = n["o"]
            if o == ",":
                return self.refine(fn, n["r"], t, env)
            if (o == "&&" and t) or (o == "||" and not t):
                e = self.refine(fn, n["l"], t, env)
                return None if e is None else self.refine(fn, n["r"], t, e)
            if o in ("&&", "||"):
                # one side known not to decide: the other does
                want = o == "||"
                a = truth(self.ev(fn, n["l"], env))
                b = truth(self.ev(fn, n["r"], env))
                if a is not None and a != want:
                    return self.refine(fn, n["r"], t, env)
                if b is not None and b != want:
                    return self.refine(fn, n["l"], t, env)
                return env
            if o in ("==", "!="):
                same = t if o == "==" else not t
                a = self.ev(fn, n["l"], env)
                b = self.ev(fn, n["r"], env)
                for x, y, yv, xv in ((n["l"], n["r"], b, a), (n["r"], n["l"], a, b)):
                    if yv is None or yv == NZ:
                        continue
                    if isinstance(yv, tuple) and yv[0] not in ("S", "F"):
                        continue
                    if same:
                        if xv is None or xv == NZ:
                            return self.setx(fn, x, yv, env)
                    else:
                        if yv == 0 and xv is None:
                            return self.refine(fn, x, True, env)
                return env
            if o in (">", "<") and t:
                a = self.ev(fn, n["l"], env)
                b = self.ev(fn, n["r"], env)
                if o == ">" and b == 0 and a is None:
                    return self.setx(fn, n["l"], NZ, env)
                if o == "<" and a == 0 and b is None:
                    return self.setx(fn, n["r"], NZ, env)
            return env
        return self.setx(fn, i, NZ if t else 0, env)

    def setx(self, fn, i, v, env):
        n = fn.nodes[i]
        if n["k"] == "cast":
            return self.setx(fn, n["s"], v, env)
        if n["k"] == "asg":
            return self.setx(fn, n["l"], v, env)
        if n["k"] == "call":
            e = dict(env)
            e[("t", i)] = v
            return e
        c = self.cell(fn, i, env)
        if c is None:
            return env
        if c[0] == "v" and self.rule.track is not None and not self.rule.track(fn, c, v):
            return env
        e = dict(env)
        e[c] = v
        return e

    def put(self, env, c, v):
        if c is None:
            return
        if c[0] == "v" and self.rule.track is not None and v is not None:
            if not self.rule.track(self.curfn(), c, v):
                v = None
        l = len(c)
        if c[0] in ("v", "d"):
            for x in [x for x in env if x[:l] == c and x != c]:
                del env[x]
        if v is None:
            env.pop(c, None)
        else:
            env[c] = v

    # -- error API (libdstr/logger.h) ------------------------------------
    def errapi(self, fn, i, n, q, args, env):
        """outcomes [(ret, q, env)] for the error-handling primitives"""
        name = n.get("fn")

        def cellof(v):
            return v[1] if isinstance(v, tuple) and v[0] == "&" else None

        def getv(v):
            c = cellof(v)
            return env.get(c) if c else None

        def setv(v, val, e):
            c = cellof(v)
            if c:
                self.put(e, c, val)

        if name in ("pvt_prop", "pvt_prop_var"):
            code = args[1] if name == "pvt_prop" else getv(args[1])
            outs = []
            t = truth(code)
            same = name == "pvt_prop_var" and cellof(args[0]) is not None and cellof(args[0]) == cellof(args[1])
            if t is not True:
                e = dict(env)
                if name == "pvt_prop_var":
                    setv(args[1], 0, e)
                outs.append((0, q, e))
            if t is not False:
                e = dict(env)
                if name == "pvt_prop_var" and not same:
                    setv(args[1], 0, e)
                setv(args[0], code if isinstance(code, tuple) and code[0] == "S" else NZ, e)
                outs.append((1, q, e))
            return outs
        if name in ("pvt_check", "is_error"):
            v = getv(args[0]) if name == "pvt_check" else args[0]
            t = truth(v)
            if t is not None:
                return [(int(t), q, env)]
            if name == "pvt_check":
                c = cellof(args[0])
                if c:
                    a = dict(env)
                    a[c] = 0
                    b = dict(env)
                    b[c] = NZ
                    return [(0, q, a), (1, q, b)]
                return [(None, q, env)]
            # is_error(x): refine the cell read
            c = self.cell(fn, n["a"][0], env)
            if c:
                a = dict(env)
                a[c] = 0
                b = dict(env)
                b[c] = NZ
                return [(0, q, a), (1, q, b)]
            return [(None, q, env)]
        if name == "pvt_orig":
            e = dict(env)
            setv(args[0], args[1] if isinstance(args[1], tuple) else NZ, e)
            return [(None, q, e)]
        if name == "pvt_rethrow":
            e = dict(env)
            if cellof(args[0]) != cellof(args[1]):
                setv(args[1], 0, e)
            setv(args[0], args[2] if isinstance(args[2], tuple) else NZ, e)
            return [(None, q, e)]
        if name in ("pvt_merge_cmd", "pvt_merge_var"):
            code = args[1] if name == "pvt_merge_cmd" else getv(args[1])
            old = getv(args[0])
            e = dict(env)
            if truth(old) is not True:
                if truth(code) is True:
                    setv(args[0], code, e)
                elif code is None or old is None:
                    setv(args[0], None, e)
            if name == "pvt_merge_var":
                setv(args[1], 0, e)
            return [(None, q, e)]
        if name == "pvt_multiprop_var":
            cells = []
            arr = fn.nodes[n["a"][4]]
            while arr["k"] in ("cast", "cl"):
                arr = fn.nodes[arr["s"]]
            vals = []
            if isinstance(args[4], tuple) and args[4][0] == "&" and arr["k"] != "init":
                vals.append(env.get(args[4][1]))
            if arr["k"] == "init":
                for _, c in arr["i"]:
                    v = self.ev(fn, c, env)
                    vals.append(v)
            ts = [truth(getv(args[0]))] + [truth(getv(v)) for v in vals]
            base = dict(env)
            for v in vals:
                setv(v, 0, base)
            outs = []
            if any(t is True for t in ts):
                setv(args[0], NZ, base)
                return [(1, q, base)]
            if any(t is None for t in ts):
                e = dict(base)
                setv(args[0], NZ, e)
                outs.append((1, q, e))
            setv(args[0], 0, base)
            outs.append((0, q, base))
            return outs
        if name == "trace_catch":
            return [(1, q, env)]
        if name == "DROP_VAR":
            e = dict(env)
            setv(args[0], 0, e)
            return [(None, q, e)]
        if name in ("DROP_CMD", "DUMP", "DUMP_DEBUG", "pvt_trace_quiet", "pvt_do_log"):
            return [(0 if name in ("pvt_trace_quiet", "pvt_do_log") else None, q, env)]
        return None

    # -- calls -----------------------------------------------------------
    def call(self, fn, i, n, q, env):
        """outcomes [(ret, q', env')]"""
        args = [self.ev(fn, a, env) for a in n["a"]]
        r = self.rule.on_call(self, fn, i, n, q, args, env)
        if r is not None:
            outs = []
            for o in r:
                e2 = env
                if len(o) == 3:
                    e2 = o[2]
                else:
                    e2 = self.havoc(fn, n, args, env)
                outs.append((o[0], o[1], e2))
            return outs
        r = self.errapi(fn, i, n, q, args, env)
        if r is not None:
            return r
        if n.get("fn", "").endswith("_container_of") and len(args) >= 1:
            # NULL exactly when its argument is
            v = args[0]
            if v is not None or self.rule.track is not None:
                return [(NZ if isinstance(v, tuple) else v, q, env)]
            outs = []
            for t, rv in ((False, 0), (True, NZ)):
                e = self.refine(fn, n["a"][0], t, env)
                if e is not None:
                    outs.append((rv, q, e))
            return outs
        tg = [n["f"]] if "f" in n else (self.ix.targets(fn, n) if self.rule.follow_fp else [])
        # a function pointer whose value is known
        if not tg and "fe" in n:
            v = self.ev(fn, n["fe"], env)
            if isinstance(v, tuple) and v[0] == "F":
                tg = [v[1]]
        known = [t for t in tg if t in self.p.funcs and t in self.relevant]
        outs = []
        if known:
            for t in known:
                outs += self.enter(fn, i, n, t, q, args, env)
            if len(known) < len(tg):
                outs += self.opaque(fn, i, n, q, args, env)
        else:
            outs = self.opaque(fn, i, n, q, args, env)
        res = []
        for ret, q2, e2 in outs:
            q3 = self.rule.after_call(self, fn, i, n, q2, args, ret, e2)
            if q3 is not KILL:
                res.append((ret, q3, e2))
        return res

    def havoc(self, fn, n, args, env):
        e = dict(env)
        for a in args:
            if isinstance(a, tuple) and a[0] == "&" and a[1][0] in ("v", "d", "g"):
                c = a[1]
                if e.get(c) is not None or any(x[:len(c)] == c for x in e):
                    self.put(e, c, None)
        return e

    def opaque(self, fn, i, n, q, args, env):
        """effect of a callee the rule has no interest in"""
        envs = [dict(env)]
        ptypes = None
        if "f" in n:
            x = self.p.externs.get(n["f"])
            ptypes = x[1] if x else None
        for ai, a in enumerate(args):
            if isinstance(a, tuple) and a[0] == "&" and a[1][0] in ("v", "d", "g"):
                c = a[1]
                pt = ptypes[ai] if ptypes and ai < len(ptypes) else fn.nodes[n["a"][ai]].get("T", "")
                if is_derr_ptr(pt):
                    nxt = []
                    for e in envs:
                        v = e.get(c)
                        if truth(v) is True:
                            nxt.append(e)
                        else:
                            b = dict(e)
                            b[c] = NZ
                            nxt += [e, b]
                    envs = nxt
                elif pt.startswith("const "):
                    pass
                else:
                    for e in envs:
                        self.put(e, c, None)
        rt = n.get("T", "")
        outs = []
        for e in envs:
            if is_derr(rt):
                outs += [(0, q, e), (NZ, q, e)]
            else:
                outs.append((None, q, e))
        return outs

    def enter(self, fn, i, n, t, q, args, env):
        g = self.p.funcs[t]
        bind = []
        back = {}
        for pi, pv in enumerate(g.params):
            if pi >= len(args):
                break
            a = args[pi]
            if isinstance(a, tuple) and a[0] == "&":
                c = a[1]
                back[pv] = c
                pt = g.vars[pv][1]
                v = env.get(c)
                if v is not None and not (isinstance(v, tuple) and v[0] == "&"):
                    bind.append((("d", pv), v))
                # fields of a local struct passed by address are not followed
                if self.rule.bind_ptr and not is_derr_ptr(pt) and pt not in self.rule.ptr_types and \
                        pt not in ("bool *", "_Bool *", "int *", "unsigned int *"):
                    bind.append((("v", pv), NZ))
            elif isinstance(a, int) and (g.vars[pv][1] in BOOLISH or -64 <= a <= 64 or self.rule.any_int):
                bind.append((("v", pv), a))
            elif a == NZ or (isinstance(a, tuple) and a[0] in ("S", "F", "T")):
                bind.append((("v", pv), a))
        touch = self.gtouch.get(t, self.allg) if self.rule.frame else self.allg
        for a in args:
            if isinstance(a, tuple) and a[0] == "F":
                touch = touch | self.gtouch.get(a[1], self.allg)
        for c, v in env.items():
            if c[0] == "g" and c[1:] in touch:
                bind.append((c, v))
        key = (t, q, frozenset(bind))
        outs = []
        for ret, q2, gv, dv in self.summary(key):
            e = {c: v for c, v in env.items() if c[0] != "g" or c[1:] not in touch}
            for c, v in gv:
                e[c] = v
            dv = dict(dv)
            for pv, c in back.items():
                self.put(e, c, dv.get(pv))
            outs.append((ret, q2, e))
        return outs

    def summary(self, key):
        if key in self.done:
            return self.summ.get(key, ())
        if key in self.inprog:
            self.rec_hit = True
            return self.summ.get(key, ())
        self.inprog.add(key)
        save = self.cur
        try:
            res = self.run_fn(key)
        finally:
            self.inprog.discard(key)
            self.cur = save
        old = self.summ.get(key, frozenset())
        new = old | res
        if new != old:
            self.changed = True
        self.summ[key] = new
        self.done.add(key)
        return new

    # -- one function ------------------------------------------------------
    def run_fn(self, key):
        t, q, bind = key
        fn = self.p.funcs[t]
        self.fns.add(t)
        self.stack.append("%s:%s" % (fn.file, fn.name))
        if len(self.stack) > 150:
            raise Broken("call depth while analysing %s" % fn.id)
        live = self.temps_live(fn)
        vlive = self.vars_live(fn)
        outs = set()
        q = self.rule.on_enter(fn, q)
        start = (fn.entry, (q, frozenset(bind)))
        seen = {start}
        pred = {start: None}
        work = [start]
        while work:
            blk, st = work.pop()
            self.steps += 1
            b = fn.blocks[blk]
            self.cur = (fn, blk, st, pred)
            if blk == fn.exit:
                q, envf = st
                env = dict(envf)
                ret = env.get(("ret",))
                if len(self.stack) == 1:
                    self.rule.on_exit(self, fn, q, ret, env)
                q = self.rule.on_leave(fn, q, ret)
                if isinstance(ret, tuple) and ret[0] == "&":
                    ret = NZ
                if isinstance(ret, tuple) and ret[0] == "S" and not self.rule.keep_err_types:
                    ret = NZ
                gv = frozenset((c, v) for c, v in env.items() if c[0] == "g")
                dv = frozenset((c[1], NZ if isinstance(v, tuple) else v) for c, v in env.items()
                               if c[0] == "d" and len(c) == 2 and c[1] in fn.params)
                outs.add((ret, q, gv, dv))
                continue
            states = [(st[0], dict(st[1]))]
            for ei in b.elems:
                nxt = []
                for q, env in states:
                    nxt += self.elem(fn, ei, q, env)
                # merge equal
                if len(nxt) > 1:
                    u = {}
                    for q, env in nxt:
                        u[(q, frozenset(env.items()))] = (q, env)
                    nxt = list(u.values())
                states = nxt
                if not states:
                    break
            if b.noret:
                continue
            for q, env in states:
                self.q = q
                for succ, env2 in self.branch(fn, b, env):
                    lv = live.get(succ)
                    vl = vlive[succ]
                    e3 = frozenset(
                        (c, v) for c, v in env2.items()
                        if (c[0] == "v" and c[1] in vl) or (c[0] == "t" and lv and c[1] in lv)
                        or c[0] not in ("v", "t"))
                    s = (succ, (q, e3))
                    if s not in seen:
                        seen.add(s)
                        pred[s] = (blk, st)
                        work.append(s)
                        if len(seen) > self.rule.max_states:
                            raise Broken("state budget exceeded in %s" % fn.id)
        self.stack.pop()
        return frozenset(outs)

    def vars_live(self, fn):
        """block -> local variables whose value may still be read at or after
        its start (address-taken variables are live everywhere)"""
        vk = ("vl", type(self.rule).__name__)
        c = fn._cache.get(vk)
        if c is not None:
            return c
        addr = set()
        use = {}
        kill = {}
        for b in fn.blocks.values():
            u, k = set(), set()
            seq = list(b.elems)
            if b.cond is not None:
                seq.append(b.cond)
            for x in seq:
                n = fn.nodes[x]
                if n["k"] == "decls":
                    for v, init in n["d"]:
                        if init >= 0:
                            self._uses(fn, init, u, k, addr)
                        k.add(v)
                    continue
                if n["k"] == "asg" and n["o"] == "=":
                    l = fn.nodes[n["l"]]
                    self._uses(fn, n["r"], u, k, addr)
                    if l["k"] == "ref" and l["d"] in ("l", "p"):
                        k.add(l["v"])
                    else:
                        self._uses(fn, n["l"], u, k, addr)
                    continue
                if n["k"] == "ref":
                    p = fn.parent[x]
                    if p >= 0 and fn.nodes[p]["k"] == "asg" and fn.nodes[p]["l"] == x and fn.nodes[p]["o"] == "=":
                        continue
                self._uses(fn, x, u, k, addr)
            use[b.id] = u
            kill[b.id] = k
        live = {b: set(u) for b, u in use.items()}
        ch = True
        while ch:
            ch = False
            for b in fn.blocks.values():
                s = set(use[b.id])
                for x in b.succs:
                    if x >= 0:
                        s |= live[x] - kill[b.id]
                if s - live[b.id]:
                    live[b.id] |= s
                    ch = True
        keep = addr | {v for v in range(len(fn.vars)) if self.rule.keep_var(fn, v)}
        live = {b: frozenset(s | keep) for b, s in live.items()}
        fn._cache[vk] = live
        return live

    def _uses(self, fn, x, u, k, addr):
        from model import children
        stack = [x]
        while stack:
            y = stack.pop()
            if y < 0:
                continue
            n = fn.nodes[y]
            if n["k"] == "ref" and n["d"] in ("l", "p"):
                if n["v"] not in k:
                    u.add(n["v"])
            if n["k"] == "un" and n["o"] == "&":
                z = fn.nodes[n["s"]]
                while z["k"] in ("mem", "idx", "cast"):
                    z = fn.nodes[z["b"] if z["k"] != "cast" else z["s"]]
                if z["k"] == "ref" and z["d"] in ("l", "p") and "*" not in fn.vars[z["v"]][1]:
                    addr.add(z["v"])
            stack += children(n)

    def temps_live(self, fn):
        """block -> call nodes whose result may still be read in or after it"""
        c = fn._cache.get("tl")
        if c is not None:
            return c
        use = {}
        for b in fn.blocks.values():
            s = set()
            stack = list(b.elems)
            if b.cond is not None:
                stack.append(b.cond)
            own = set()
            from model import children
            seen = set()
            while stack:
                x = stack.pop()
                if x in seen or x < 0:
                    continue
                seen.add(x)
                n = fn.nodes[x]
                if n["k"] == "call" and x not in b.elems:
                    s.add(x)
                stack += children(n)
            use[b.id] = s
        live = {b: set(u) for b, u in use.items()}
        defs = {b.id: {x for x in b.elems if fn.nodes[x]["k"] == "call"} for b in fn.blocks.values()}
        ch = True
        while ch:
            ch = False
            for b in fn.blocks.values():
                s = set(use[b.id])
                for x in b.succs:
                    if x >= 0:
                        s |= live[x] - defs[b.id]
                if s - live[b.id]:
                    live[b.id] |= s
                    ch = True
        fn._cache["tl"] = live
        return live

    def branch(self, fn, b, env):
        succs = b.succs
        if len(succs) == 0:
            return
        if b.term == "switch" and b.cond is not None:
            v = self.ev(fn, b.cond, env)
            cases = [(s, fn.blocks[s]) for s in succs if s >= 0]
            vals = [(s, x.case) for s, x in cases if x.case is not None]
            if isinstance(v, int):
                hit = [s for s, c in vals if c == v or (fn.blocks[s].case2 is not None and c <= v <= fn.blocks[s].case2)]
                if hit:
                    yield hit[0], env
                else:
                    for s, x in cases:
                        if x.case is None:
                            yield s, env
                return
            for s, x in cases:
                if x.case is not None and x.case2 is None:
                    yield s, self.setx(fn, b.cond, x.case, env)
                else:
                    yield s, env
            return
        if len(succs) == 2 and b.cond is not None and b.term in ("if", "loop", "log", "cond"):
            for s, t in ((succs[0], True), (succs[1], False)):
                if s < 0:
                    continue
                e = self.refine(fn, b.cond, t, env)
                if e is not None:
                    yield s, e
            return
        for s in succs:
            if s >= 0:
                yield s, env

    def elem(self, fn, i, q, env):
        n = fn.nodes[i]
        k = n["k"]
        if k == "call":
            res = []
            for ret, q2, e2 in self.call(fn, i, n, q, env):
                e = dict(e2)
                if ret is None:
                    e.pop(("t", i), None)
                else:
                    e[("t", i)] = ret
                res.append((q2, e))
            return res
        if self.rule.fork_ret and k in ("asg", "decls"):
            x = self.forks(fn, n, env)
            if x is not None:
                out = []
                for t in (False, True):
                    r = self.refine(fn, x, t, env)
                    if r is not None:
                        r = dict(r)
                        r[("known", x)] = int(t)
                        for q2, e2 in self.elem(fn, i, q, r):
                            e2 = dict(e2)
                            e2.pop(("known", x), None)
                            out.append((q2, e2))
                return out
        if k == "asg":
            v = self.ev(fn, n["r"], env) if n["o"] == "=" else None
            c = self.cell(fn, n["l"], env)
            if n["o"] in ("|=",) and truth(self.ev(fn, n["r"], env)):
                v = NZ
            elif n["o"] == "|=" and c and truth(env.get(c)):
                v = NZ
            elif n["o"] == "&=" and c and (env.get(c) == 0 or self.ev(fn, n["r"], env) == 0):
                v = 0
            e = dict(env)
            q2 = self.rule.on_assign(self, fn, i, n["l"], v, q, e)
            if q2 is KILL:
                return []
            self.put(e, c, v)
            return [(q2, e)]
        if k == "un":   # ++/--, or a deref read
            if n["o"] in ("++", "--", "p++", "p--"):
                c = self.cell(fn, n["s"], env)
                q2 = self.rule.on_assign(self, fn, i, n["s"], None, q, env)
                if q2 is KILL:
                    return []
                e = dict(env)
                self.put(e, c, None)
                return [(q2, e)]
        if k == "decls":
            e = dict(env)
            for v, init in n["d"]:
                val = None
                if init >= 0:
                    val = self.ev(fn, init, e)
                self.put(e, ("v", v), val)
                if init >= 0:
                    x = fn.nodes[init]
                    while x["k"] in ("cl", "cast"):
                        x = fn.nodes[x["s"]]
                    if x["k"] == "init" and x.get("r") and x["r"] != "derr_t":
                        for fld, c in x["i"]:
                            if isinstance(fld, str):
                                fv = self.ev(fn, c, e)
                                if fv is not None and not isinstance(fv, tuple):
                                    e[("v", v, fld)] = fv
                q = self.rule.on_decl(self, fn, i, v, init, val, q, e)
            return [(q, e)]
        if k == "ret":
            e = dict(env)
            v = self.ev(fn, n["s"], env) if n["s"] >= 0 else None
            if v is None and self.rule.fork_ret and n["s"] >= 0 and fn.ret in BOOLISH:
                out = []
                for t in (False, True):
                    r = self.refine(fn, n["s"], t, env)
                    if r is not None:
                        r = dict(r)
                        r[("ret",)] = int(t)
                        out.append((self.rule.on_ret(self, fn, i, int(t), q, r), r))
                return out
            if v is None:
                e.pop(("ret",), None)
            else:
                e[("ret",)] = v
            return [(self.rule.on_ret(self, fn, i, v, q, e), e)]
        if k == "mem":
            q2 = self.rule.on_read(self, fn, i, n, q, env)
            if q2 is KILL:
                return []
            q = q2
            if (n.get("r"), n["f"]) in self.rule.guards and n.get("T") in BOOLISH:
                c = ("g", n["r"], n["f"])
                if c not in env:
                    par = fn.parent[i]
                    if par >= 0 and fn.nodes[par]["k"] == "asg" and fn.nodes[par]["l"] == i:
                        return [(q, env)]
                    a = dict(env)
                    a[c] = 0
                    b = dict(env)
                    b[c] = 1
                    return [(q, a), (q, b)]
            return [(q, env)]
        return [(q, env)]

    def forks(self, fn, n, env):
        """the unknown condition a boolean is about to be given, or None"""
        if n["k"] == "asg":
            x = n["r"] if n["o"] == "=" and n.get("T") in BOOLISH else None
        else:
            x = n["d"][0][1] if len(n["d"]) == 1 and n["d"][0][1] >= 0 and fn.vars[n["d"][0][0]][1] in BOOLISH else None
        if x is None:
            return None
        m = fn.nodes[x]
        while m["k"] == "cast":
            x = m["s"]
            m = fn.nodes[x]
        if m["k"] not in ("un", "bin", "mem", "ref") or ("known", x) in env or self.ev(fn, x, env) is not None:
            return None
        return x

    # -- driver ------------------------------------------------------------
    def run(self, roots):
        """roots: iterable of (fn id, q, bind)"""
        roots = list(roots)
        for it in range(30):
            if it:
                self.done = set()
            self.rec_hit = False
            self.changed = False
            self.stack = []
            for t, q, bind in roots:
                if t not in self.p.funcs:
                    raise Broken("no function " + t)
                self.cur = None
                # a root may already have been summarised as somebody's callee
                self.done.discard((t, q, frozenset(bind)))
                self.summary((t, q, frozenset(bind)))
            if not self.rec_hit or not self.changed:
                return
        raise Broken("summary fixpoint did not converge")

    def auto_roots(self, q):
        """relevant functions nobody calls directly, or whose address is taken"""
        r = []
        for t in sorted(self.relevant):
            if t not in self.p.funcs:
                continue
            cs = {c for c in self.ix.callers.get(t, ()) if c != t}
            if not cs or t in self.ix.addr_taken:
                r.append((t, q, ()))
        return r
