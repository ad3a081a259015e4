"""E05: a locally opened resource is released once or handed over."""
import re

import front
from sim import Rule, is_derr, is_derr_ptr, NZ, truth
from util import strip
from r_init import ERR_READ, ERR_PLAIN
from r_alloc import ASim, scope

FD = {"open": -1, "open64": -1, "socket": -1, "accept": -1, "mkstemp": -1, "openat": -1}
PTR = {"fopen", "fdopen", "popen", "opendir", "fdopendir", "mysql_stmt_init"}
OSSL = re.compile(r"^(BIO|EVP|X509|SSL|BN|EC|ECDSA|OPENSSL_sk|RSA|HMAC|ASN1|X509_REQ|d2i)\w*_(new|new_\w+|dup|get1_\w+|Q_keygen)$"
                  r"|^d2i_\w+$|^X509V3_EXT_conf_nid$|^PEM_read_\w+$|^PEM_read_bio_\w+$")
RELEASE = {"close", "fclose", "pclose", "closedir", "OPENSSL_sk_pop_free", "mysql_stmt_close"}
FREE = re.compile(r"^(BIO|EVP|X509|SSL|BN|EC|ECDSA|OPENSSL|RSA|HMAC|ASN1)\w*_free(_all)?$|^OPENSSL_sk_free$")
# ownership of the argument moves on success (1) or always (0)
TAKE = {"SSL_set0_rbio": (1, 0), "SSL_set0_wbio": (1, 0), "SSL_set_bio": (1, 0), "SSL_CTX_add0_chain_cert": (1, 1),
        "SSL_CTX_ctrl": (3, 1), "EVP_PKEY_assign": (2, 1), "OPENSSL_sk_push": (1, 1), "BIO_push": (1, 0), "ECDSA_SIG_set0": (1, 1),
        "RSA_set0_key": (1, 1), "SSL_CTX_set_cert_store": (1, 0), "uv_pipe_open": (1, 1), "uv_tcp_open": (1, 1),
        "uv_udp_open": (1, 1), "fdopen": (0, 1), "fdopendir": (0, 1), "dup2": (-1, 0)}
UVOK = {"uv_pipe_open", "uv_tcp_open", "uv_udp_open"}     # 0 on success, negative on failure
NOTUSE = {"__builtin_expect", "FP", "FI"}


def failval(prog, fn, n):
    """failure value if the call opens a resource, else None"""
    if "f" not in n or n["f"] in prog.funcs:
        return None
    name = n["fn"]
    if name in FD:
        return FD[name]
    if name in PTR:
        return 0
    if OSSL.match(name) and "*" in n.get("T", ""):
        if name.startswith(("PEM_read", "d2i_")):
            k = 0 if name.startswith("d2i_") else 1
            m = fn.nodes[strip(fn, n["a"][k])]
            if m.get("cv") != 0:
                return None     # reuses the caller's object
        return 0
    return None


NONE = None
GONE = ("X", frozenset())


class Own(Rule):
    """q: None (not opened yet), ("H", cells naming it), ("R", dangling cells),
    ("X", ...) owned elsewhere"""
    max_states = 60000

    def __init__(self, ix, W, only=None, param=None):
        super().__init__(ix)
        self.W = W
        self.only = only
        self.param = param
        self.exits = []
        self.now = frozenset()
        self.acq = set()
        self.rel = set()

    def track(self, fn, c, v):
        if len(c) > 2:
            return c in self.now
        T = fn.vars[c[1]][1]
        if T in ("bool", "_Bool", "int") or is_derr(T) or is_derr_ptr(T):
            return True
        return c in self.now

    def cells(self, q):
        return q[1] if q else frozenset()

    def settle(self, q, env):
        pass

    def ref(self, sim, fn, i, n, q, env):
        return q

    def deref(self, sim, fn, i, n, q, env):
        return q

    def cellof(self, sim, fn, i, env):
        i = strip(fn, i)
        n = fn.nodes[i]
        if n["k"] == "asg":
            i = strip(fn, n["l"])
            n = fn.nodes[i]
        if n["k"] == "call":
            if n.get("fn", "").startswith("ossl_check_"):
                return self.cellof(sim, fn, n["a"][0], env)
            return ("t", i)
        if n["k"] == "bin" and n["o"] == ",":
            return self.cellof(sim, fn, n["r"], env)
        if n["k"] == "cond":
            t = truth(sim.ev(fn, n["c"], env))
            if t is not None:
                return self.cellof(sim, fn, n["t"] if t else n["e"], env)
            return None
        if n["k"] not in ("ref", "mem", "un", "idx"):
            return None
        return sim.cell(fn, i, env)

    def names(self, fn, cells):
        for c in sorted(cells, key=str):
            if c[0] in ("v", "d"):
                return "'%s'" % ".".join(str(x) for x in (fn.vars[c[1]][0],) + c[2:])
        for c in cells:
            if c[0] == "t":
                return "the result of %s" % fn.nodes[c[1]].get("fn")
        return "the resource"

    def lost(self, sim, fn, i, cells, how):
        self.report(sim, fn, i, "%s %s without being released" % (self.names(fn, cells), how))

    # -- stores ---------------------------------------------------------------
    def store(self, sim, fn, i, lhs, rhs, q, env):
        """assignment lhs = rhs"""
        if q is None or q[0] == "X":
            return q
        st, cells = q
        c = sim.cell(fn, strip(fn, lhs), env)
        src = self.cellof(sim, fn, rhs, env) if rhs >= 0 else None
        gives = src is not None and src in cells
        if c is None:
            if gives and st == "H":
                return GONE
            return q
        l = len(c)
        rest = frozenset(x for x in cells if x[:l] != c)
        if gives:
            return (st, rest | {c} | (frozenset([src]) if src[0] != "t" else frozenset()))
        if st == "H" and not rest and cells:
            v = sim.ev(fn, rhs, env) if rhs >= 0 else None
            # overwriting the only name
            self.lost(sim, fn, i, cells, "is overwritten")
            return GONE
        return (st, rest)

    def on_assign(self, sim, fn, i, lhs, val, q, env):
        n = fn.nodes[i]
        if n["k"] != "asg" or q is None:
            return q
        r = strip(fn, n["r"])
        while fn.nodes[r]["k"] == "cl":
            r = strip(fn, fn.nodes[r]["s"])
        ini = fn.nodes[r]
        if ini["k"] == "init" and ini.get("r"):
            q = self.agg(sim, fn, sim.cell(fn, strip(fn, lhs), env), ini, q, env)
        else:
            # a struct holding the resource is copied as a whole
            src = self.cellof(sim, fn, n["r"], env)
            if src is not None and q[0] == "H" and any(len(x) > len(src) and x[:len(src)] == src for x in q[1]):
                q = GONE
            q = self.store(sim, fn, i, lhs, n["r"], q, env)
        self.now = q[1] if q else frozenset()
        return q

    def agg(self, sim, fn, c, ini, q, env):
        """the resource becomes a member of an aggregate"""
        if q is None or q[0] == "X":
            return q
        for x in self.inits(fn, ini):
            src = self.cellof(sim, fn, x[1], env)
            if src is not None and src in q[1]:
                if c is None or not isinstance(x[0], str) or len(c) > 4:
                    return GONE if q[0] == "H" else q
                q = (q[0], q[1] | {c + (x[0],)})
        return q

    def inits(self, fn, ini):
        for f, x in ini["i"]:
            if x < 0:
                continue
            m = fn.nodes[strip(fn, x)]
            if m["k"] == "init":
                for y in self.inits(fn, m):
                    yield (None, y[1])
            else:
                yield f, x

    def on_decl(self, sim, fn, i, v, init, val, q, env):
        if q is None or q[0] == "X" or init < 0:
            return q
        r = strip(fn, init)
        while fn.nodes[r]["k"] == "cl":
            r = strip(fn, fn.nodes[r]["s"])
        ini = fn.nodes[r]
        if ini["k"] == "init":
            q = self.agg(sim, fn, ("v", v), ini, q, env)
        else:
            src = self.cellof(sim, fn, init, env)
            if src is not None and src in q[1]:
                q = (q[0], (q[1] - {src} if src[0] == "t" else q[1]) | {("v", v)})
                if val is not None and not isinstance(val, tuple):
                    env[("v", v)] = val
        return q

    def on_ret(self, sim, fn, i, v, q, env):
        if q is None or q[0] != "H":
            return q
        n = fn.nodes[i]
        s = n.get("s", -1)
        if s is None or s < 0:
            return q
        c = self.cellof(sim, fn, s, env)
        if c is not None and c in q[1]:
            return ("H", q[1] | {("ret",)})
        if c is not None and any(x[:len(c)] == c for x in q[1]):
            return GONE
        m = fn.nodes[strip(fn, s)]
        while m["k"] == "cl":
            m = fn.nodes[strip(fn, m["s"])]
        if m["k"] == "init":
            return self.agg(sim, fn, None, m, q, env)
        return q

    # -- calls ---------------------------------------------------------------
    def on_call(self, sim, fn, i, n, q, args, env):
        name = n.get("fn", "")
        if name in ERR_READ or name in ERR_PLAIN or name.endswith("_container_of"):
            return None
        ex = "f" in n and n["f"] not in self.W.p.funcs
        if q is not None and q[0] != "X":
            out = self.given(sim, fn, i, n, q, args, env, ex)
            if out is not None:
                return out
        if i == self.only:
            return self.acquire(sim, fn, i, n, q, args, env)
        return None

    def acquire(self, sim, fn, i, n, q, args, env):
        self.acq.add(i)
        if q is not None and q[0] == "H":
            q = GONE            # an earlier round's object: judged at the overwrite
        fv = self.W.failval(fn, n)
        if fv is not None:
            ok = 3 if fv == -1 else NZ
            return [(ok, ("H", frozenset([("t", i)])), dict(env)), (fv, q, dict(env))]
        kind, where = self.W.prod[n["f"]]
        res = []
        for ret, _, e in sim.opaque(fn, i, n, q, args, env):
            e = dict(e)
            errs = [k for k, x in enumerate(args) if isinstance(x, tuple) and x[0] == "&"
                    and is_derr_ptr(fn.nodes[n["a"][k]].get("T", ""))]
            failed = ret == NZ and is_derr(n.get("T", "")) or any(truth(e.get(args[k][1])) is True for k in errs)
            if where == "ret":
                if not failed:
                    res.append((3 if kind == -1 else NZ, ("H", frozenset([("t", i)])), e))
                if failed or not errs:
                    res.append((-1 if kind == -1 else 0, q, e))
            else:
                c = self.target(sim, fn, n["a"][where], env)
                if failed or c is None:
                    res.append((ret, q, e))
                    continue
                res.append((ret, ("H", frozenset([c])), e))
                self.now = frozenset([c])
                if c[0] == "v" or c in self.now:
                    sim.put(e, c, 3 if kind == -1 else NZ)
                if not is_derr(n.get("T", "")) and not errs:
                    res.append((0, q, dict(e)))
        return res

    def target(self, sim, fn, a, env):
        """cell an out argument designates"""
        m = fn.nodes[strip(fn, a)]
        if m["k"] == "un" and m["o"] == "&":
            return sim.cell(fn, strip(fn, m["s"]), env)
        v = sim.ev(fn, a, env)
        if isinstance(v, tuple) and v[0] == "&":
            return v[1]
        if m["k"] == "ref" and m["d"] in ("l", "p"):
            return ("d", m["v"])
        return None

    def given(self, sim, fn, i, n, q, args, env, ex):
        st, cells = q
        name = n.get("fn", "")
        for ai, a in enumerate(n["a"]):
            m = fn.nodes[strip(fn, a)]
            byref = None
            c = None
            if m["k"] == "un" and m["o"] == "&":
                byref = sim.cell(fn, strip(fn, m["s"]), env)
                y = fn.nodes[strip(fn, m["s"])]
                if st == "H" and y["k"] == "mem" and y["ar"] and re.match(r"link_list_|hashmap_|jsw_ainsert", name) \
                        and self.cellof(sim, fn, y["b"], env) in cells:
                    # a container takes the object over
                    return [(r, GONE, e) for r, _, e in sim.opaque(fn, i, n, q, args, env)]
            elif m["k"] in ("cl", "init"):
                q2 = self.agg(sim, fn, None, m if m["k"] == "init" else fn.nodes[strip(fn, m["s"])], q, env) \
                    if (m["k"] == "init" or fn.nodes[strip(fn, m["s"])]["k"] == "init") else q
                if q2 is not q and q2 == GONE:
                    return [(r, GONE, e) for r, _, e in sim.opaque(fn, i, n, q, args, env)]
                continue
            else:
                c = self.cellof(sim, fn, a, env)
                v = args[ai]
                if c not in cells and isinstance(v, tuple) and v[0] == "&" and v[1] in cells:
                    byref = v[1]
            if c is not None and c in cells:
                return self.passed(sim, fn, i, n, ai, c, q, args, env, ex)
            if byref is not None:
                if byref in cells:
                    return self.passed(sim, fn, i, n, ai, byref, q, args, env, ex, True)
                if any(x[:len(byref)] == byref for x in cells) and st == "H":
                    # an object that owns it is handed to a callee
                    return [(r, GONE, e) for r, _, e in sim.opaque(fn, i, n, q, args, env)]
            if c is not None and st == "H" and c[0] in ("v", "d"):
                # the object that owns it is passed on (or freed)
                d = ("d", c[1])
                if len(c) == 2 and c[0] == "v" and any(x[:2] == d and len(x) > 2 for x in cells):
                    own = [x for x in cells if x[:2] == d and len(x) > 2]
                    if name == "free" and len(own) == len(cells):
                        self.lost(sim, fn, i, cells, "is lost with the object that holds it")
                        return [(None, GONE, dict(env))]
                    return [(r, GONE, e) for r, _, e in sim.opaque(fn, i, n, q, args, env)]
                if any(len(x) > len(c) and x[:len(c)] == c for x in cells):
                    return [(r, GONE, e) for r, _, e in sim.opaque(fn, i, n, q, args, env)]
        return None

    def passed(self, sim, fn, i, n, ai, c, q, args, env, ex, byref=False):
        st, cells = q
        name = n.get("fn", "")
        outs = sim.opaque(fn, i, n, q, args, env)
        if name in NOTUSE or name.startswith("ossl_check_"):
            return [(r, q, e) for r, _, e in outs]
        if st == "R":
            if byref:
                return [(r, ("R", cells - {c}), e) for r, _, e in outs]
            self.report(sim, fn, i, "%s is passed to %s after it was released" % (self.names(fn, cells), name))
            return [(r, GONE, e) for r, _, e in outs]
        if ex:
            if name in RELEASE and ai == 0 or FREE.match(name) and ai == 0:
                self.rel.add(i)
                return [(r, ("R", cells), e) for r, _, e in outs]
            if name == "free" and not byref:
                return [(r, ("R", cells), e) for r, _, e in outs]
            if name in TAKE and TAKE[name][0] == ai:
                if not TAKE[name][1]:
                    return [(r, GONE, e) for r, _, e in outs]
                good = 0 if name in UVOK else 1
                bad = -1 if name in UVOK else 0
                return [(good, GONE, dict(env)), (bad, q, dict(env))]
            return [(r, q, e if c not in cells or byref is False else self.keep(e, env, c)) for r, _, e in outs]
        if "f" not in n:
            # callbacks borrow
            return [(r, q, self.keep(e, env, c)) for r, _, e in outs]
        s = self.W.effect(n, ai, byref)
        if s is None:
            return [(r, GONE, e) for r, _, e in outs]
        res = []
        for ret, _, e in outs:
            for rc, stat, zero in s:
                if rc is not None and truth(ret) is not None and truth(ret) != rc:
                    continue
                r2 = ret
                if ret is None and rc is not None:
                    r2 = NZ if rc else 0
                e2 = self.keep(e, env, c)
                if stat == "H":
                    q2 = q
                elif stat == "R":
                    self.rel.add(i)
                    q2 = ("R", cells)
                    if zero:
                        q2 = ("R", cells - {c})
                        e2[c] = 0
                else:
                    q2 = GONE
                res.append((r2, q2, e2))
        return res

    def keep(self, e, env, c):
        e = dict(e)
        if c in env and c not in e:
            e[c] = env[c]
        return e

    def on_exit(self, sim, fn, q, ret, env):
        if self.param is not None:
            self.exits.append((ret, q, env.get(self.param)))
            return
        if q is None or q[0] != "H":
            return
        st, cells = q
        if ("ret",) in cells:
            self.exits.append((ret, "ret", None))
            return
        out = [c for c in cells if c[0] == "d"]
        if out:
            for c in out:
                if len(c) == 2 and fn.vars[c[1]][2] == "p":
                    self.exits.append((ret, "out", fn.params.index(c[1])))
            return
        self.lost(sim, fn, -1, cells, "reaches the end of the function")


class World:
    rule = Own

    def __init__(self, prog, ix):
        self.p = prog
        self.ix = ix
        self.prod = {}      # function -> (fail value, "ret" | out parameter index)
        for f in prog.funcs.values():
            # key pairs are reference counted objects of their own
            if f.file == "libcrypto/crypto.c" and is_derr(f.ret):
                for k, v in enumerate(f.params):
                    if f.vars[v][1] == "keypair_t **":
                        self.prod[f.id] = (0, k)
        self.memo = {}
        self.busy = 0

    def failval(self, fn, n):
        return failval(self.p, fn, n)

    def opens(self, fn, n):
        return self.failval(fn, n) is not None or n.get("f") in self.prod

    def effect(self, n, ai, byref):
        """{(outcome class, status, location zeroed)} for a resource passed in"""
        f = self.p.funcs[n["f"]]
        if ai >= len(f.params):
            return {(None, "H", False)}
        key = (f.id, ai, byref)
        if key in self.memo:
            return self.memo[key]
        if self.busy > 25:
            return {(None, "H", False)}
        self.memo[key] = {(None, "H", False)}
        self.busy += 1
        try:
            v = f.params[ai]
            cell = ("d", v) if byref else ("v", v)
            r = self.rule(self.ix, self, param=cell)
            r.now = frozenset([cell])
            try:
                ASim(r).run([(f.id, ("H", frozenset([cell])), ((cell, 3 if f.vars[v][1].replace(" ", "") in ("int", "int*") else NZ),))])
            except front.Broken:
                self.memo[key] = None
                return None
        finally:
            self.busy -= 1
        res = set()
        for ret, q, val in r.exits:
            rc = truth(ret) if is_derr(f.ret) or f.ret in ("bool", "_Bool", "int") else None
            if q is None or q[0] == "X":
                res.add((rc, "X", False))
            elif q[0] == "R":
                res.add((rc, "R", byref and cell not in q[1]))
            elif any(x[0] == "d" and x != cell or x[0] == "ret" for x in q[1]) or (byref and cell not in q[1]):
                res.add((rc, "X", False))
            else:
                res.add((rc, "H", False))
        self.memo[key] = res or {(None, "H", False)}
        return self.memo[key]


def sites_in(f, W):
    return [i for i, n in enumerate(f.nodes) if n["k"] == "call" and W.opens(f, n)]


def run_all(prog, ix, W=None):
    W = W or World(prog, ix)
    fns = [prog.funcs[t] for t in sorted(prog.funcs) if scope(prog.funcs[t])]
    done = {}
    for _ in range(5):
        ch = False
        for f in fns:
            for i in sites_in(f, W):
                if (f.id, i) in done:
                    continue
                r = W.rule(ix, W, only=i)
                s = ASim(r)
                s.run([(f.id, None, ())])
                done[(f.id, i)] = (r, s)
                n = f.nodes[i]
                fv = W.failval(f, n)
                kind = fv if fv is not None else W.prod.get(n.get("f"), (0,))[0]
                for ret, how, k in r.exits:
                    if f.id not in W.prod:
                        W.prod[f.id] = (kind, "ret" if how == "ret" else k)
                        ch = True
        if not ch:
            break
    return W, done


def e05(prog, ix, res, tier):
    W, done = run_all(prog, ix)
    steps = rel = 0
    for (t, i), (r, s) in done.items():
        res.functions.add(t)
        steps += s.steps
        rel += len(r.rel)
        res.violations += list(r.found.values())
    res.floor("places that open a resource", len(done), 80)
    res.floor("functions found to open a resource for their caller", len(W.prod), 15)
    res.floor("release points met", rel, 60)
    res.stats["abstract block states"] = steps
    res.stats["callee effects on a resource passed in"] = len(W.memo)


CHECKS = {
    "E05": dict(check=e05, level="other",
                technique="path-sensitive ownership typestate of every opened file, descriptor, directory and OpenSSL "
                          "object from its opening site, with computed summaries of which functions open for, release "
                          "for or take over from their caller",
                assumptions=["ownership that reaches a heap object, a global or a callback is followed no further",
                             "external functions borrow their arguments unless listed as releasing or taking over"]),
}
