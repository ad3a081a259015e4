"""TLS: protocol floor, peer verification, stream ordering, listeners."""
from front import Broken
from prims import success
from r_crypto import shipped, mem_fields
from sim import Rule, Sim, NZ, truth
from util import strip, field_of, fields_of, fp_field, root_var, walk, var_defs, calls, Strings, addr_args

TLS12 = 0x0303
SET_MIN, SET_MAX = 123, 124
NO_OLD = 0x02000000 | 0x04000000 | 0x10000000      # SSLv3, TLSv1, TLSv1.1
VERSIONED = ("TLSv1_method", "TLSv1_client_method", "TLSv1_server_method", "TLSv1_1_method", "TLSv1_1_client_method",
             "TLSv1_1_server_method", "SSLv3_method", "SSLv3_client_method", "SSLv3_server_method")


def up_to_public(prog, ix, fns):
    """the functions themselves, or the public functions their static helpers serve"""
    out, seen, work = set(), set(), list(fns)
    while work:
        t = work.pop()
        if t in seen:
            continue
        seen.add(t)
        f = prog.funcs[t]
        cs = {c for c in ix.callers.get(t, ()) if c != t}
        if f.static and cs and t not in ix.addr_taken:
            work += cs
        else:
            out.add(t)
    return out


# ---- T01 -------------------------------------------------------------------
class Floor(Rule):
    """q: 0 no context, 'new' unrestricted, 'ok' restricted"""
    NAMES = ("SSL_CTX_new", "SSL_CTX_new_ex", "SSL_CTX_ctrl", "SSL_CTX_set_options", "SSL_CTX_clear_options")

    def is_event(self, fn, i, n):
        return n["k"] == "call" and n.get("fn") in self.NAMES

    def on_call(self, sim, fn, i, n, q, args, env):
        name = n.get("fn")
        if name in ("SSL_CTX_new", "SSL_CTX_new_ex"):
            self.count["contexts"] += 1
            return [(NZ, "new"), (0, q)]
        if name == "SSL_CTX_ctrl" and len(args) > 2:
            if args[1] == SET_MIN:
                self.count["floors"] += 1
                good = isinstance(args[2], int) and args[2] >= TLS12
                if good:
                    return [(1, "ok"), (0, q)]
                return [(1, "new"), (0, q)]
            return None
        if name == "SSL_CTX_set_options" and len(args) > 1 and isinstance(args[1], int):
            if args[1] & NO_OLD == NO_OLD:
                return [(NZ, "ok")]
        if name == "SSL_CTX_clear_options" and len(args) > 1:
            if not isinstance(args[1], int) or args[1] & NO_OLD:
                return [(NZ, "new")]
        return None

    def on_exit(self, sim, fn, q, ret, env):
        if q == "new" and success(ret):
            self.report(sim, fn, -1, "hands out a TLS context that was not restricted to TLS 1.2 or newer")


def t01(prog, ix, res, tier):
    rule = Floor(ix)
    sim = Sim(rule)
    makers = {f.id for f in shipped(prog) for n in f.nodes
              if n["k"] == "call" and n.get("fn") in ("SSL_CTX_new", "SSL_CTX_new_ex")}
    roots = up_to_public(prog, ix, makers)
    sim.run([(t, 0, ()) for t in sorted(roots)])
    res.add_sim(sim, "context construction")
    # nothing reopens a context or a connection later
    n_ctrl = 0
    for f in shipped(prog):
        for i, n in enumerate(f.nodes):
            if n["k"] != "call":
                continue
            name = n.get("fn")
            if name in VERSIONED:
                res.add(f, n["L"], "uses a TLS method fixed to an obsolete protocol version")
            if name in ("SSL_ctrl", "SSL_CTX_ctrl") and len(n["a"]) > 2:
                c = f.nodes[strip(f, n["a"][1])].get("cv")
                v = f.nodes[strip(f, n["a"][2])].get("cv")
                if c == SET_MIN:
                    n_ctrl += 1
                    if f.id not in sim.fns and (v is None or v < TLS12):
                        res.add(f, n["L"], "lowers the minimum protocol version below TLS 1.2")
                if c == SET_MAX and (v is None or (0 < v < TLS12)):
                    res.add(f, n["L"], "limits a TLS context to obsolete protocol versions")
            if name == "SSL_clear_options" and len(n["a"]) > 1:
                v = f.nodes[strip(f, n["a"][1])].get("cv")
                if v is None or v & NO_OLD:
                    res.add(f, n["L"], "re-enables an obsolete protocol version")
    res.floor("context constructors", len(makers), 2)
    res.floor("public functions handing out contexts", len(roots), 2)
    res.floor("protocol floors set", rule.count["floors"] + n_ctrl, 1)


# ---- T02 -------------------------------------------------------------------
class Names:
    """where a host name comes from: through locals, parameters, struct
    members with writers, and the dstr views of a C string or offset"""
    VIEWS = ("dstr_from_off", "dstr_from_cstr", "dstr_off_extend", "dstr_sub2")

    def __init__(self, prog, ix):
        self.p, self.ix = prog, ix
        self.fns = shipped(prog)
        self.w = {}
        for f in self.fns:
            for i, n in enumerate(f.nodes):
                if n["k"] == "init" and n.get("r"):
                    for fld, c in n["i"]:
                        if isinstance(fld, str):
                            self.w.setdefault((n["r"], fld), []).append((f, c))
                elif n["k"] == "asg" and n["o"] == "=":
                    m = f.nodes[strip(f, n["l"])]
                    if m["k"] == "mem":
                        self.w.setdefault((m.get("r"), m["f"]), []).append((f, n["r"]))
        self.ships = {f.id for f in self.fns}

    def of(self, f, i, depth=0, seen=None):
        """depth 100: stay inside the function"""
        seen = set() if seen is None else seen
        i = strip(f, i)
        n = f.nodes[i]
        k = n["k"]
        if k == "call":
            if n.get("fn") in self.VIEWS and n["a"]:
                return self.of(f, n["a"][0], depth, seen)
            return {("call", n.get("fn"))}
        if k == "un" and n["o"] in ("&", "*"):
            return self.of(f, n["s"], depth, seen)
        if k == "mem":
            if n.get("r") in ("dstr_t", "dstr_off_t"):
                return self.of(f, n["b"], depth, seen)
            key = (n.get("r"), n["f"])
            if key in seen or depth > 6 or key[0] == "addrspec_t":
                return {key}
            seen.add(key)
            out = set()
            for g, x in self.w.get(key, ()):
                out |= self.of(g, x, depth + 1, seen)
            return out | {key}
        if k == "cond":
            return self.of(f, n["t"], depth, seen) | self.of(f, n["e"], depth, seen)
        if k == "ref" and n["d"] in ("l", "p"):
            v = n["v"]
            if (f.id, v) in seen:
                return set()
            seen.add((f.id, v))
            out = set()
            for d in var_defs(f, v):
                out |= self.of(f, d, depth, seen)
            for ci, ai in addr_args(f, v):
                c = f.nodes[ci]
                if c.get("fn") in ("dstr_append", "dstr_append_quiet") and ai == 0:
                    out |= self.of(f, c["a"][1], depth, seen)
                elif c.get("fn") == "dstr_copy" and ai == 1:
                    out |= self.of(f, c["a"][0], depth, seen)
            if v in f.params:
                pi = f.params.index(v)
                cs = [(g, ci) for g, ci in self.ix.calls.get(f.id, ()) if g.id in self.ships]
                if not cs or depth > 6:
                    out.add(("param", f.name, pi))
                for g, ci in cs if depth <= 6 else ():
                    a = g.nodes[ci]["a"]
                    if pi < len(a):
                        out |= self.of(g, a[pi], depth + 1, seen)
            return out
        if "cv" in n and n["cv"] == 0:
            return {("null",)}
        if k in ("str", "cl", "init"):
            st = [m["s"] for x, m in walk(f, i) if m["k"] == "str"]
            return {("text", st[0] if st else "")}
        return {("expr", k)}


class Verify(Rule):
    """q: flags collected on one connection object"""
    bind_ptr = True
    fork_ret = True

    def __init__(self, ix):
        super().__init__(ix)
        self.clients = set()
        self.guards = frozenset(("duv_tls_t", f) for f, t in ix.p.records.get("duv_tls_t", {}).items()
                                if t in ("bool", "_Bool"))

    NAMES = ("SSL_set_connect_state", "SSL_set1_host", "SSL_add1_host", "SSL_set_verify", "SSL_CTX_set_verify",
             "SSL_connect")

    def is_event(self, fn, i, n):
        return n["k"] == "call" and n.get("fn") in self.NAMES

    def on_call(self, sim, fn, i, n, q, args, env):
        name = n.get("fn")
        if name in ("SSL_set_connect_state", "SSL_connect"):
            self.count["clients"] += 1
            return [(NZ, q | {"client"})]
        if name in ("SSL_set1_host", "SSL_add1_host"):
            self.count["names"] += 1
            return [(1, q | {"name"}), (0, q)]
        if name in ("SSL_set_verify", "SSL_CTX_set_verify"):
            self.count["verify"] += 1
            m = args[1]
            if isinstance(m, int) and m & 1:
                return [(NZ, q | {"verify"})]
            return [(NZ, q - {"verify"})]
        return None

    def on_exit(self, sim, fn, q, ret, env):
        if "client" in q and success(ret):
            self.clients.add(fn.id)
            if "name" not in q:
                self.report(sim, fn, -1, "sets up a TLS client without the host name its certificate must match")
            if "verify" not in q:
                self.report(sim, fn, -1, "sets up a TLS client that does not require a verified certificate")


class Roots(Rule):
    """q: flags; a client context with the operating system's roots asked
    for must have loaded them"""

    def __init__(self, ix, loaders):
        super().__init__(ix)
        self.loaders = loaders

    def is_event(self, fn, i, n):
        return n["k"] == "call" and n.get("fn") in self.loaders

    def on_call(self, sim, fn, i, n, q, args, env):
        if n.get("fn") in self.loaders:
            self.count["loads"] += 1
            name = n.get("fn")
            if name == "ssl_context_load_from_os":
                return [(0, 1), (NZ, q)]
            return [(1, 1), (0, q)]
        return None

    def on_exit(self, sim, fn, q, ret, env):
        if not q and success(ret):
            self.report(sim, fn, -1, "hands out a client context without loading the trusted roots")


def t02(prog, ix, res, tier):
    rule = Verify(ix)
    sim = Sim(rule)
    makers = {f.id for f in shipped(prog) for n in f.nodes
              if n["k"] == "call" and n.get("fn") in ("SSL_set_connect_state", "SSL_connect")}
    roots = up_to_public(prog, ix, makers)
    sim.run([(t, frozenset(), ()) for t in sorted(roots)])
    res.add_sim(sim, "client connection setup")
    res.floor("client connection constructors", len(makers), 1)
    res.floor("host names installed", rule.count["names"], 1)
    res.floor("verification modes set", rule.count["verify"], 1)
    # loading the roots
    rr = Roots(ix, ("SSL_CTX_set_default_verify_paths", "SSL_CTX_load_verify_locations", "d2i_X509",
                    "X509_STORE_set_default_paths"))
    rs = Sim(rr)
    lo = ix.one("ssl_context_load_from_os")
    if lo is None:
        raise Broken("no ssl_context_load_from_os")
    rs.run([(lo.id, 0, ())])
    res.add_sim(rs, "loading the trusted roots")
    cr = Roots(ix, ("ssl_context_load_from_os",))
    cs = Sim(cr)
    ex = ix.one("ssl_context_new_client_ex")
    if ex is None:
        raise Broken("no ssl_context_new_client_ex")
    bind = [(("v", v), 1) for v in ex.params if ex.vars[v][1] in ("bool", "_Bool")]
    cs.run([(ex.id, 0, tuple(bind))])
    res.add_sim(cs, "client contexts")
    n_ctx = 0
    for f, i, n in calls(prog, ex.name):
        if f not in shipped(prog):
            continue
        n_ctx += 1
        k = next(k for k, v in enumerate(ex.params) if ex.vars[v][1] in ("bool", "_Bool"))
        if f.nodes[strip(f, n["a"][k])].get("cv") != 1:
            res.add(f, n["L"], "creates a client context without the trusted roots of the operating system")
    res.floor("client contexts created", n_ctx, 1)
    # no construct that weakens verification
    st = Strings(ix)
    for f in shipped(prog):
        for i, n in enumerate(f.nodes):
            if n["k"] != "call":
                continue
            name = n.get("fn")
            if name in ("SSL_set_verify", "SSL_CTX_set_verify"):
                m = f.nodes[strip(f, n["a"][1])].get("cv")
                if m is not None and not m & 1:
                    res.add(f, n["L"], "turns certificate verification off")
                cb = f.nodes[strip(f, n["a"][2])]
                if cb.get("cv") != 0:
                    res.add(f, n["L"], "installs a callback that can override certificate verification")
            elif name in ("SSL_CTX_set_cert_verify_callback", "SSL_set_verify_result",
                          "X509_STORE_set_verify_cb", "X509_STORE_CTX_set_error"):
                res.add(f, n["L"], "overrides the result of certificate verification")
            elif name == "X509_VERIFY_PARAM_set_flags" or name == "X509_VERIFY_PARAM_set_hostflags":
                res.add(f, n["L"], "relaxes certificate verification flags")
            elif name == "SSL_set_hostflags":
                v = f.nodes[strip(f, n["a"][1])].get("cv")
                if v is None or v & 0x20:
                    res.add(f, n["L"], "relaxes host name matching")
            elif name in ("SSL_CTX_set_cipher_list", "SSL_set_cipher_list"):
                for s in st.of(f, n["a"][1], params=True):
                    for part in s.replace(",", ":").replace(" ", ":").split(":"):
                        if part.lstrip("+").upper().startswith(("ANULL", "ENULL", "NULL", "ADH", "AECDH", "COMPLEMENTOF",
                                                                "ALL")) and "!aNULL" not in s:
                            res.add(f, n["L"], "allows ciphers without server authentication")
    # the name verified is the name connected to
    names = Names(prog, ix)
    n_wrap = 0
    ships = shipped(prog)
    for f in ships:
        for i, n in enumerate(f.nodes):
            if n["k"] == "call" and n.get("fn") in ("SSL_set1_host", "SSL_add1_host"):
                got = names.of(f, n["a"][1], 100)
                bad = [t for t in got if t[0] in ("text", "null", "call", "expr") and t != ("text", "")]
                if not [t for t in got if t not in bad and t != ("text", "")]:
                    bad = [None]
                for t in bad:
                    res.add(f, n["L"], "the name a certificate is checked against is not the caller's host name")
    for w in sorted(roots):
        g = prog.funcs[w]
        ks = [k for k, v in enumerate(g.params) if g.vars[v][1] in ("dstr_t", "const dstr_t")]
        if len(ks) != 1:
            continue
        if not makes_client(prog, rule, g):
            continue
        for f, i, n in calls(prog, g.name):
            if f not in ships:
                continue
            n_wrap += 1
            got = names.of(f, n["a"][ks[0]])
            want = set()
            d = f.file.rsplit("/", 1)[0]
            for name in ("duv_connect",):
                c = prog.funcs.get(name) or ix.one(name)
                for h, ci, m in calls(prog, name):
                    if h in ships and h.file.rsplit("/", 1)[0] == d:
                        hk = [k for k, v in enumerate(c.params) if c.vars[v][1] in ("dstr_t", "const dstr_t")]
                        if hk:
                            want |= names.of(h, m["a"][hk[0]])
            over = {t for t in got if t[0] == "duv_http_req_t" and t not in want}
            # the documented override: used only where the caller supplied one
            extra = got - want - over
            if over:
                extra = {t for t in extra if t[0] not in ("acme_t", "null", "param") and t[0] != "text"}
                base = got & want
            else:
                base = got
            if not base & want:
                res.add(f, n["L"], "verifies a name that is not the host being connected to")
            if {t for t in extra if t[0] in ("text", "null")}:
                res.add(f, n["L"], "verifies a fixed name instead of the host being connected to")
            res.samples.append("%s:%d verifies %s" % (f.file, n["L"], sorted(map(str, got & want))))
    res.floor("connections wrapped in client TLS", n_wrap, 2)
    # an idle connection is only reused for the peer it was verified for
    n_re = 0
    for f in ships:
        if f.file != "libhttp/duv_http.c":
            continue
        for i, n in enumerate(f.nodes):
            if n["k"] == "asg" and field_of(f, n["l"]) == ("duv_http_req_t", "need_conn_cleanup"):
                if f.nodes[strip(f, n["r"])].get("cv") == 0:
                    continue
                n_re += 1
                seen = mem_fields(f, n["r"])
                for v in [m["v"] for x, m in walk(f, n["r"]) if m["k"] == "ref" and m["d"] == "l"]:
                    for d in var_defs(f, v):
                        seen |= mem_fields(f, d)
                for x, m in walk(f, n["r"]):
                    if m["k"] == "call" and m.get("f") in prog.funcs:
                        g = prog.funcs[m["f"]]
                        for y in range(len(g.nodes)):
                            if g.nodes[y]["k"] == "mem":
                                seen.add((g.nodes[y].get("r"), g.nodes[y]["f"]))
                for fld in ("host", "port", "tls"):
                    if ("http_mem_t", fld) not in seen or ("duv_http_req_t", fld) not in seen:
                        res.add(f, n["L"], "reuses a connection without comparing its %s with the request's" % fld)
    res.floor("connection reuse decisions", n_re, 1)


def makes_client(prog, rule, g):
    """the function can succeed with a client connection"""
    return g.id in rule.clients


# ---- T03 -------------------------------------------------------------------
APP = ("SSL_write", "SSL_write_ex", "SSL_read", "SSL_read_ex", "SSL_shutdown")
CANCELED = ("stream_i", "canceled")
WANT_READ, WANT_WRITE, ZERO = 2, 3, 6


class Stream(Rule):
    """q = (flags): hs handshake done in this run, cert peer certificate
    seen, got plaintext received, zero eof reported, enc rawout drained,
    fail an unrecoverable TLS failure, name host verification configured"""
    addr_guards = True
    fork_ret = True
    bind_ptr = True

    def __init__(self, ix, bools, hs=(), vf=()):
        super().__init__(ix)
        self.guards = frozenset(("duv_tls_t", b) for b in bools) | {("duv_tls_t", "e"), CANCELED}
        self.bools = bools
        self.hs, self.vf = hs, vf
        self.sets = {}       # bool field -> set of q flags at its assignments to non-zero

    def is_event(self, fn, i, n):
        if not fn.file.startswith("libduvtls/") or "test" in fn.file:
            return False
        return n["k"] == "call" and (n.get("fn", "").startswith(("SSL_", "BIO_")) or "fe" in n)

    def known(self, env, f):
        return env.get(("g", "duv_tls_t", f))

    def on_call(self, sim, fn, i, n, q, args, env):
        name = n.get("fn") or ""
        if name == "SSL_do_handshake":
            self.count["handshakes"] += 1
            self.alive(sim, fn, i, env)
            return [(1, q | {"hs"}), (0, q), (-1, q)]
        if name in ("SSL_get_peer_certificate", "SSL_get1_peer_certificate", "SSL_get0_peer_certificate"):
            return [(NZ, q | {"cert"}), (0, q)]
        if name == "SSL_set1_host":
            return [(1, q | {"name"}), (0, q)]
        if name == "SSL_get_error":
            self.count["failures"] += 1
            return [(WANT_READ, q), (ZERO, q), (WANT_WRITE, q | {"fail"}), (1, q | {"fail"}), (5, q | {"fail"})]
        if name in APP:
            self.count["data operations"] += 1
            self.alive(sim, fn, i, env)
            if self.hs is not None and "hs" not in q and not any(truth(self.known(env, f)) is True for f in self.hs):
                self.report(sim, fn, i, "moves application data before the handshake has completed")
            if name in ("SSL_read", "SSL_read_ex"):
                if ("stream_read_t", "buf") not in fields_of(fn, n["a"][1]) and not self.via(fn, n["a"][1], "stream_read_t"):
                    self.report(sim, fn, i, "decrypts into a buffer that is not the reader's")
                return [(1, q | {"got"}), (0, q - {"got"}), (-1, q - {"got"})]
            if name in ("SSL_write", "SSL_write_ex"):
                return [(1, q), (0, q), (-1, q)]
            return [(1, q), (0, q), (-1, q)]
        if name == "BIO_read_ex" or name == "BIO_read":
            own = {("enc", f) for r, f in fields_of(fn, n["a"][1]) if r == "duv_tls_t"}
            self.count["records drained"] += 1
            return [(1, q | own), (0, q), (-1, q)]
        if name in ("BIO_write_ex", "BIO_write"):
            return [(1, q), (0, q), (-1, q)]
        fp = fp_field(fn, n)
        if fp == ("stream_read_t", "cb"):
            self.count["deliveries"] += 1
            if "got" not in q and "zero" not in q:
                self.report(sim, fn, i, "delivers a read that was not decrypted")
            if "fail" in q:
                self.report(sim, fn, i, "delivers data after the TLS stream failed")
            return [(None, q - {"got", "zero"}, self.user(env))]
        if fp == ("stream_i", "write"):
            self.count["wire writes"] += 1
            buf = set(fields_of(fn, n["a"][2])) if len(n["a"]) > 2 else set()
            if not any(("enc", f) in q for r, f in buf if r == "duv_tls_t"):
                self.report(sim, fn, i, "writes bytes to the wire that are not encrypted records")
            return [(None, frozenset(x for x in q if x[0] != "enc"), dict(env))]
        if fp == ("stream_i", "read"):
            self.count["wire reads"] += 1
            ok = any(r == "duv_tls_t" for r, _ in fields_of(fn, n["a"][2]))
            if not ok:
                self.report(sim, fn, i, "reads undecrypted bytes from the wire into a caller's buffer")
            return [(NZ, q, dict(env))]
        if "fe" in n and fp and fp[0] in ("stream_i", "scheduler_i", "duv_tls_t", "stream_write_t"):
            return [(None, q, self.user(env))]
        return None

    @staticmethod
    def user(env):
        """a callback may have canceled the stream"""
        return {c: v for c, v in env.items() if c != ("g",) + CANCELED}

    def via(self, fn, a, rec):
        """the expression's base pointer is a view of that record's buffer"""
        for x, m in walk(fn, a):
            if m["k"] == "ref" and m["d"] == "l":
                for d in var_defs(fn, m["v"]):
                    if any(r == rec for r, _ in fields_of(fn, d)):
                        return True
        return False

    def alive(self, sim, fn, i, env):
        if truth(self.known(env, "e")) is not False:
            self.report(sim, fn, i, "keeps using a TLS stream that may already have failed")

    def on_assign(self, sim, fn, i, lhs, val, q, env):
        f = field_of(fn, lhs)
        if f and f[0] == "duv_tls_t" and f[1] in self.bools and truth(val) is not False:
            self.sets.setdefault(f[1], set()).add((frozenset(q), self.unverified(env)))
            if f[1] in self.hs and not ("cert" in q or self.unverified(env)):
                self.report(sim, fn, i, "completes the handshake without having seen the peer's certificate")
        fs = fields_of(fn, lhs)
        if f == ("dstr_t", "len") and ("stream_read_t", "buf") in fs:
            if val == 0:
                return q | {"zero"}
        return q

    def unverified(self, env):
        """a flag that is set whenever a host name is to be verified is known to be off"""
        return any(env.get(("g", "duv_tls_t", f)) == 0 for f in self.vf)

    def on_exit(self, sim, fn, q, ret, env):
        if "fail" in q and truth(self.known(env, "e")) is not True:
            self.report(sim, fn, -1, "ignores a failed handshake or record")


def t03(prog, ix, res, tier):
    rec = prog.records.get("duv_tls_t")
    if not rec:
        raise Broken("no duv_tls_t")
    bools = sorted(f for f, t in rec.items() if t in ("bool", "_Bool"))
    fns = [f for f in prog.funcs.values() if f.file == "libduvtls/tls.c"]
    # fields holding "handshake completed" and "verification wanted": every
    # assignment of true follows the respective event
    r1 = Stream(ix, bools, hs=None)
    r1.hs = ()
    s1 = Sim(r1)
    ids = {f.id for f in fns}
    roots = [x for x in s1.auto_roots(frozenset()) if x[0] in ids]
    s1.run(roots)
    hs = [f for f, qs in r1.sets.items() if qs and all("hs" in q for q, _ in qs)]
    wrapfns = [f for f in fns if any(n["k"] == "call" and n.get("fn") == "SSL_set1_host" for n in f.nodes)]
    vf = set()
    for f in wrapfns:
        for n in f.nodes:
            if n["k"] == "asg" and n["o"] == "=" and f.nodes[strip(f, n["r"])].get("cv") == 1:
                fl = field_of(f, n["l"])
                if fl and fl[0] == "duv_tls_t" and fl[1] in bools:
                    vf.add(fl[1])
        for n in f.nodes:
            if n["k"] == "init" and n.get("r") == "duv_tls_t":
                for fld, c in n["i"]:
                    if fld in bools:
                        m = f.nodes[strip(f, c)]
                        if m["k"] in ("ref", "bin", "un", "cond") and "cv" not in m:
                            vf.add(fld)
    rule = Stream(ix, bools, hs=hs, vf=vf)
    sim = Sim(rule)
    sim.run(roots)
    res.add_sim(sim, "TLS stream")
    res.stats["handshake flags"] = " ".join(hs)
    res.stats["verification flags"] = " ".join(sorted(vf))
    res.floor("entry points", len(roots), 5)
    res.floor("handshake calls", rule.count["handshakes"], 1)
    res.floor("operations on application data", rule.count["data operations"], 3)
    res.floor("failures classified", rule.count["failures"], 4)
    res.floor("deliveries to readers", rule.count["deliveries"], 2)
    res.floor("writes to the wire", rule.count["wire writes"], 1)


# ---- T04 -------------------------------------------------------------------
SEC = "imap_security_e"
LST = "citm_listener_t"
CONN = "citm_conn_t"


class Listener(Rule):
    """one run per security level of the listener; q = (accepted, closed)"""
    fork_ret = True
    guards = frozenset({(LST, "security"), (LST, "ctx"), (CONN, "ctx"), (CONN, "security")})

    def __init__(self, ix, lvl, insecure, starttls, stubs, fns):
        super().__init__(ix)
        self.lvl, self.insecure, self.starttls, self.stubs = lvl, insecure, starttls, stubs
        self.fns = fns

    def is_event(self, fn, i, n):
        return n["k"] == "call" and fn.file.startswith("libcitm/") and (n.get("fn") == "duv_tcp_accept" or
                                                                        self.handoff(fn, n))

    def handoff(self, fn, n):
        """the connection object leaves the listener's hands"""
        if n.get("f") in self.fns:
            return False
        return any(fn.nodes[strip(fn, a)].get("T", "").replace("const ", "") in (CONN + " *",) for a in n["a"])

    def on_call(self, sim, fn, i, n, q, args, env):
        if n.get("fn") == "duv_tcp_accept":
            self.count["accepts"] += 1
            return [(0, "open"), (NZ, q)]
        if self.handoff(fn, n):
            self.count["handoffs"] += 1
            if self.lvl != self.insecure:
                ctx = truth(env.get(("g", LST, "ctx")))
                stub = n.get("fn") in self.stubs
                if ctx is not True and not (stub and self.lvl == self.starttls):
                    self.report(sim, fn, i, "hands a connection to the application although the listener promises TLS and "
                                            "may have no certificate")
            return [(None, "given", dict(env))]
        return None


class Wraps(Rule):
    """construction of a connection's protocol object, one run per security
    level; q: the TLS wrapper succeeded"""

    def __init__(self, ix, wrapper, rec, flag):
        super().__init__(ix)
        self.wrapper, self.rec, self.flag = wrapper, rec, flag
        self.guards = frozenset({(CONN, "security")} | {(rec, b) for b in flag})
        self.ends = []

    def is_event(self, fn, i, n):
        return n["k"] == "call" and n.get("fn") == self.wrapper

    def on_call(self, sim, fn, i, n, q, args, env):
        if n.get("fn") == self.wrapper:
            self.count["wraps"] += 1
            return [(0, q | {"tls"}), (NZ, q)]
        return None

    def on_assign(self, sim, fn, i, lhs, val, q, env):
        f = field_of(fn, lhs)
        if f == (self.rec, "stream"):
            m = mem_fields(fn, fn.nodes[i]["r"]) if fn.nodes[i]["k"] == "asg" else set()
            if (CONN, "stream") in m:
                return (q - {"tls"}) | {"plain"}
        # *s = (T){.starttls = <cond>}
        n = fn.nodes[i]
        if n["k"] == "asg":
            for x, m in walk(fn, n["r"]):
                if m["k"] == "init" and m.get("r") == self.rec:
                    for fld, c in m["i"]:
                        if fld in self.flag:
                            v = sim.ev(fn, c, env)
                            if truth(v) is True:
                                q = q | {"flag:" + fld}
        return q

    def on_exit(self, sim, fn, q, ret, env):
        self.ends.append((fn, q, ret))


class Upgrade(Rule):
    """state machine of a STARTTLS connection: nothing is relayed before the
    upgrade succeeded. q: the wrapper succeeded in this run"""

    def __init__(self, ix, wrapper, rec, flag, bools, relay):
        super().__init__(ix)
        self.wrapper, self.rec, self.flag, self.relay = wrapper, rec, flag, relay
        self.bools = bools
        self.guards = frozenset((rec, b) for b in bools)
        self.done = None
        self.sets = {}

    def is_event(self, fn, i, n):
        if n["k"] != "call" or not fn.file.startswith("libcitm/"):
            return False
        return n.get("fn") == self.wrapper or (fp_field(fn, n) or ("",))[0] in self.relay or self.queued(fn, n)

    def queued(self, fn, n):
        """a caller's command or response is put in line for the wire"""
        if n.get("fn") not in ("link_list_append", "link_list_prepend") or field_of(fn, n["a"][0]) is None or \
                field_of(fn, n["a"][0])[0] != self.rec:
            return False
        r = root_var(fn, n["a"][1])
        if r is None or fn.vars[r[0]][1] not in ("imap_cmd_t *", "imap_resp_t *"):
            return False
        if r[0] in fn.params:
            return not fn.static
        return any(m["k"] == "call" and m.get("fn", "").startswith("steal_") or
                   m["k"] == "mem" and m.get("T") in ("imap_cmd_t *", "imap_resp_t *")
                   for d in var_defs(fn, r[0]) for x, m in walk(fn, d))

    def on_call(self, sim, fn, i, n, q, args, env):
        if n.get("fn") == self.wrapper:
            return [(0, True), (NZ, q)]
        if self.queued(fn, n):
            self.count["queued"] += 1
            if self.done is not None and not self.safe(q, env):
                self.report(sim, fn, i, "queues mail traffic on a connection that promised STARTTLS before the upgrade")
            return None
        f = fp_field(fn, n)
        if f and f[0] in self.relay and f[1] == "cb":
            self.count["relays"] += 1
            if self.done is not None and not self.safe(q, env):
                self.report(sim, fn, i, "relays mail traffic over a connection that promised STARTTLS before the upgrade")
            return [(None, q, dict(env))]
        return None

    def on_assign(self, sim, fn, i, lhs, val, q, env):
        f = field_of(fn, lhs)
        if f and f[0] == self.rec and f[1] in self.bools and truth(val) is not False:
            self.sets.setdefault(f[1], set()).add(self.safe(q, env))
        return q

    def safe(self, q, env):
        return q or env.get(("g", self.rec, self.flag)) == 0 or \
            any(truth(env.get(("g", self.rec, d))) is True for d in self.done or ())


class Scheme(Rule):
    """q: the literal the scheme was found equal to"""

    def __init__(self, ix, st, out):
        super().__init__(ix)
        self.st = st
        self.ends = set()
        self.out = out

    def is_event(self, fn, i, n):
        return n["k"] == "call" and n.get("fn", "").startswith("dstr_") and fn.ret in ("bool", "_Bool")

    def on_call(self, sim, fn, i, n, q, args, env):
        name = n.get("fn", "")
        if name in ("dstr_ieq", "dstr_eq"):
            s = [t for t in self.st.of(fn, i) if t]
            if len(s) == 1:
                return [(1, s[0].lower()), (0, q)]
        return None

    def on_exit(self, sim, fn, q, ret, env):
        if truth(ret) is not False:
            self.ends.add((q, env.get(("d", self.out))))


class Parsed(Rule):
    """a scheme that did not parse is an error, or recorded as one"""
    keep_err_types = True

    def on_assign(self, sim, fn, i, lhs, val, q, env):
        m = fn.nodes[strip(fn, lhs)]
        if m["k"] == "mem" and m.get("T") in ("bool", "_Bool") and val == 1:
            return False
        return q

    def is_event(self, fn, i, n):
        return n["k"] == "call" and n.get("fn") == "imap_scheme_parse"

    def on_call(self, sim, fn, i, n, q, args, env):
        if n.get("fn") == "imap_scheme_parse":
            self.count["parses"] += 1
            return [(1, q), (0, True)]
        return None

    def on_exit(self, sim, fn, q, ret, env):
        if q and success(ret):
            self.report(sim, fn, -1, "accepts an address whose scheme was not understood")


def t04(prog, ix, res, tier):
    en = next((e for e in prog.enums.values() if "IMAP_SEC_INSECURE" in e), None)
    if en is None:
        raise Broken("no imap_security_e")
    INS, STT, TLS = en["IMAP_SEC_INSECURE"], en["IMAP_SEC_STARTTLS"], en["IMAP_SEC_TLS"]
    ships = shipped(prog)
    # the scheme parser
    sp = ix.one("imap_scheme_parse")
    if sp is None:
        raise Broken("no imap_scheme_parse")
    outp = next(v for v in sp.params if sp.vars[v][1].endswith("*"))
    r = Scheme(ix, Strings(ix), outp)
    r.ptr_types = (SEC + " *",)
    s = Sim(r)
    s.run([(sp.id, "", ())])
    res.add_sim(s, "scheme parser")
    want = {"insecure": INS, "starttls": STT, "tls": TLS}
    for q, v in r.ends:
        if q not in want or v != want[q]:
            res.add(sp, sp.line, "the scheme %r is given security level %s" % (q, v))
    res.floor("schemes understood", len(r.ends), 3)
    pr = Parsed(ix)
    s = Sim(pr)
    s.run([(f.id, False, ()) for f in ships if any(n["k"] == "call" and n.get("fn") == "imap_scheme_parse" for n in f.nodes)
           and f.ret == "derr_t"])
    res.add_sim(s, "scheme users")
    res.floor("places that parse a scheme", pr.count["parses"], 3)
    # security levels come from a parsed scheme, another level, or are TLS
    n_lvl = 0
    for f in ships:
        if not f.file.startswith("libcitm/") or f.id == sp.id:
            continue
        for i, n in enumerate(f.nodes):
            tgt = []
            if n["k"] == "asg" and n["o"] == "=" and f.nodes[strip(f, n["l"])].get("T") == SEC:
                tgt = [n["r"]]
            elif n["k"] == "init" and n.get("r") in (CONN, LST):
                tgt = [c for fld, c in n["i"] if fld == "security"]
                if n.get("r") == CONN and not tgt and len(n["i"]) > 1:
                    res.add(f, n["L"], "creates a connection without its security level")
            for c in tgt:
                n_lvl += 1
                m = f.nodes[strip(f, c)]
                if "cv" in m and m["cv"] != TLS:
                    res.add(f, n["L"], "fixes a connection's security level below TLS")
                if n["k"] == "init" and n.get("r") == CONN:
                    src = field_of(f, c)
                    ctx = [field_of(f, x) for fld, x in n["i"] if fld == "ctx"]
                    if src is None or not ctx or ctx[0] is None or ctx[0][0] != src[0]:
                        res.add(f, n["L"], "a connection's security level and TLS context do not come from the same place")
    res.floor("security levels assigned", n_lvl, 3)
    # listeners
    entry = [f for f in ships if f.file.startswith("libcitm/") and
             any(n["k"] == "call" and n.get("fn") == "duv_tcp_accept" for n in f.nodes)]
    roots = up_to_public(prog, ix, [f.id for f in entry])
    roots = {t for t in roots if t in ix.addr_taken} or roots
    local = {f.id for f in prog.funcs.values() if f.file in {e.file for e in entry} and f.static}
    for lvl, nm in ((INS, "insecure"), (STT, "starttls"), (TLS, "tls")):
        rule = Listener(ix, lvl, INS, STT, ("stub_new",), local)
        rule.bind_ptr = True
        s = Sim(rule)
        s.run([(t, "", ((("g", LST, "security"), lvl),)) for t in sorted(roots)])
        res.add_sim(s, "listener " + nm)
        if lvl == INS:
            res.floor("connections accepted", rule.count["accepts"], 1)
            res.floor("connections handed on", rule.count["handoffs"], 1)
    # protocol objects wrap their connection
    for side, rec, wrapper, relay in (("imap_server_new", "imap_server_t", "duv_tls_wrap_server",
                                       ("imap_server_read_t",)),
                                      ("imap_client_new", "imap_client_t", "duv_tls_wrap_client",
                                       ("imap_client_read_t", "imap_client_write_t"))):
        new = ix.one(side)
        if new is None:
            raise Broken("no " + side)
        bools = sorted(f for f, t in prog.records[rec].items() if t in ("bool", "_Bool"))
        flags = set()
        for lvl in (STT, TLS, INS):
            rule = Wraps(ix, wrapper, rec, bools)
            s = Sim(rule)
            s.run([(new.id, frozenset(), ((("g", CONN, "security"), lvl),))])
            res.add_sim(s, side)
            ok = [(f, q) for f, q, ret in rule.ends if success(ret) and f.id == new.id]
            if not ok:
                raise Broken("%s never succeeds" % side)
            for f, q in ok:
                if lvl == TLS and "tls" not in q:
                    res.add(f, f.line, "serves a TLS connection without wrapping it in TLS")
                    break
            if lvl == STT:
                common = frozenset.intersection(*[q for f, q in ok])
                flags = {x[5:] for x in common if x.startswith("flag:")}
            if lvl == INS:
                for f, q in ok:
                    flags -= {x[5:] for x in q if x.startswith("flag:")}
        if not flags:
            res.add(new, new.line, "a STARTTLS connection is not marked as needing its upgrade")
            continue
        flag = sorted(flags)[0]
        up = Upgrade(ix, wrapper, rec, flag, bools, relay)
        up.flag = None
        s1 = Sim(up)
        own = {f.id for f in prog.funcs.values() if f.file == new.file}
        roots = [x for x in s1.auto_roots(False) if x[0] in own and x[0] != new.id]
        roots += [(t, False, ()) for t in sorted(own) if not prog.funcs[t].static and t != new.id and t in s1.relevant and
                  (t, False, ()) not in roots]
        s1.run(roots)
        done = {b for b, qs in up.sets.items() if qs == {True}}
        if not done:
            res.add(new, new.line, "a STARTTLS connection is never upgraded")
            continue
        # flags that are only ever raised once the upgrade is settled vouch for it, too
        for _ in range(4):
            r2 = Upgrade(ix, wrapper, rec, flag, bools, relay)
            r2.done = done
            s2 = Sim(r2)
            s2.run(roots)
            more = {b for b, qs in r2.sets.items() if qs == {True}}
            if more <= done:
                break
            done = done | more
        res.add_sim(s2, side + " state machine")
        res.stats[side + ": upgrade flags"] = "%s / %s" % (flag, " ".join(sorted(done)))
        res.floor(side + ": messages queued", r2.count["queued"], 2)
        res.floor(side + ": relays examined", r2.count["relays"], 1)
        # the flag that demands the upgrade is never dropped
        for f in ships:
            for i, n in enumerate(f.nodes):
                if n["k"] == "asg" and field_of(f, n["l"]) == (rec, flag):
                    res.add(f, n["L"], "drops the demand for a STARTTLS upgrade")


CHECKS = {
    "T01": dict(check=t01, level="other",
                technique="typestate analysis of every TLS context over all paths of its constructor (created, "
                          "restricted, handed out), plus a whole-program scan for calls that lower the floor again",
                assumptions=["OpenSSL honours SSL_CTX_set_min_proto_version"]),
    "T02": dict(check=t02, level="other",
                technique="typestate analysis of client connection setup over all paths, dataflow of the verified name "
                          "against the name connected to, and a scan for constructs that weaken verification",
                assumptions=["OpenSSL enforces SSL_VERIFY_PEER and SSL_set1_host"]),
    "T03": dict(check=t03, level="other",
                technique="path-sensitive typestate analysis of the TLS stream wrapper from every entry point, with the "
                          "flags and error of the stream tracked across calls",
                assumptions=["callbacks of the stream's user do not reach into the wrapper's own fields"]),
    "T04": dict(check=t04, level="other",
                technique="path-sensitive analysis of the listener, of both protocol objects' constructors and of their "
                          "state machines, once per configured security level, plus dataflow of the security level",
                assumptions=["the TLS stream wrapper behaves as T03 checks"]),
}
