"""Account state on disk: atomic replacement, nonces, certificates."""
from front import Broken
from prims import success
from r_crypto import shipped
from sim import Rule, Sim, NZ, truth
from util import strip, field_of, fp_field, walk, var_defs, addr_args, Sources

FMTS = ("_fmt", "_fmt_quiet")
PERSIST = ("api_client.c", "libcitm/", "libcli/", "libacme/", "libcrypto/")


def state_fns(prog):
    return [f for f in shipped(prog) if f.file.startswith(PERSIST)]


class Tails:
    """the last component of the path an expression stands for"""

    def __init__(self, prog, ix):
        self.p, self.ix = prog, ix
        self.fns = [f for f in shipped(prog)]
        self.ids = {f.id for f in self.fns}
        self.w = {}
        self.fpc = {}
        for f in self.fns:
            for i, n in enumerate(f.nodes):
                if n["k"] == "init" and n.get("r"):
                    for fld, c in n["i"]:
                        if isinstance(fld, str):
                            self.w.setdefault((n["r"], fld), []).append((f, c))
                elif n["k"] == "asg" and n["o"] == "=":
                    m = f.nodes[strip(f, n["l"])]
                    if m["k"] == "mem":
                        self.w.setdefault((m.get("r"), m["f"]), []).append((f, n["r"]))
                elif n["k"] == "call" and "fe" in n:
                    for t in ix.targets(f, n):
                        self.fpc.setdefault(t, []).append((f, i))

    def of(self, f, i, depth=0, seen=None):
        seen = set() if seen is None else seen
        if depth > 12:
            return {"?"}
        i = strip(f, i)
        n = f.nodes[i]
        k = n["k"]
        if k == "un" and n["o"] in ("&", "*"):
            return self.of(f, n["s"], depth, seen)
        if k == "str":
            return {n.get("s", "").split("/")[-1]}
        if k in ("cl",):
            return self.of(f, n["s"], depth, seen)
        if k == "init":
            return self.init(f, n, depth, seen)
        if k == "cond":
            return self.of(f, n["t"], depth, seen) | self.of(f, n["e"], depth, seen)
        if k == "call":
            if n.get("fn") == "sb_append":
                return self.of(f, n["a"][1], depth, seen)
            if n.get("fn") == "sb_prepend":
                return self.of(f, n["a"][0], depth, seen)
            if n.get("fn") in ("dstr_from_cstr", "dstr_from_off"):
                return self.of(f, n["a"][0], depth, seen)
            g = self.p.funcs.get(n.get("f"))
            out = set()
            if g is not None:
                for m in g.nodes:
                    if m["k"] == "ret" and m["s"] >= 0:
                        for t in self.of(g, m["s"], depth + 1, seen):
                            out.add(t)
            return out or {"?"}
        if k == "mem":
            if n.get("r") == "dstr_t":
                return self.of(f, n["b"], depth, seen)
            key = (n.get("r"), n["f"])
            if key in seen:
                return set()
            out = set()
            for g, x in self.w.get(key, ()):
                out |= self.of(g, x, depth + 1, seen | {key})
            return out or {"?"}
        if k == "ref" and n["d"] == "g":
            out = set()
            g = self.p.globals.get(n.get("id") or n["n"])
            for m in (g or {"nodes": ()})["nodes"]:
                if m["k"] == "str":
                    out.add(m.get("s", "").split("/")[-1])
            return out or {"?"}
        if k == "ref" and n["d"] in ("l", "p"):
            v = n["v"]
            if (f.id, v) in seen:
                return set()
            seen = seen | {(f.id, v)}
            out = set()
            for d in var_defs(f, v):
                m = f.nodes[strip(f, d)]
                if m.get("cv") == 0 or (m["k"] == "init" and self.blank(f, m)) or \
                        (m["k"] == "cl" and self.blank(f, f.nodes[m["s"]])):
                    continue
                out |= self.of(f, d, depth, seen)
            for ci, ai in addr_args(f, v):
                c = f.nodes[ci]
                nm = c.get("fn")
                if nm == "sb_expand" and ai == 3:
                    out |= self.of(f, c["a"][0], depth, seen)
                elif nm in ("dstr_append", "dstr_append_quiet") and ai == 0:
                    out |= self.of(f, c["a"][1], depth, seen)
                elif nm == "dstr_copy" and ai == 1:
                    out |= self.of(f, c["a"][0], depth, seen)
            for ci, c in self.formats(f, v):
                out |= self.fmt(f, c)
            if v in f.params:
                pi = f.params.index(v)
                cs = [(g, ci) for g, ci in self.ix.calls.get(f.id, ()) if g.id in self.ids]
                cs += self.fpc.get(f.id, [])
                for g, ci in cs:
                    a = g.nodes[ci]["a"]
                    if pi < len(a):
                        out |= self.of(g, a[pi], depth + 1, seen)
            return out or {"?"}
        return {"?"}

    def blank(self, f, n):
        """an empty buffer"""
        if n["k"] != "init":
            return False
        if n.get("r") != "dstr_t":
            return False
        d = dict((a, b) for a, b in n["i"] if isinstance(a, str))
        if "data" not in d:
            return True
        if "len" in d:
            return f.nodes[d["len"]].get("cv") == 0
        return f.nodes[d["data"]].get("cv") == 0

    def init(self, f, n, depth, seen):
        out = set()
        strs = [m.get("s", "") for c in [x for _, x in n["i"]] if c >= 0 for _, m in walk(f, c) if m["k"] == "str"]
        if strs:
            return {strs[-1].split("/")[-1]}
        for fld, c in n["i"]:
            if c < 0:
                continue
            for x, m in walk(f, c):
                if m["k"] == "ref" and m["d"] in ("l", "p", "g"):
                    out |= self.of(f, x, depth + 1, seen)
                elif m["k"] == "mem" and m.get("r") != "dstr_t":
                    out |= self.of(f, x, depth + 1, seen)
        return out or {"?"}

    def formats(self, f, v):
        c = f._cache.get("fmts")
        if c is None:
            c = {}
            for i, n in enumerate(f.nodes):
                if n["k"] == "call" and n.get("fn") in FMTS:
                    for x, m in walk(f, n["a"][0]):
                        if m["k"] == "ref" and m["d"] in ("l", "p"):
                            c.setdefault(m["v"], []).append((i, n))
            f._cache["fmts"] = c
        return c.get(v, ())

    def fmt(self, f, c):
        out = set()
        for x, m in walk(f, c["a"][1]):
            if m["k"] == "str":
                out.add(m.get("s", "").split("/")[-1].replace("%x", "*"))
        return out


# ---- A01 -------------------------------------------------------------------
# (argument with the path, argument with a mode or -1)
SINKS = {"dfopen": (0, 1), "dfopen_path": (0, 1), "dopen": (0, -1), "dopen_path": (0, -1),
         "dstr_write_file": (0, -1), "dstr_write_file2": (1, -1), "dstr_write_path": (0, -1), "dstr_write_path2": (1, -1),
         "jdump_file": (1, -1), "jdump_path": (1, -1), "gen_key": (1, -1), "gen_key_path": (1, -1),
         "acme_account_to_path": (1, -1), "acme_account_to_file": (1, -1), "fopen": (0, 1),
         "file_copy": (1, -1), "file_copy_path": (1, -1)}
EXISTS = ("exists_path", "exists_path2", "dexists")
RENAMES = ("drename_atomic", "drename_atomic_path", "drename", "drename_path", "rename")
READERS = ("dstr_read_file", "dstr_read_path", "dstr_read_path2", "dstr_read_file2")
DECODERS = ("json_parse", "read_pem_encoded_privkey", "read_pem_encoded_pubkey", "jspec_read")
# state that is never regenerated: losing it loses an account, a token or an identity
CRITICAL = ("api_token.json", "installation.json", "*.nonce", "fprs_seen", "mailboxes_synced", "cert.pem", "key.pem")


def writes_to(f, n, T):
    """tails of the file a call writes in place, or None"""
    s = SINKS.get(n.get("fn"))
    if s is None:
        return None
    pa, ma = s
    if ma >= 0:
        m = f.nodes[strip(f, n["a"][ma])]
        mode = m.get("s", "") if m["k"] == "str" else "w"
        if not mode.startswith(("w", "a", "r+")):
            return None
    elif n["fn"] in ("dopen", "dopen_path"):
        fl = f.nodes[strip(f, n["a"][1])].get("cv")
        if fl is not None and fl & 3 == 0:
            return None
    return T.of(f, n["a"][pa])


def temp(t, moved):
    return t.endswith((".tmp", ".temp", ".new")) or t in moved


class Replace(Rule):
    """q: the temporary file: 0 none, open, bad, full, placed"""
    BODY = ("jdump", "_fmt", "dstr_fwrite", "PEM_write_bio_PrivateKey", "dstr_write", "dstr_dofmt")

    def __init__(self, ix, T, moved):
        super().__init__(ix)
        self.T, self.moved = T, moved

    def is_event(self, fn, i, n):
        return n["k"] == "call" and (n.get("fn") in SINKS or n.get("fn") in RENAMES or n.get("fn") in self.BODY
                                     or n.get("fn") in ("dfclose", "dfclose2") or n.get("fn") in EXISTS)

    def on_call(self, sim, fn, i, n, q, args, env):
        name = n.get("fn")
        if name in RENAMES:
            if q == 0:
                return None
            self.count["renames"] += 1
            if q not in ("full", "placed"):
                self.report(sim, fn, i, "puts a file in place that may not have been completely written")
            return [(0, "placed"), (NZ, q)]
        if name in EXISTS:
            if q == "full" and len(args) > 1 and isinstance(args[1], tuple) and args[1][0] == "&" and any(
                    temp(t, self.moved) for t in self.T.of(fn, n["a"][0])):
                e1 = dict(env)
                e1[args[1][1]] = 1
                return [(0, q, e1), (NZ, q)]
            return None
        if name in SINKS:
            if not fn.file.startswith(PERSIST):
                return None
            t = writes_to(fn, n, self.T)
            if t is None:
                return [(0, q), (NZ, q)] if name[0] == "d" else None
            self.count["temporaries"] += 1
            if name in ("dfopen", "dfopen_path", "fopen", "dopen", "dopen_path"):
                return [(0 if name[0] == "d" else NZ, "open"), (NZ if name[0] == "d" else 0, q)]
            return [(0, "full"), (NZ, "bad")]
        if q == 0:
            return None
        if name in ("dfclose", "dfclose2"):
            e1, e0 = dict(env), dict(env)
            if name == "dfclose2" and isinstance(args[0], tuple) and args[0][0] == "&":
                e1[args[0][1]] = 0
                e0[args[0][1]] = 0
            return [(0, "full" if q == "open" else q, e1), (NZ, "bad", e0)]
        if name in self.BODY and q == "open":
            if name == "_fmt" and not any(m["k"] == "init" and m.get("r") == "_writer_file_t"
                                          for x, m in walk(fn, n["a"][0])):
                return None
            return [(0, q), (NZ, "bad")]
        return None

    def on_exit(self, sim, fn, q, ret, env):
        if q in ("open", "bad", "full") and success(ret):
            self.report(sim, fn, -1, "reports success without putting the new file in place")


class Torn(Rule):
    """q: 'torn' once a half-written file was met, 'regen' once it was
    written anew"""
    keep_err_types = True

    def __init__(self, ix):
        super().__init__(ix)
        self.stuck = set()

    def is_event(self, fn, i, n):
        return n["k"] == "call" and (n.get("fn") in READERS or n.get("fn") in DECODERS or n.get("fn") in SINKS)

    def on_call(self, sim, fn, i, n, q, args, env):
        name = n.get("fn")
        if name in READERS:
            if q:
                return [(0, q)]
            return [(0, q), (("S", "E_OPEN"), q)]
        if name in DECODERS:
            if q == "regen" or q == "torn":
                return [(0, q)]
            return [(0, q), (("S", "E_PARAM"), "torn")]
        if name in SINKS:
            return [(0, "regen"), (NZ, "regen")]
        return None

    def on_exit(self, sim, fn, q, ret, env):
        if q == "torn" and isinstance(ret, tuple) and ret[0] == "S" and ret[1] == "E_PARAM":
            self.stuck.add(fn.id)


def a01(prog, ix, res, tier):
    T = Tails(prog, ix)
    fns = state_fns(prog)
    ids = {f.id for f in fns}
    # files that reach their place by renaming
    moved, placed, movers = set(), set(), {}
    for f in fns:
        for i, n in enumerate(f.nodes):
            if n["k"] == "call" and n.get("fn") in RENAMES and len(n["a"]) > 1:
                src, dst = T.of(f, n["a"][0]), T.of(f, n["a"][1])
                moved |= src - {"?", "*"}
                placed |= dst - {"?", "*"}
                movers.setdefault(f.id, []).append(i)
    for t in CRITICAL:
        if t not in placed:
            res.stats.setdefault("not seen renamed into place", []).append(t)
    res.floor("state files put in place by renaming", len([t for t in CRITICAL if t in placed]), 5)
    # in-place writes
    loaders = ix.reach_up({f.id for f in prog.funcs.values() if f.name in READERS})
    inplace = {}
    n_w = 0
    for f in fns:
        for i, n in enumerate(f.nodes):
            if n["k"] != "call" or n.get("fn") not in SINKS:
                continue
            ts = writes_to(f, n, T)
            if ts is None:
                continue
            n_w += 1
            copy = n["fn"].startswith("file_copy")
            for t in sorted(ts):
                if temp(t, moved) and t not in placed:
                    continue
                if t in CRITICAL:
                    res.add(f, n["L"], "writes %s in place instead of through a temporary file" % t)
                elif copy and t not in ("?", "*"):
                    res.add(f, n["L"], "copies into %s in place instead of through a temporary file" % t)
                elif t not in ("?", "*"):
                    inplace.setdefault(t, []).append((f, n["L"]))
    res.floor("writes of state files", n_w, 12)
    # each temporary file is complete before it is moved
    rule = Replace(ix, T, moved)
    s = Sim(rule)
    roots = [m for m in movers if any(n["k"] == "call" and writes_to(prog.funcs[m], n, T) is not None
                                      for n in prog.funcs[m].nodes)]
    # a helper that only writes or only moves is examined with its callers
    for m in movers:
        if m not in roots:
            roots += [c for c in ix.callers.get(m, ()) if c in ids and any(
                n["k"] == "call" and writes_to(prog.funcs[c], n, T) is not None for n in prog.funcs[c].nodes)]
    s.run([(r, 0, ()) for r in sorted(set(roots))])
    res.add_sim(s, "replacement")
    res.floor("functions replacing a state file", len(set(roots)), 5)
    # whatever is written in place is regenerated when found damaged
    anchors, direct = {}, {}
    for f in fns:
        for i, n in enumerate(f.nodes):
            if n["k"] != "call" or not (n.get("fn") in READERS or n.get("f") in loaders):
                continue
            g = prog.funcs.get(n.get("f"))
            for k, a in enumerate(n["a"]):
                ty = g.vars[g.params[k]][1] if g is not None and k < len(g.params) else f.nodes[strip(f, a)].get("T", "")
                if "string_builder_t" not in ty and ty not in ("const char *", "char *"):
                    continue
                for t in T.of(f, a):
                    anchors.setdefault(t, set()).add(f.id)
                    if n.get("f") not in ids or n.get("fn") in READERS:
                        direct.setdefault(f.id, set()).add(t)
    tol = Torn(ix)
    ts = Sim(tol)
    allr = sorted({a for t in anchors for a in anchors[t]})
    ts.run([(a, "", ()) for a in allr])
    res.add_sim(ts, "loaders")
    n_t = 0
    for t, where in sorted(inplace.items()):
        as_ = set(anchors.get(t, ()))
        if "*" in t:
            as_ |= {a for a in anchors.get("?", ()) if prog.funcs[a].file == where[0][0].file}
        bad = None
        if not as_:
            bad = "nothing that reads it"
        else:
            n_t += 1

            def ok(a, seen):
                if a not in tol.stuck:
                    return True
                cs = [c for c in ix.callers.get(a, ()) if c in as_ and c not in seen]
                return bool(cs) and all(ok(c, seen | {c}) for c in cs)
            low = [a for a in as_ if t in direct.get(a, ()) or "?" in direct.get(a, ())]
            for a in sorted(low or as_):
                if not ok(a, {a}):
                    bad = "%s gives up on a damaged one" % prog.funcs[a].name
        if bad:
            f, L = where[0]
            res.add(f, L, "%s is written in place, but %s" % (t, bad))
    res.stats["files written in place and regenerated when damaged"] = sorted(inplace)
    res.floor("loaders that regenerate", n_t, 3)


# ---- A02 -------------------------------------------------------------------
TOKEN = "api_token_t"


def nonce_lhs(fn, lhs):
    m = fn.nodes[strip(fn, lhs)]
    if m["k"] == "mem" and m["f"] == "nonce" and m.get("r") == TOKEN:
        return True
    if m["k"] == "un" and m["o"] == "*":
        b = fn.nodes[strip(fn, m["s"])]
        return b["k"] == "ref" and b.get("T", "").startswith("uint64_t") and "nonce" in b.get("n", "")
    return False


class Nonce(Rule):
    """q: 0 nothing, 1 incremented, 2 saved"""
    follow_fp = True
    ptr_types = ("bool *",)

    def __init__(self, ix, sends, fields, savers, relays):
        super().__init__(ix)
        self.sends, self.fields, self.savers, self.relays = sends, fields, savers, relays

    def hit(self, fn, n):
        if fn.id in self.relays:
            return False
        return n.get("f") in self.sends or fp_field(fn, n) in self.fields

    def is_event(self, fn, i, n):
        if n["k"] == "call":
            return self.hit(fn, n) or n.get("fn") in RENAMES
        return n["k"] == "un" and n["o"] in ("++", "p++") and nonce_lhs(fn, n["s"])

    def on_assign(self, sim, fn, i, lhs, val, q, env):
        n = fn.nodes[i]
        if nonce_lhs(fn, lhs):
            if n["k"] == "un" and n["o"] in ("++", "p++"):
                self.count["increments"] += 1
                return 1
            if n["k"] == "asg" and n["o"] == "+=":
                return 1
            if n["k"] == "asg":
                m = fn.nodes[strip(fn, n["r"])]
                if m["k"] == "bin" and m["o"] == "+":
                    return 1
        return q

    def on_call(self, sim, fn, i, n, q, args, env):
        if n.get("fn") in RENAMES:
            return [(0, 2 if q == 1 else q), (NZ, q)]
        if self.hit(fn, n):
            self.count["requests"] += 1
            if q != 2:
                self.report(sim, fn, i, "sends a token-authenticated request without having saved an incremented nonce")
            return [(None, 0, dict(env))]
        return None


def a02(prog, ix, res, tier):
    fns = shipped(prog)
    ids = {f.id for f in fns}
    # what signs a request with a token's secret
    sign = set()
    for f in fns:
        for i, n in enumerate(f.nodes):
            if n["k"] == "call" and n.get("fn") == "hmac" and f.file.startswith(PERSIST):
                if any(m["k"] == "mem" and m.get("r") == TOKEN for x, m in walk(f, n["a"][0])):
                    sign.add(f.id)
    from r_tls import up_to_public
    sends = up_to_public(prog, ix, sign)
    relays = ix.reach_up(sign)
    fields = {fld for fld, ts in ix.fp.items() if ts & relays and any(
        TOKEN in prog.funcs[t].vars[v][1] for t in ts & relays for v in prog.funcs[t].params)}
    # functions that only relay: they take the token as a parameter
    rel = {t for t in relays if any(TOKEN in prog.funcs[t].vars[v][1] for v in prog.funcs[t].params)}
    res.floor("functions that sign with a token", len(sends), 2)
    res.floor("interfaces to them", len(fields), 2)
    # the signed body carries the nonce
    n_body = 0
    for t in sorted(sends):
        f = prog.funcs[t]
        near = [f] + [prog.funcs[n["f"]] for n in f.nodes if n["k"] == "call" and n.get("f") in prog.funcs
                      and prog.funcs[n["f"]].file == f.file]
        hit = False
        for g in near:
            for i, n in enumerate(g.nodes):
                if n["k"] == "call" and any(
                        m["k"] == "mem" and m["f"] == "nonce" and m.get("r") == TOKEN for a in n["a"]
                        for x, m in walk(g, a)):
                    hit = True
        if hit:
            n_body += 1
        else:
            res.add(f, f.line, "signs a request that does not carry the token's nonce")
    # the saved file carries the nonce
    savers = []
    T = Tails(prog, ix)
    for f in fns:
        if not f.file.startswith(PERSIST):
            continue
        for i, n in enumerate(f.nodes):
            if n["k"] == "call" and n.get("fn") in RENAMES and len(n["a"]) > 1 and \
                    {"api_token.json", "*.nonce"} & T.of(f, n["a"][1]):
                savers.append(f)
                if not any((m["k"] == "mem" and m["f"] == "nonce" and m.get("r") == TOKEN) or
                           (m["k"] == "un" and m["o"] == "*" and nonce_lhs(f, j)) for j, m in enumerate(f.nodes)):
                    res.add(f, n["L"], "saves a token without its nonce")
                break
    res.floor("places a nonce is saved", len(savers), 2)
    rule = Nonce(ix, sends, fields, {f.id for f in savers}, rel)
    s = Sim(rule)
    roots = set()
    for f in fns:
        if f.id in rel:
            continue
        if any(n["k"] == "call" and rule.hit(f, n) for n in f.nodes):
            roots |= {f.id}
    # start where the nonce is taken: a static helper is entered from its callers
    top = set()
    for r in roots:
        f = prog.funcs[r]
        cs = {c for c in ix.callers.get(r, ()) if c in ids}
        takes = any(n["k"] == "call" and ("f" in n or "fe" in n) and any(
            g in ix.reach_up({x.id for x in savers}) for g in ix.targets(f, n)) for n in f.nodes)
        top |= {r} if takes or not (f.static and cs) else cs
    s.run([(r, 0, ()) for r in sorted(top)])
    res.add_sim(s, "requests")
    res.floor("token-authenticated requests", rule.count["requests"], 3)
    res.floor("nonce increments", rule.count["increments"], 2)


# ---- A03 -------------------------------------------------------------------
class Finalize(Rule):
    """a certificate is only asked for once its key is on disk"""

    def __init__(self, ix, fields, done):
        super().__init__(ix)
        self.fields, self.done = fields, done
        self.guards = frozenset(done)

    def is_event(self, fn, i, n):
        return n["k"] == "call" and fp_field(fn, n) in self.fields

    def on_call(self, sim, fn, i, n, q, args, env):
        if fp_field(fn, n) in self.fields:
            self.count["orders"] += 1
            if not any(env.get(("g",) + d) == 1 for d in self.done):
                self.report(sim, fn, i, "asks for a certificate before the key for it was saved")
            return [(None, q, dict(env))]
        return None


class KeyErr(Rule):
    """q: whether the key generation's error was looked at"""

    def __init__(self, ix, done, param):
        super().__init__(ix)
        self.done, self.param = done, param

    def is_event(self, fn, i, n):
        return n["k"] == "asg" and field_of(fn, n["l"]) in self.done

    def on_call(self, sim, fn, i, n, q, args, env):
        return None

    def on_assign(self, sim, fn, i, lhs, val, q, env):
        if field_of(fn, lhs) in self.done and val == 1:
            self.count["marks"] += 1
            if truth(env.get(("v", self.param))) is not False:
                self.report(sim, fn, i, "counts a failed key generation as done")
        return q


class KeySaved(Rule):
    """q: 0, 'read' the key file was read, 'have' the key in memory came from it"""
    ptr_types = ()

    def __init__(self, ix, T):
        super().__init__(ix)
        self.T = T

    def is_event(self, fn, i, n):
        return n["k"] == "call" and n.get("fn") in READERS + ("read_pem_encoded_privkey", "gen_key", "gen_key_path",
                                                              "EVP_RSA_gen", "EVP_PKEY_keygen")

    def on_call(self, sim, fn, i, n, q, args, env):
        name = n.get("fn")
        if name in READERS:
            return [(0, "read"), (NZ, 0)]
        if name == "read_pem_encoded_privkey":
            return [(0, "have" if q == "read" else 0), (NZ, 0)]
        if name in ("gen_key", "gen_key_path"):
            self.count["generated"] += 1
            return [(0, 0), (NZ, 0)]
        return None

    def on_exit(self, sim, fn, q, ret, env):
        if success(ret) and q != "have":
            self.report(sim, fn, -1, "hands out a key other than the one saved to disk")


class Install(Rule):
    """q: (certificate checked or written, key in place)"""

    def __init__(self, ix, T):
        super().__init__(ix)
        self.T = T

    def is_event(self, fn, i, n):
        return n["k"] == "call" and (n.get("fn") in RENAMES or n.get("fn") in (
            "exists_path", "exists_path2", "dexists", "PEM_read_X509", "PEM_read_bio_X509") or n.get("fn") in SINKS)

    def on_call(self, sim, fn, i, n, q, args, env):
        name = n.get("fn")
        cert, key = q
        if name in ("exists_path", "exists_path2", "dexists"):
            if "keynew.pem" in self.T.of(fn, n["a"][0]) and isinstance(args[1], tuple) and args[1][0] == "&":
                e1, e0 = dict(env), dict(env)
                e1[args[1][1]], e0[args[1][1]] = 1, 0
                return [(0, (cert, key), e1), (0, (cert, True), e0), (NZ, q)]
            return None
        if name in ("PEM_read_X509", "PEM_read_bio_X509"):
            return [(NZ, (True, key)), (0, q)]
        if name in RENAMES and len(n["a"]) > 1:
            src, dst = self.T.of(fn, n["a"][0]), self.T.of(fn, n["a"][1])
            if "key.pem" in dst and "keynew.pem" in src:
                self.count["keys"] += 1
                return [(0, (cert, True)), (NZ, q)]
            if "cert.pem" in dst:
                self.count["certs"] += 1
                if not key:
                    self.report(sim, fn, i, "puts a certificate in place before the key it belongs to")
                if not cert:
                    self.report(sim, fn, i, "puts a certificate in place that may be incomplete")
                return [(0, q), (NZ, q)]
            return None
        if name in SINKS:
            t = writes_to(fn, n, self.T)
            if t and "certnew.pem" in t:
                self.count["written"] += 1
                return [(0, (True, key)), (NZ, q)]
            if t is not None:
                return [(0, q), (NZ, q)]
        return None


def a03(prog, ix, res, tier):
    fns = [f for f in shipped(prog) if f.file.startswith("libcitm/")]
    T = Tails(prog, ix)
    # where a generated key arrives: marks itself done
    done, arrive = set(), set()
    for f in fns:
        keys = [fld for i, n in enumerate(f.nodes) if n["k"] == "asg" for fld in [field_of(f, n["l"])]
                if fld and "EVP_PKEY" in prog.records.get(fld[0], {}).get(fld[1], "") and
                f.nodes[strip(f, n["r"])].get("cv") != 0]
        recs = {r for r, _ in keys}
        par = [v for v in f.params if "EVP_PKEY" in f.vars[v][1]]
        if not par:
            continue
        for n in f.nodes:
            if n["k"] == "asg":
                fld = field_of(f, n["l"])
                if fld and fld[0] in recs and prog.records[fld[0]].get(fld[1]) in ("bool", "_Bool") and \
                        f.nodes[strip(f, n["r"])].get("cv") == 1:
                    done.add(fld)
                    arrive.add(f.id)
    if not done:
        raise Broken("no flag for a finished key generation")
    for t in sorted(arrive):
        f = prog.funcs[t]
        ep = [v for v in f.params if f.vars[v][1] == "derr_t"]
        if not ep:
            res.add(f, f.line, "cannot tell whether key generation failed")
            continue
        r = KeyErr(ix, done, ep[0])
        s = Sim(r)
        s.run([(t, 0, ())])
        res.add_sim(s, "key arrival")
        res.floor("places a key is marked done", r.count["marks"], 1)
    # nobody else marks it
    for f in fns:
        for n in f.nodes:
            if n["k"] == "asg" and field_of(f, n["l"]) in done and f.id not in arrive and \
                    f.nodes[strip(f, n["r"])].get("cv") != 0:
                res.add(f, n["L"], "marks a key as generated without one")
    # orders
    fin = {g.id for g in prog.funcs.values() if g.file.startswith("libacme/") and g.name.startswith("acme_finalize")}
    fin = fin or {g.id for g in prog.funcs.values() if "finalize" in g.name and g.file.startswith("libacme/")}
    fields = {fld for fld, ts in ix.fp.items() if any(
        n["k"] == "call" and n.get("f") in fin for t in ts if t in prog.funcs for n in prog.funcs[t].nodes)}
    rule = Finalize(ix, fields, done)
    s = Sim(rule)
    roots = {f.id for f in fns if any(n["k"] == "call" and fp_field(f, n) in fields for n in f.nodes)}
    top = set()
    for r in roots:
        f = prog.funcs[r]
        reads = any(n["k"] == "mem" and (n.get("r"), n["f"]) in done for n in f.nodes)
        cs = ix.callers.get(r, set())
        top |= {r} if reads or not (f.static and cs) else cs
    s.run([(r, 0, ()) for r in sorted(top)])
    res.add_sim(s, "orders")
    res.floor("certificate requests", rule.count["orders"], 3)
    # the key handed out is the key on disk
    makers = {f.id for f in fns if any(n["k"] == "call" and n.get("fn") in ("gen_key", "gen_key_path") for n in f.nodes)
              and any("EVP_PKEY" in f.vars[v][1] for v in f.params)}
    r = KeySaved(ix, T)
    s = Sim(r)
    s.run([(m, 0, ()) for m in sorted(makers)])
    res.add_sim(s, "key generation")
    res.floor("key generators", len(makers), 1)
    # installing
    inst = {f.id for f in fns if any(n["k"] == "call" and n.get("fn") in RENAMES and len(n["a"]) > 1 and
                                     "cert.pem" in T.of(f, n["a"][1]) for n in f.nodes)}
    top = set()
    for t in inst:
        top |= set(ix.callers.get(t, ())) or {t}
    r = Install(ix, T)
    r.fork_ret = True
    s = Sim(r)
    s.run([(t, (False, False), ()) for t in sorted(top)])
    res.add_sim(s, "installation")
    res.floor("certificates put in place", r.count["certs"], 2)
    res.floor("keys put in place", r.count["keys"], 2)


# ---- A04 -------------------------------------------------------------------
DISCARDS = ("dunlink", "dunlink_path", "dremove", "remove_path", "rm_rf", "rm_rf_path", "unlink", "remove", "gen_key",
            "gen_key_path")


class Transient(Rule):
    """q: a state file could not be read, which says nothing about it"""
    keep_err_types = True

    def __init__(self, ix, T):
        super().__init__(ix)
        self.T = T

    def drops(self, fn, n):
        name = n.get("fn")
        if not fn.file.startswith(PERSIST):
            return False
        if name in SINKS:
            t = writes_to(fn, n, self.T)
        elif name in DISCARDS:
            t = self.T.of(fn, n["a"][0])
        else:
            return False
        return t is not None and not all(x.endswith((".tmp", "_log")) for x in t)

    def is_event(self, fn, i, n):
        return n["k"] == "call" and (n.get("fn") in READERS or n.get("fn") in DISCARDS or n.get("fn") in SINKS)

    def on_call(self, sim, fn, i, n, q, args, env):
        name = n.get("fn")
        if name in READERS:
            self.count["reads"] += 1
            return [(0, False), (("S", "E_OPEN"), True), (("S", "E_OS"), True), (("S", "E_FIXEDSIZE"), False)]
        if self.drops(fn, n):
            self.count["discards"] += 1
            if q:
                self.report(sim, fn, i, "discards or replaces a state file only because it could not be read just now")
            return [(0, q), (NZ, q)]
        return None


def a04(prog, ix, res, tier):
    T = Tails(prog, ix)
    fns = state_fns(prog)
    ids = {f.id for f in fns}
    rule = Transient(ix, T)
    s = Sim(rule)
    readers = ix.reach_up({f.id for f in prog.funcs.values() if f.name in READERS})
    roots = {f.id for f in fns if f.id in readers and f.name not in READERS and
             any(n["k"] == "call" and rule.drops(f, n) for n in f.nodes)}
    s.run([(r, False, ()) for r in sorted(roots)])
    res.add_sim(s, "loaders that discard")
    res.floor("functions that load and discard state", len(roots), 6)
    res.floor("reads", rule.count["reads"], 6)
    res.floor("discards", rule.count["discards"], 6)


CHECKS = {
    "A01": dict(check=a01, level="other",
                technique="typestate analysis of every function that replaces a state file (opened, written, closed, "
                          "renamed), with path-name dataflow to find every write of a state file and an error-injecting "
                          "path analysis of the loaders of files written in place",
                assumptions=["rename(2) replaces a file atomically"]),
    "A02": dict(check=a02, level="other",
                technique="path-sensitive typestate analysis (nonce incremented, saved, request sent) over every path to "
                          "every token-authenticated request, through the function-pointer interfaces",
                assumptions=["one process uses a token file at a time"]),
    "A03": dict(check=a03, level="other",
                technique="path-sensitive analysis of the certificate state machine and of key and certificate "
                          "installation, with path-name dataflow",
                assumptions=["the certificate authority returns certificates for the key it was given"]),
    "A04": dict(check=a04, level="other",
                technique="error-injecting path analysis: every read of a state file fails with a transient error, and "
                          "no path from there may delete or rewrite it",
                assumptions=[]),
}
