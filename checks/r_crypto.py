"""C01-C06: encryption, decryption, key handling, secrets, randomness."""
import re
import collections

from front import Broken
from sim import Rule, Sim, NZ, KILL, truth
from util import (strip, walk, loops_of, root_var, var_defs, calls, lit, field_of, is_mem, Sources, guards_of, block_of,
                  dominates, reach_down, files_under)
from r_imap import enum_val
from prims import success


# error handling helpers: never treated as opaque
ERRH = ("pvt_", "trace", "TRACE", "drop", "DROP", "is_error", "steal_")


def bodies(prog, *files):
    return [f for f in prog.funcs.values() if f.file in files]


def mem_fields(fn, i):
    """(record, field) pairs of every member access inside expression i"""
    return {(m.get("r"), m["f"]) for x, m in walk(fn, i) if m["k"] == "mem"}


def locals_in(fn, i):
    return {m["v"] for x, m in walk(fn, i) if m["k"] == "ref" and m["d"] in ("l", "p")}


def fp_calls(fn, i):
    """interface members called inside expression i, following local definitions"""
    out = set()
    seen = set()
    work = [i]
    while work:
        e = work.pop()
        for x, m in walk(fn, e):
            if m["k"] == "call" and "fe" in m:
                g = fn.nodes[strip(fn, m["fe"])]
                if g["k"] == "mem":
                    out.add(g["f"])
            elif m["k"] == "call":
                out.add(m.get("fn"))
            elif m["k"] == "mem":
                out.add(m["f"])
            elif m["k"] == "ref" and m["d"] == "l" and m["v"] not in seen:
                seen.add(m["v"])
                work += list(var_defs(fn, m["v"]))
    return out


# ---- C01 -------------------------------------------------------------------
CONTENT = ("ie_append_cmd_t", "content")


class Upload(Rule):
    """q = (body, out): the APPEND body is 'plain' or 'enc'; out = progress of
    the encryption output: none, started, updated, finished"""
    follow_fp = False

    def __init__(self, ix):
        super().__init__(ix)
        self.guards = frozenset([("sc_t", "passthru_pre"), ("sc_t", "passthru_sent"), ("imap_cmd_t", "type")])
        self.exits = set()

    EV = ("encrypter_start", "encrypter_update", "encrypter_update_stream", "encrypter_finish", "imap_cmd_new",
          "encrypter_free", "encrypter_new")

    def is_event(self, fn, i, n):
        if fn.file.startswith("libcitm/"):
            if n["k"] == "call" and n.get("fn") in self.EV:
                return True
            if n["k"] == "asg" and is_mem(fn, n["l"], *CONTENT):
                return True
        return False

    def on_call(self, sim, fn, i, n, q, args, env):
        name = n.get("fn")
        if name not in self.EV or not fn.file.startswith("libcitm/"):
            return None
        body, out = q
        if name == "encrypter_start":
            self.count["start"] += 1
            if "all_keys" not in fp_calls(fn, n["a"][1]):
                self.report(sim, fn, i, "upload encrypted to something other than the user's complete set of keys")
            return [(0, (body, "started")), (NZ, (body, "none"))]
        if name in ("encrypter_update", "encrypter_update_stream"):
            src = CONTENT in mem_fields(fn, n["a"][1]) or any(
                CONTENT in mem_fields(fn, d) for v in locals_in(fn, n["a"][1]) for d in var_defs(fn, v))
            good = out in ("started", "updated") and src
            return [(0, (body, "updated" if good else "none")), (NZ, (body, "none"))]
        if name == "encrypter_finish":
            return [(0, (body, "finished" if out == "updated" else "none")), (NZ, (body, "none"))]
        if name in ("encrypter_new", "encrypter_free"):
            return None
        # a command for the server is created
        self.count["cmd"] += 1
        t = args[2]
        if (t is None or t == self.append) and body != "enc":
            self.report(sim, fn, i, "an upload command is created while its body is not encrypted")
        return [(None, q)]

    def on_assign(self, sim, fn, i, lhs, val, q, env):
        if is_mem(fn, lhs, *CONTENT):
            n = fn.nodes[i]
            if n["k"] == "asg" and fn.file.startswith("libcitm/"):
                self.count["content"] += 1
                old = CONTENT in mem_fields(fn, n["r"])
                return ("enc" if q[1] == "finished" and not old else "plain", q[1])
        return q

    def on_exit(self, sim, fn, q, ret, env):
        self.exits.add((q, ret, env.get(("g", "sc_t", "passthru_pre"), None),
                        env.get(("g", "sc_t", "passthru_sent"), None)))


def c01(prog, ix, res, tier):
    ap = enum_val(prog, "IMAP_CMD_APPEND")
    root = ix.one("handle_cmd", "libcitm/sc.c")
    if root is None:
        raise Broken("no function handle_cmd")
    r = Upload(ix)
    r.append = ap
    s = Sim(r)
    PRE, SENT = ("g", "sc_t", "passthru_pre"), ("g", "sc_t", "passthru_sent")
    seen = set()
    work = [(("plain", "none"), 0, 0)]
    nx = 0
    while work:
        q, pre, sent = work.pop()
        if (q, pre, sent) in seen:
            continue
        seen.add((q, pre, sent))
        bind = [(("g", "imap_cmd_t", "type"), ap)]
        if pre is not None:
            bind.append((PRE, pre))
        if sent is not None:
            bind.append((SENT, sent))
        r.exits = set()
        s.run([(root.id, q, tuple(bind))])
        for q2, ret, p2, s2 in r.exits:
            nx += 1
            if truth(ret) is True:
                continue        # the session is torn down
            if p2 == 0 and s2 == 0:
                continue        # command complete
            work.append((q2, p2, s2))
    res.add_sim(s, "upload")
    res.floor("phases of an upload command", len(seen), 2)
    res.floor("encryption starts", r.count["start"], 1)
    res.floor("APPEND body replacements", r.count["content"], 1)
    res.floor("upstream command creations reached by APPEND", r.count["cmd"], 1)

    # no other upload: APPEND commands are created nowhere else
    n = 0
    for f, i, c in calls(prog, "imap_cmd_new"):
        n += 1
        a = strip(f, c["a"][2])
        if f.nodes[a].get("cv") == ap and f.file.startswith(("libcitm/", "libimaildir/")):
            res.add(f, c["L"], "an upload command is built outside of the encrypting path")
    res.floor("IMAP command creations", n, 20)

    # the set of all keys is complete
    for f in bodies(prog, "libcitm/keydir.c"):
        lists = collections.defaultdict(list)
        for f2, i, c in ((f, i, c) for i, c in enumerate(f.nodes) if c["k"] == "call" and c.get("fn", "").startswith(
                ("link_list_append", "link_list_prepend"))):
            for fld in ("peers", "all_keys"):
                if ("keydir_t", fld) in mem_fields(f, c["a"][0]):
                    lists[fld].append(i)
        for i in lists["peers"]:
            res.obligations += 1
            b = block_of(f, i)
            if not any(both_ways(f, i, j) for j in lists["all_keys"]):
                res.add(f, f.nodes[i]["L"], "a key becomes a peer without joining the set of all keys")
        res.stats["peer insertions"] = res.stats.get("peer insertions", 0) + len(lists["peers"])
    new = ix.one("keydir_new", "libcitm/keydir.c")
    if new is None:
        raise Broken("no function keydir_new")
    k = Mykey(ix)
    s2 = Sim(k)
    s2.run([(new.id, ("none", False), ())])
    res.add_sim(s2, "keydir_new")
    res.floor("own key joins all_keys", k.count["join"], 1)
    if res.stats.get("peer insertions", 0) < 2:
        res.broken.append("floor: peer insertions")
    # kd_all_keys returns that set
    for t in sorted(ix.fp.get(("keydir_i", "all_keys"), ())):
        g = prog.funcs[t]
        for i, m in enumerate(g.nodes):
            if m["k"] == "ret" and m["s"] >= 0:
                res.obligations += 1
                if ("keydir_t", "all_keys") not in mem_fields(g, m["s"]) and g.file == "libcitm/keydir.c":
                    res.add(g, m["L"], "all_keys() returns something other than the set of all keys")

    # the encrypter itself: every key given is sealed to, and only sealed output leaves
    st = ix.one("encrypter_start")
    e = Encrypter(ix)
    s3 = Sim(e)
    for name in ("encrypter_start", "encrypter_update", "encrypter_finish"):
        f = ix.one(name, "libcrypto/crypto.c")
        if f is None:
            raise Broken("no function " + name)
        s3.run([(f.id, "none", ())])
    res.add_sim(s3, "encrypter")
    res.floor("EVP_Seal calls", e.count["seal"], 3)
    for f, i, c in calls(prog, "EVP_SealInit"):
        # the count handed to OpenSSL covers every key copied
        res.obligations += 1
        srcs = sealed_count(f, c["a"][6])
        if ("encrypter_t", "nkeys") not in srcs:
            res.add(f, c["L"], "EVP_SealInit is not given the number of keys collected")
    collect(prog, res)
    # plaintext never reaches the output of the encrypter
    for name in ("encrypter_update", "encrypter_update_stream", "encrypter_finish", "encrypter_start"):
        f = ix.one(name, "libcrypto/crypto.c")
        ins = [v for v in f.params if f.vars[v][0] == "in"] if f else []
        for i, m in enumerate(f.nodes if f else ()):
            if m["k"] != "call" or m.get("fn") not in COPIERS:
                continue
            src, dst = COPIERS[m["fn"]]
            res.obligations += 1
            sv = locals_in(f, m["a"][src])
            if any(tainted(f, v, ins) for v in sv):
                res.add(f, m["L"], "plaintext is copied around the cipher")
    return


NPUB = ("S", "npub")
COPIERS = {"dstr_append": (1, 0), "dstr_append_quiet": (1, 0), "dstr_copy": (0, 1), "bin2b64_stream": (0, 1),
           "bin2b64": (0, 1), "memcpy": (1, 0)}


def tainted(fn, v, ins, seen=None):
    seen = seen or set()
    if v in ins:
        return True
    if v in seen:
        return False
    seen.add(v)
    return any(tainted(fn, w, ins, seen) for d in var_defs(fn, v) for w in locals_in(fn, d)
               if "*" in fn.vars[w][1] or fn.vars[w][1].startswith("dstr"))


def sealed_count(fn, i, seen=None):
    seen = seen if seen is not None else set()
    out = set(mem_fields(fn, i))
    for v in locals_in(fn, i):
        if v not in seen:
            seen.add(v)
            for d in var_defs(fn, v):
                out |= sealed_count(fn, d, seen)
    return out


def collect(prog, res):
    """every key of the list handed to the encrypter becomes one of the keys sealed to"""
    n_sites = 0
    for f in prog.funcs.values():
        if f.file != "libcrypto/crypto.c":
            continue
        puts, incs, seal, orig = set(), set(), set(), set()
        fails = set()
        for b, bl in f.blocks.items():
            for i in bl.elems:
                n = f.nodes[i]
                if n["k"] == "asg" and f.nodes[strip(f, n["l"])]["k"] == "idx" \
                        and ("encrypter_t", "pkeys") in mem_fields(f, n["l"]):
                    puts.add(b)
                t = n["l"] if n["k"] == "asg" and n["o"] in ("=", "+=") else \
                    n["s"] if n["k"] == "un" and n["o"] in ("++", "p++") else None
                if t is not None and f.nodes[strip(f, t)]["k"] == "mem" and ("encrypter_t", "nkeys") in mem_fields(f, t):
                    incs.add(b)
                if n["k"] == "call":
                    if n.get("fn") == "EVP_SealInit":
                        seal.add(b)
                    if n.get("fn") == "pvt_orig":
                        orig.add(b)
                    if n.get("fn") == "pvt_prop" and len(bl.succs) == 2:
                        fails.add((b, bl.succs[0]))
        if not puts:
            continue
        n_sites += len(puts)
        res.functions.add(f.id)

        def reach(starts, stop, within=None):
            seen, todo = set(), list(starts)
            while todo:
                b = todo.pop()
                if b < 0 or b in seen or b in stop or within is not None and b not in within:
                    continue
                seen.add(b)
                todo += [s for s in f.blocks[b].succs if (b, s) not in fails]
            return seen
        goal = seal or {b for b, bl in f.blocks.items() if any(f.nodes[i]["k"] == "ret" for i in bl.elems)}
        for h, L in loops_of(f).items():
            # the loop around the list, not the one-round loops of the error macros
            if not puts & set(L) or not any(m["k"] == "call" and m.get("fn", "").endswith("_container_of")
                                            for b in L for i in f.blocks[b].elems for m in [f.nodes[i]]):
                continue
            res.obligations += 3
            for b in L:
                c = f.blocks[b].cond
                if c is not None and all(
                        ("*" in m.get("T", "") if m["k"] == "ref" else "link_t" in m.get("T", "")) or m.get("d") == "f"
                        for _, m in walk(f, c) if m["k"] in ("ref", "mem")):
                    continue        # the end of the list
                for s in f.blocks[b].succs:
                    if s >= 0 and s not in L and (b, s) not in fails and b not in orig and reach([s], orig) & goal:
                        res.add(f, f.blocks[b].tline or f.line, "collecting the keys to encrypt to can stop before the end of the list")
            for what, bl in (("leave a key out", puts), ("collect a key without counting it", incs)):
                # a round: from the header back to it
                r = reach([s for s in f.blocks[h].succs if s in L], bl | orig, set(L) - {h})
                if any(h in [s for s in f.blocks[b].succs if (b, s) not in fails] for b in r):
                    res.add(f, f.blocks[h].tline or f.line, "collecting the keys to encrypt to can " + what)
            break
        else:
            res.add(f, f.line, "the keys to encrypt to are not collected from the whole list")
    res.floor("places that collect keys to encrypt to", n_sites, 1)


AEAD = re.compile(r"^EVP_\w*(gcm|ccm|ocb|poly1305|siv)", re.I)


def aead(prog, res, name, arg):
    """the cipher named at calls of `name` is an authenticated one"""
    for f, i, c in calls(prog, name):
        if not f.file.startswith("libcrypto/"):
            continue
        res.obligations += 1
        todo, seen, fns = [c["a"][arg]], set(), set()
        while todo:
            x = todo.pop()
            fns |= {m.get("fn") for _, m in walk(f, x) if m["k"] == "call"}
            for v in locals_in(f, x):
                if v not in seen:
                    seen.add(v)
                    todo += var_defs(f, v)
        bad = sorted(x for x in fns if x and x.startswith("EVP_") and not AEAD.match(x) and x != "EVP_CIPHER_fetch")
        if bad:
            res.add(f, c["L"], "%s is given %s, which does not authenticate what it decrypts" % (name, bad[0]))


def both_ways(fn, i, j):
    """j happens whenever i does: same block, or one dominates the other and
    nothing branches away in between"""
    a, b = block_of(fn, i), block_of(fn, j)
    if a == b:
        return True
    x, y = (a, b) if dominates(fn, a, b) else (b, a)
    if not dominates(fn, x, y):
        return False
    seen = set()
    while x != y:
        if x in seen or x < 0:
            return False
        seen.add(x)
        ss = {s for s in fn.blocks[x].succs if s >= 0}
        if len(ss) != 1:
            return False
        x = ss.pop()
    return True


class Mykey(Rule):
    """q = (mykey loaded, joined)"""

    def is_event(self, fn, i, n):
        return n["k"] == "call" and n.get("fn", "").startswith("link_list_") and fn.file == "libcitm/keydir.c"

    def on_call(self, sim, fn, i, n, q, args, env):
        if n.get("fn") in ("link_list_append", "link_list_prepend") and fn.file == "libcitm/keydir.c" \
                and ("keydir_t", "all_keys") in mem_fields(fn, n["a"][0]):
            if ("keydir_t", "mykey") in mem_fields(fn, n["a"][1]):
                self.count["join"] += 1
                return [(None, (q[0], True))]
        return None

    def on_exit(self, sim, fn, q, ret, env):
        if success(ret) and not q[1]:
            self.report(sim, fn, None, "the key directory is ready but the own key is not among all keys")


SEAL = ("EVP_Seal", "EVP_EncryptUpdate", "EVP_CIPHER_CTX_ctrl")


class Encrypter(Rule):
    """success of the encrypter functions implies the EVP_Seal calls succeeded"""
    guards = frozenset([("encrypter_t", "nkeys")])

    def is_event(self, fn, i, n):
        return n["k"] == "call" and n.get("fn", "").startswith(SEAL)

    def on_call(self, sim, fn, i, n, q, args, env):
        name = n.get("fn", "")
        if name.startswith(SEAL):
            self.count["seal"] += 1
            if name == "EVP_SealInit":
                # returns its own key count on success
                e = dict(env)
                e[("g", "encrypter_t", "nkeys")] = NPUB
                c = sim.cell(fn, strip(fn, n["a"][6]), env)
                if c:
                    e[c] = NPUB
                return [(NPUB, q if q == "bad" else "ok", e), (0, "bad", e)]
            return [(1, q if q == "bad" else "ok"), (0, "bad"), (-1, "bad")]
        return None

    def on_exit(self, sim, fn, q, ret, env):
        if q == "bad" and success(ret):
            self.report(sim, fn, None, "reports success although a cipher operation failed")


# ---- C02 -------------------------------------------------------------------
TAGLEN = ("decrypter_t", "tag.len")
DEC = ("key_found", "iv_found", "message_started", "tag_found")
# EVP_OpenUpdate and EVP_SealUpdate are macros of OpenSSL
EVP_INT = ("EVP_OpenInit", "EVP_DecryptUpdate", "EVP_OpenFinal", "EVP_CIPHER_CTX_ctrl")


def tag_cell(fn, n):
    if n["f"] == "len" and n.get("r") == "dstr_t":
        b = fn.nodes[strip(fn, n["b"])]
        if b["k"] == "un" and b["o"] == "&":
            b = fn.nodes[strip(fn, b["s"])]
        if b["k"] == "mem" and b.get("r") == "decrypter_t" and b["f"] == "tag":
            return TAGLEN
    return None


class Finish(Rule):
    """q = subset of {tag, final, init, bad}"""
    guards = frozenset([TAGLEN] + [("decrypter_t", f) for f in DEC])
    guard_cell = staticmethod(tag_cell)

    def is_event(self, fn, i, n):
        return fn.file == "libcrypto/crypto.c" and (
            (n["k"] == "call" and n.get("fn") in EVP_INT) or (n["k"] == "mem" and n.get("r") == "decrypter_t" and n["f"] in DEC))

    def on_call(self, sim, fn, i, n, q, args, env):
        name = n.get("fn")
        if name not in EVP_INT:
            return None
        self.count[name] += 1
        add = None
        if name == "EVP_CIPHER_CTX_ctrl":
            if fn.nodes[strip(fn, n["a"][1])].get("cv") != SET_TAG:
                return None
            add = "tag"
            L = args[2]
            t = env.get(("g",) + TAGLEN)
            if ("decrypter_t", "tag") not in mem_fields(fn, n["a"][3]):
                self.report(sim, fn, i, "the authentication tag checked is not the one of the message")
            if isinstance(L, int) and L != 16:
                self.report(sim, fn, i, "an authentication tag shorter than 16 bytes is used")
        elif name == "EVP_OpenFinal":
            add = "final" if "tag" in q else None
        elif name == "EVP_OpenInit":
            add = "init"
            for f, what in (("key_found", "a key for this recipient"), ("iv_found", "an initialisation vector")):
                if env.get(("g", "decrypter_t", f)) != 1:
                    self.report(sim, fn, i, "decryption starts without having found " + what)
        return [(1, q | {add} if add else q), (0, q | {"bad"}), (-1, q | {"bad"})]

    def on_assign(self, sim, fn, i, lhs, val, q, env):
        n = fn.nodes[lhs]
        if n["k"] == "mem" and n.get("r") == "decrypter_t" and n["f"] == "message_started" and val != 0:
            self.count["started"] += 1
            if "init" not in q or "bad" in q:
                self.report(sim, fn, i, "the message counts as started although the cipher was not initialised")
        return q

    def on_exit(self, sim, fn, q, ret, env):
        if not success(ret):
            return
        self.count["ok " + fn.name] += 1
        if "bad" in q:
            self.report(sim, fn, None, "reports success although a cipher operation failed")
        if fn.name == "decrypter_finish":
            if self.want is not None:
                self.report(sim, fn, None, self.want)
            elif not {"tag", "final"} <= q:
                self.report(sim, fn, None, "decryption succeeds without the authentication check")


SET_TAG = 0x11     # EVP_CTRL_AEAD_SET_TAG


def eq_polarity(fn, cond, t):
    """(call node, True) if the condition having truth t means 'equal' for a
    comparison call inside it"""
    i = strip(fn, cond)
    n = fn.nodes[i]
    if n["k"] == "un" and n["o"] == "!":
        return eq_polarity(fn, n["s"], not t)
    if n["k"] == "bin" and n["o"] in ("==", "!="):
        for a, b in ((n["l"], n["r"]), (n["r"], n["l"])):
            c = fn.nodes[strip(fn, b)].get("cv")
            if c is not None:
                want = t if n["o"] == "==" else not t
                return eq_polarity(fn, a, want if c else not want)
    if n["k"] == "bin" and n["o"] == "&&" and t:
        return eq_polarity(fn, n["l"], True) or eq_polarity(fn, n["r"], True)
    if n["k"] == "bin" and n["o"] == "||" and not t:
        return eq_polarity(fn, n["l"], False) or eq_polarity(fn, n["r"], False)
    if n["k"] == "ref" and n["d"] == "l":
        ds = list(var_defs(fn, n["v"]))
        if len(ds) == 1:
            return eq_polarity(fn, ds[0], t)
        return None
    if n["k"] == "call":
        name = n.get("fn") or ""
        if name.startswith(("dstr_eq", "dstr_ieq")):
            return (i, t)
        if name.startswith(("dstr_cmp", "memcmp", "dstr_icmp")):
            return (i, not t)
    return None


class Store(Rule):
    """q = plaintext authenticated?  one function at a time"""
    WRITERS = {"dstr_write_path": 1, "dstr_write_file": 1, "dstr_write": 1, "dstr_fwrite": 1, "dstr_append": 1,
               "dstr_copy": 0}

    def __init__(self, ix, outs):
        super().__init__(ix)
        self.outs = outs
        self.inner = None

    def is_event(self, fn, i, n):
        return n["k"] == "call" and n.get("fn", "").startswith("decrypter_")

    def on_call(self, sim, fn, i, n, q, args, env):
        name = n.get("fn")
        if name == "decrypter_start":
            return [(0, "open"), (NZ, "none")]
        if name == "decrypter_finish":
            self.count["finish"] += 1
            return [(0, "ok"), (NZ, "fail")]
        if name in self.WRITERS and q != "ok" and fn.file.startswith("libcitm/"):
            v = root_var(fn, n["a"][self.WRITERS[name]])
            if v and v[0] in self.outs.get(fn.id, ()):
                self.report(sim, fn, i, "decrypted text is stored before its authentication check")
        if n.get("f") in self.wrap:
            return None
        return sim.opaque(fn, i, n, q, args, env) if "f" in n and not name.startswith(ERRH) else None

    def on_exit(self, sim, fn, q, ret, env):
        if success(ret) and q in ("open", "fail", "none"):
            self.report(sim, fn, None, "succeeds without a successful authentication check")


def c02(prog, ix, res, tier):
    fin = ix.one("decrypter_finish", "libcrypto/crypto.c")
    par = ix.one("decrypter_parse_metadata", "libcrypto/crypto.c")
    upd = ix.one("decrypter_update", "libcrypto/crypto.c")
    if not (fin and par and upd):
        raise Broken("decrypter functions not found")
    aead(prog, res, "EVP_OpenInit", 1)
    r = Finish(ix)
    s = Sim(r)
    T = ("g",) + TAGLEN
    ST = ("g", "decrypter_t", "message_started")
    TF = ("g", "decrypter_t", "tag_found")
    lens = list(range(0, 18)) + [24, 32, 64]
    for L in lens:
        r.want = None if L == 16 else "decryption succeeds with an authentication tag which is not 16 bytes long"
        for tf in (0, 1):
            if L and not tf:
                continue
            s.run([(fin.id, frozenset(), ((T, L), (ST, 1), (TF, tf)))])
        if L == 16:
            good = r.count["ok decrypter_finish"]
    r.want = "decryption succeeds although no message was started"
    s.run([(fin.id, frozenset(), ((T, 16), (ST, 0)))])
    r.want = None
    s.run([(upd.id, frozenset(["init"]), ((ST, 1),)), (upd.id, frozenset(), ((ST, 0),)), (par.id, frozenset(), ())])
    res.add_sim(s, "decrypter")
    res.floor("tag lengths tried", len(lens), 20)
    res.floor("successful decryptions with a full tag", good, 1)
    for name in EVP_INT:
        res.floor("calls of " + name, r.count[name], 1)
    res.floor("message starts", r.count["started"], 1)

    # a key counts as found only if the fingerprint in the message is ours
    n = 0
    for f in bodies(prog, "libcrypto/crypto.c"):
        for i, m in enumerate(f.nodes):
            if m["k"] == "asg" and is_mem(f, m["l"], "decrypter_t", "key_found") and f.nodes[strip(f, m["r"])].get("cv") != 0:
                n += 1
                ok = False
                for cond, t in guards_of(f, block_of(f, i)):
                    p = eq_polarity(f, cond, t)
                    if p and p[1] and ("keypair_t", "fingerprint") in mem_fields(f, p[0]):
                        ok = True
                cond = eq_polarity(f, m["r"], True)
                if cond and cond[1] and ("keypair_t", "fingerprint") in mem_fields(f, cond[0]):
                    ok = True
                res.obligations += 1
                if not ok:
                    res.add(f, m["L"], "a key counts as found without matching the own fingerprint")
    res.floor("key_found assignments", n, 1)

    # users of the decrypter
    outs = collections.defaultdict(set)
    users = set()
    for f, i, c in calls(prog, "decrypter_update"):
        v = root_var(f, c["a"][2])
        if v:
            outs[f.id].add(v[0])
    for f, i, c in calls(prog, "decrypter_start"):
        users.add(f.id)
    nf = 0
    for t in sorted(users):
        r2 = Store(ix, outs)
        r2.wrap = {g for g in reach_down(prog, t, 3) if any(
            m["k"] == "call" and m.get("fn", "").startswith("decrypter_finish") for m in prog.funcs[g].nodes)} - {t} \
            if t in prog.funcs else set()
        s2 = Sim(r2)
        s2.run([(t, "none", ())])
        res.add_sim(s2, prog.funcs[t].name)
        nf += r2.count["finish"]
    res.floor("functions which decrypt", len(users), 2)
    res.floor("authentication checks by users", nf, 2)


# ---- C03 -------------------------------------------------------------------
PARSE = {"dstr_tou": 1, "dstr_tou_quiet": 1, "dstr_toi": 1, "dstr_tosize": 1, "dstr_tou64": 1, "dstr_tou32": 1,
         "dstr_tosize_quiet": 1, "dstr_toul": 1, "dstr_toull": 1, "dstr_tou64_quiet": 1, "dstr_tou32_quiet": 1}
NARROW = ("unsigned int", "int", "uint32_t", "int32_t", "unsigned short", "uint16_t")


def lin(fn, i, depth=0, keep=()):
    """linear form {atom: coefficient}, constant; None if not linear.  keep =
    variables which are not expanded"""
    i = strip(fn, i)
    n = fn.nodes[i]
    if "cv" in n:
        return collections.Counter(), n["cv"]
    if n["k"] == "bin" and n["o"] in ("+", "-"):
        a, b = lin(fn, n["l"], depth, keep), lin(fn, n["r"], depth, keep)
        if a is None or b is None:
            return None
        c = collections.Counter(a[0])
        sg = 1 if n["o"] == "+" else -1
        for k, v in b[0].items():
            c[k] += sg * v
        return collections.Counter({k: v for k, v in c.items() if v}), a[1] + sg * b[1]
    if n["k"] == "ref" and n["d"] in ("l", "p"):
        ds = list(var_defs(fn, n["v"]))
        if n["d"] == "l" and n["v"] not in keep and len(ds) == 1 and depth < 6 and not any(
                m["k"] == "un" and m["o"] in ("++", "--", "p++", "p--") and fn.nodes[strip(fn, m["s"])].get("v") == n["v"]
                for m in fn.nodes):
            from util import addr_args
            if not addr_args(fn, n["v"]):
                return lin(fn, ds[0], depth + 1, keep)
        return collections.Counter({("v", n["v"]): 1}), 0
    return collections.Counter({atom(fn, i): 1}), 0


def atom(fn, i):
    n = fn.nodes[strip(fn, i)]
    k = n["k"]
    if k == "mem":
        return ("m", atom(fn, n["b"]), n["f"])
    if k == "un":
        return atom(fn, n["s"]) if n["o"] in ("*", "&") else ("u", n["o"], atom(fn, n["s"]))
    if k == "ref":
        return ("v", n["v"]) if n["d"] in ("l", "p") else ("r", n.get("n"))
    return ("node", i)


def var_of(fn, i):
    n = fn.nodes[strip(fn, i)]
    return n["v"] if n["k"] == "ref" and n["d"] in ("l", "p") else None


def reaches(fn, a, b, avoid):
    """some path from node a to node b which does not come past node avoid"""
    pa, pb, pv = pos(fn, a), pos(fn, b), pos(fn, avoid)
    if pa is None or pb is None:
        return True
    if pa[0] == pb[0] and pa[1] < pb[1] and not (pv and pv[0] == pa[0] and pa[1] < pv[1] < pb[1]):
        return True
    if pv and pv[0] == pa[0] and pv[1] > pa[1]:
        return False
    seen = set()
    work = [s for s in fn.blocks[pa[0]].succs if s >= 0]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x == pb[0]:
            if not (pv and pv[0] == x and pv[1] < pb[1]):
                return True
        if pv and pv[0] == x:
            continue
        work += [s for s in fn.blocks[x].succs if s >= 0]
    return False


def pos(fn, i):
    c = fn._cache.get("pos")
    if c is None:
        c = {}
        for b in fn.blocks.values():
            seq = list(b.elems) + ([b.cond] if b.cond is not None else [])
            for k, e in enumerate(seq):
                for x, m in walk(fn, e):
                    c.setdefault(x, (b.id, k))
            for k, e in enumerate(seq):
                c[e] = (b.id, k)
        fn._cache["pos"] = c
    return c.get(i)


def buf_of_len(fn, i):
    """X of an expression X.len / X->len (through casts)"""
    n = fn.nodes[strip(fn, i)]
    if n["k"] == "mem" and n["f"] == "len" and n.get("r") == "dstr_t":
        return atom(fn, n["b"])
    return None


def width_ok(fn, i):
    """no 32 bit addition inside expression i whose operands are not constant"""
    for x, m in walk(fn, i):
        if m["k"] == "bin" and m["o"] in ("+", "-", "*", "<<") and "cv" not in m and m.get("T") in NARROW:
            return False
    return True


def implies_less(fn, cond, t, L, X):
    """does the condition with truth t establish L < X.len (without wrapping)?"""
    i = strip(fn, cond)
    n = fn.nodes[i]
    if n["k"] == "un" and n["o"] == "!":
        return implies_less(fn, n["s"], not t, L, X)
    if n["k"] == "bin" and n["o"] == "||" and not t:
        return implies_less(fn, n["l"], False, L, X) or implies_less(fn, n["r"], False, L, X)
    if n["k"] == "bin" and n["o"] == "&&" and t:
        return implies_less(fn, n["l"], True, L, X) or implies_less(fn, n["r"], True, L, X)
    if n["k"] != "bin" or n["o"] not in ("<", "<=", ">", ">="):
        return False
    if not width_ok(fn, n["l"]) or not width_ok(fn, n["r"]):
        return False
    a, b = lin(fn, n["l"], keep=(L,)), lin(fn, n["r"], keep=(L,))
    if a is None or b is None:
        return False
    o = n["o"]
    if not t:
        o = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}[o]
    if o in (">", ">="):
        a, b = b, a
        o = "<" if o == ">" else "<="
    # a o b, want L + 1 <= X.len: b - a == X.len - L - k
    d = collections.Counter(b[0])
    for k, v in a[0].items():
        d[k] -= v
    d = {k: v for k, v in d.items() if v}
    if d != {("m", X, "len"): 1, ("v", L): -1}:
        return False
    # a <= b - (1 if strict): L <= X.len + (bconst - aconst) - strict, need <= X.len - 1
    return (b[1] - a[1]) - (1 if o == "<" else 0) <= -1


def c03(prog, ix, res, tier):
    nl = ni = na = 0
    for f in bodies(prog, "libcrypto/crypto.c"):
        Ls = {}
        for i, m in enumerate(f.nodes):
            if m["k"] == "call" and m.get("fn") in PARSE:
                a = f.nodes[strip(f, m["a"][PARSE[m["fn"]]])]
                if a["k"] == "un" and a["o"] == "&":
                    v = var_of(f, a["s"])
                    if v is not None and root_var(f, m["a"][0]):
                        Ls.setdefault(v, []).append(i)
        # copies of a parsed length
        ch = True
        while ch:
            ch = False
            for v in range(len(f.vars)):
                if v not in Ls and f.vars[v][2] == "l" and any(var_of(f, d) in Ls for d in var_defs(f, v)):
                    Ls[v] = []
                    ch = True
        if Ls:
            res.functions.add(f.id)
        nl += len(Ls)
        for L in Ls:
            name = f.vars[L][0]
            checked = []     # (cond, truth, X)
            for i, m in enumerate(f.nodes):
                if m["k"] == "bin" and m["o"] in ("+", "-", "*", "<<") and m.get("T") in NARROW and "cv" not in m:
                    if L in (var_of(f, m["l"]), var_of(f, m["r"])):
                        na += 1
                        res.obligations += 1
                        if not bounded(f, i, L):
                            res.add(f, m["L"], "arithmetic on the length '%s' taken from the message can wrap" % name)
                if m["k"] == "idx" and L in locals_in(f, m["i"]):
                    ni += 1
                    res.obligations += 1
                    b = f.nodes[strip(f, m["b"])]
                    X = atom(f, b["b"]) if b["k"] == "mem" and b["f"] == "data" else None
                    li = lin(f, m["i"], keep=(L,))
                    off = li[1] if li and dict(li[0]) == {("v", L): 1} else None
                    if X is None or off is None or off > 0 or not guarded(f, i, L, X):
                        res.add(f, m["L"], "'%s' indexes the buffer without a valid check against the bytes available" % name)
            # flags which declare the data valid
        for i, m in enumerate(f.nodes):
            if m["k"] == "call" and m.get("fn") in ("dstr_append_quiet", "memcpy") and f.name == "decrypter_parse_metadata":
                d = mem_fields(f, m["a"][0])
                fixed = [x for x in d if x[0] == "decrypter_t"]
                if not fixed:
                    continue
                na += 1
                res.obligations += 1
                if not any(const_eq(f, c, t, Ls) for c, t in guards_of(f, block_of(f, i))):
                    res.add(f, m["L"], "data from the message is put into a fixed buffer without checking its length")
    res.floor("lengths taken from messages", nl, 3)
    res.floor("index obligations", ni, 3)
    res.floor("arithmetic and copy obligations", na, 1)

    # the plaintext buffer is grown before the cipher writes into it
    r = Grow(ix)
    s = Sim(r)
    for f in bodies(prog, "libcrypto/crypto.c"):
        if any(m["k"] == "call" and m.get("fn") in Grow.EVP for m in f.nodes):
            s.run([(f.id, "small", ())])
    res.add_sim(s, "plaintext buffer")
    res.floor("cipher outputs into the plaintext buffer", r.count["out"], 1)


def bounded(f, i, L):
    """the arithmetic at node i happens where L < X.len is established"""
    for cond, t in guards_of(f, block_of(f, i)):
        for x, m in walk(f, cond):
            X = buf_of_len(f, x) if m["k"] == "mem" else None
            if X is not None and implies_less(f, cond, t, L, X) and stable(f, cond, i, [("v", L)]):
                return True
    return False


def guarded(f, i, L, X):
    for cond, t in guards_of(f, block_of(f, i)):
        if implies_less(f, cond, t, L, X) and stable(f, cond, i, [("v", L), X]):
            return True
    return False


def stable(f, cond, use, atoms):
    """no assignment to any of the atoms between the check and the use"""
    for a in atoms:
        if a[0] != "v":
            # a member: any assignment to that member or call given the object
            return not any(m["k"] == "asg" and atom(f, m["l"]) == a and reaches(f, cond, x, cond) and reaches(f, x, use, cond)
                           for x, m in enumerate(f.nodes))
        for x, m in enumerate(f.nodes):
            hit = False
            if m["k"] == "asg" and var_of(f, m["l"]) == a[1]:
                hit = True
            elif m["k"] == "asg":
                l = f.nodes[strip(f, m["l"])]
                hit = l["k"] == "mem" and l["f"] in ("len", "data") and var_of(f, l["b"]) == a[1] and f.vars[a[1]][1] == "dstr_t"
            elif m["k"] == "un" and m["o"] in ("++", "--", "p++", "p--") and var_of(f, m["s"]) == a[1]:
                hit = True
            elif m["k"] == "call" and m.get("fn") not in ("dstr_sub", "dstr_find", "dstr_cmp"):
                hit = any(f.nodes[strip(f, q)]["k"] == "un" and f.nodes[strip(f, q)]["o"] == "&"
                          and var_of(f, f.nodes[strip(f, q)]["s"]) == a[1] for q in m["a"]) and m.get("fn") in (
                              set(PARSE) | {"dstr_leftshift", "dstr_append", "dstr_grow", "dstr_copy"})
            if hit and reaches(f, cond, x, cond) and reaches(f, x, use, cond):
                return False
    return True


def const_eq(f, cond, t, Ls):
    i = strip(f, cond)
    n = f.nodes[i]
    if n["k"] == "un" and n["o"] == "!":
        return const_eq(f, n["s"], not t, Ls)
    if n["k"] == "bin" and n["o"] == "||" and not t:
        return const_eq(f, n["l"], False, Ls) or const_eq(f, n["r"], False, Ls)
    if n["k"] == "bin" and ((n["o"] == "==" and t) or (n["o"] == "!=" and not t)):
        for a, b in ((n["l"], n["r"]), (n["r"], n["l"])):
            if f.nodes[strip(f, b)].get("cv") is not None and (var_of(f, a) in Ls or buf_of_len(f, a) is not None):
                return True
    return False


class Grow(Rule):
    """q = room for the next cipher output?"""
    EVP = ("EVP_OpenUpdate", "EVP_DecryptUpdate")

    def is_event(self, fn, i, n):
        return n["k"] == "call" and n.get("fn") in self.EVP

    def on_call(self, sim, fn, i, n, q, args, env):
        name = n.get("fn")
        if name in ("dstr_grow", "dstr_grow0", "dstr_grow_quiet"):
            return [(0, ("room", i)), (NZ, q)]
        if name in self.EVP:
            self.count["out"] += 1
            if q == "small":
                self.report(sim, fn, i, "the cipher writes into a buffer which was not grown for it")
            else:
                g = fn.nodes[q[1]]
                want = lin(fn, n["a"][4])
                have = lin(fn, g["a"][1])
                out = ("m", atom(fn, g["a"][0]), "len")
                ok = want is not None and have is not None
                if ok:
                    d = collections.Counter(have[0])
                    for k, v in want[0].items():
                        d[k] -= v
                    d[out] -= 1
                    ok = not {k: v for k, v in d.items() if v} and have[1] >= want[1]
                if not ok:
                    self.report(sim, fn, i, "the plaintext buffer is not grown by the number of bytes decrypted")
            return [(1, "small"), (0, "small"), (-1, "small")]
        return None


# ---- C04 -------------------------------------------------------------------
XKS = ("fpr_watcher_t", "xkeysynced")


def takes(fn, rec):
    return any(fn.vars[v][1].replace("const ", "").startswith(rec) for v in fn.params)


class Alert(Rule):
    """q: idle, needed (alert owed), clear (decision: no alert), alerted,
    known (recorded), failed (recording failed)"""

    def __init__(self, ix, decide, record, plain):
        super().__init__(ix)
        self.decide, self.record, self.plain = decide, record, plain

    def is_event(self, fn, i, n):
        return n["k"] == "call" and (n.get("f") in self.decide or n.get("f") in self.record or n.get("fn") in (
            "imaildir_add_local_file", "dstr_write_path") or (
                n.get("fn", "").startswith("link_list_") and fn.file == "libcitm/keydir.c"))

    def on_call(self, sim, fn, i, n, q, args, env):
        t, name = n.get("f"), n.get("fn", "")
        if t in self.decide:
            self.count["decisions"] += 1
            if q in ("needed", "clear", "alerted"):
                self.report(sim, fn, i, "a key is passed over: its fingerprint was checked but never recorded")
            return [(0, "clear"), (1, "needed")]
        if t in self.record:
            self.count["records"] += 1
            if q == "needed":
                self.report(sim, fn, i, "a new key is recorded as known before the alert for the user is stored")
            if q in ("idle", "failed"):
                self.report(sim, fn, i, "a key is recorded as known without deciding whether the user must be alerted")
            return [(0, "known"), (NZ, "failed")]
        if name == "imaildir_add_local_file":
            self.count["alerts"] += 1
            return [(0, "alerted" if q == "needed" else q), (NZ, q)]
        if name == "dstr_write_path":
            path = {x for v in locals_in(fn, n["a"][0]) for d in var_defs(fn, v) for x in mem_fields(fn, d)} | mem_fields(
                fn, n["a"][0])
            v = root_var(fn, n["a"][1])
            if ("keydir_t", "key_path") in path:
                self.count["key files"] += 1
                if q != "known":
                    self.report(sim, fn, i, "a new key is stored before it was announced and recorded")
            elif v and v[0] in self.plain.get(fn.id, ()):
                self.count["plaintexts"] += 1
                if q not in ("known", "idle"):
                    self.report(sim, fn, i, "the message is delivered before its new recipients were announced")
            return [(0, q), (NZ, q)]
        if name in ("link_list_append", "link_list_prepend") and fn.file == "libcitm/keydir.c":
            m = mem_fields(fn, n["a"][0])
            if ("keydir_t", "peers") in m or ("keydir_t", "all_keys") in m:
                self.count["trusts"] += 1
                if q != "known":
                    self.report(sim, fn, i, "a new key is used before it was announced and recorded")
        return None

    def on_exit(self, sim, fn, q, ret, env):
        # (process_msg() may turn a failed alert into delivering the raw message)
        if success(ret) and fn.id in self.strict and q in ("needed", "alerted", "clear"):
            self.report(sim, fn, None, "a key is passed over: its fingerprint was checked but never recorded")


class Record(Rule):
    """q = (memory, file): memory clean/dirty; file none/tmp/saved/touched"""

    def is_event(self, fn, i, n):
        return (n["k"] == "call" and n.get("fn") in ("jsw_ainsert", "jsw_aerase", "dstr_write_path", "touch_path", "touch",
                                                     "drename_atomic_path", "drename_path", "rename")) or (
            n["k"] == "asg" and is_mem(fn, n["l"], *XKS))

    def on_call(self, sim, fn, i, n, q, args, env):
        name = n.get("fn")
        mem, fl = q
        if name == "jsw_ainsert":
            self.count["inserts"] += 1
            return [(None, ("dirty", "none"))]
        if name == "jsw_aerase":
            return [(None, ("clean", fl))]
        if name == "dstr_write_path":
            return [(0, (mem, "tmp")), (NZ, (mem, "none"))]
        if name in ("drename_atomic_path", "drename_path"):
            self.count["saves"] += 1
            return [(0, (mem, "saved" if fl == "tmp" else "none")), (NZ, (mem, "none"))]
        if name in ("touch", "touch_path"):
            return [(0, (mem, "touched")), (NZ, (mem, "none"))]
        return None

    def on_assign(self, sim, fn, i, lhs, val, q, env):
        if is_mem(fn, lhs, *XKS) and val != 0:
            self.count["flag"] += 1
            if q[1] != "touched":
                self.report(sim, fn, i, "the first key sync counts as completed before that is recorded on disk")
        return q

    def on_exit(self, sim, fn, q, ret, env):
        if q[0] == "dirty":
            if success(ret) and q[1] != "saved":
                self.report(sim, fn, None, "reports an entry as recorded which was not written to disk")
            if truth(ret) is not False and q[1] != "saved":
                self.report(sim, fn, None, "keeps an entry in memory although recording it failed")


class Decide(Rule):
    """q = (fprs, synced): True found / False not found / None not looked up"""
    guards = frozenset([XKS])

    def is_event(self, fn, i, n):
        return (n["k"] == "call" and n.get("fn") == "jsw_afind") or (n["k"] == "mem" and (n.get("r"), n["f"]) == XKS)

    def on_call(self, sim, fn, i, n, q, args, env):
        if n.get("fn") != "jsw_afind":
            return None
        m = mem_fields(fn, n["a"][0])
        for k, f in enumerate(("fprs", "synced")):
            if ("fpr_watcher_t", f) in m:
                self.count[f] += 1
                return [(0, q[:k] + (False,) + q[k + 1:]), (NZ, q[:k] + (True,) + q[k + 1:])]
        return None

    def on_exit(self, sim, fn, q, ret, env):
        if truth(ret) is True:
            self.count["alert"] += 1
            return
        if q[0] is True or q[1] is False or env.get(("g",) + XKS) == 0:
            return
        self.report(sim, fn, None, "decides against an alert for an unknown key")


def c04(prog, ix, res, tier):
    W = "libcitm/fpr_watcher.c"
    decide = {f.id for f in bodies(prog, W) if takes(f, "fpr_watcher_t") and f.ret in ("bool", "_Bool")}
    loads = {f.id for f in bodies(prog, W) if any(prog.funcs[g].name == "dstr_read_path" for g in reach_down(prog, f.id, 4))
             or any(m["k"] == "call" and m.get("fn") == "dstr_read_path" for m in f.nodes)}
    keys = {f.id for f in bodies(prog, W) if takes(f, "fpr_watcher_t") and f.id not in loads and f.id not in decide}
    record = set()
    for t in keys:
        f = prog.funcs[t]
        for g in {t} | set(reach_down(prog, t, 2)):
            h = prog.funcs.get(g)
            if h and any(m["k"] == "call" and m.get("fn") == "jsw_ainsert" and ("fpr_watcher_t", "fprs") in mem_fields(
                    h, m["a"][0]) for m in h.nodes):
                record.add(t)
    if not decide or not record:
        raise Broken("fingerprint watcher not found")
    plain = collections.defaultdict(set)
    for f, i, c in calls(prog, "decrypter_update"):
        v = root_var(f, c["a"][2])
        if v:
            plain[f.id].add(v[0])
    r = Alert(ix, decide, record, plain)
    s = Sim(r)
    roots = {t for t in ix.fp.get(("keydir_i", "add_key"), set()) | ix.fp.get(("imaildir_hooks_i", "process_msg"), set())
             if prog.funcs[t].file.startswith("libcitm/")}
    r.strict = {t for t in ix.fp.get(("keydir_i", "add_key"), ())} | {f.id for f, i, c in calls(prog, "decrypter_start")}
    s.run([(t, "idle", ()) for t in sorted(roots | {t for t in r.strict if prog.funcs[t].file.startswith("libcitm/")})])
    res.add_sim(s, "announcements")
    res.floor("handlers of new keys", len(roots), 2)
    for k, lo in (("decisions", 2), ("records", 2), ("alerts", 2), ("key files", 1), ("plaintexts", 1), ("trusts", 2)):
        res.floor(k, r.count[k], lo)
    # the fingerprint decided about is the one recorded
    n = 0
    for t in sorted(s.fns):
        f = prog.funcs[t]
        D = [m["a"][1] for m in f.nodes if m["k"] == "call" and m.get("f") in decide]
        R = [(m["a"][1], m["L"]) for m in f.nodes if m["k"] == "call" and m.get("f") in record]
        for a, L in R:
            n += 1
            res.obligations += 1
            if not any(resolve(f, a) == resolve(f, d) for d in D):
                if D:
                    res.add(f, L, "the fingerprint recorded is not the one which was checked")
    res.floor("recorded fingerprints", n, 1)
    # recording and deciding, in the watcher itself
    w = Record(ix)
    s2 = Sim(w)
    s2.run([(t, ("clean", "none"), ()) for t in sorted(keys) if prog.funcs[t].ret == "derr_t"])
    res.add_sim(s2, "recording")
    res.floor("entries added", w.count["inserts"], 2)
    res.floor("saves", w.count["saves"], 2)
    res.floor("completion flags", w.count["flag"], 1)
    d = Decide(ix)
    s3 = Sim(d)
    s3.run([(t, (None, None), ()) for t in sorted(decide)])
    res.add_sim(s3, "decisions")
    res.floor("decision functions", len(decide), 2)
    res.floor("decisions to alert", d.count["alert"], 2)


def resolve(f, i, depth=0):
    """structural form of an expression with single-definition locals expanded"""
    i = strip(f, i)
    n = f.nodes[i]
    if n["k"] == "ref" and n["d"] == "l" and depth < 5:
        ds = list(var_defs(f, n["v"]))
        if len(ds) == 1:
            return resolve(f, ds[0], depth + 1)
    if n["k"] == "ref":
        return ("v", n.get("v"), n.get("n"))
    if n["k"] == "mem":
        return ("m", resolve(f, n["b"], depth), n["f"])
    if n["k"] == "un":
        return ("u", n["o"], resolve(f, n["s"], depth))
    if n["k"] == "idx":
        return ("i", resolve(f, n["b"], depth), resolve(f, n["i"], depth))
    return ("n", i) if "cv" not in n else ("c", n["cv"])


# ---- C05 -------------------------------------------------------------------
SECNAME = ("pass", "password", "new_password", "confirm_password", "passwd", "secret")
WIPES = {"dstr_zeroize": 0, "dstr_free0": 0, "explicit_bzero": 0, "OPENSSL_cleanse": 0, "memset": 0, "memset_s": 0,
         "SecureZeroMemory": 0}
# (source argument, destination argument)
COPY = {"dstr_copy": (0, 1), "dstr_append": (1, 0), "dstr_append_quiet": (1, 0), "dstr_copystr": (0, 1),
        "bin2b64": (0, 1), "bin2hex": (0, 1), "b642bin": (0, 1), "b64url2bin": (0, 1), "bin2b64url": (0, 1),
        "hex2bin": (0, 1), "dstr_recode": (0, 1)}
DECODE = ("dstr_copy", "b642bin", "b64url2bin", "hex2bin")
CONSUME = {"read_pem_encoded_privkey": 0, "keypair_from_private_pem": 1, "json_to_key": 0, "acme_account_from_dstr": 1,
           "ssl_ctx_read_private_key": 1}
PRODUCE = {"get_password": 0, "EVP_PKEY_get_raw_private_key": 1}
SCOPE = ("libcrypto/", "libacme/", "libcli/", "libcitm/", "api_client.c")


def isdstr(t):
    return t.replace("const ", "").rstrip("*& ").strip() == "dstr_t"


class Secrets:
    def __init__(self, prog, ix):
        self.p, self.ix = prog, ix
        self.fns = [f for f in prog.funcs.values() if f.file.startswith(SCOPE) and "/test_" not in f.file
                    and "fake_" not in f.file and not f.file.endswith("_main.c")]
        self.S = {f.id: set() for f in self.fns}
        self.consume = set()
        self.produce = set()
        self.json = set()
        byname = {f.name: f for f in prog.funcs.values()}
        for n, a in CONSUME.items():
            if n in byname:
                self.consume.add((byname[n].id, a))
        for n, a in PRODUCE.items():
            if n in byname:
                self.produce.add((byname[n].id, a))
        for f in self.fns:
            for k, v in enumerate(f.params):
                if isdstr(f.vars[v][1]) and f.vars[v][0] in SECNAME:
                    if "*" in f.vars[v][1] and "const" not in f.vars[v][1]:
                        self.S[f.id].add(v)
                    else:
                        self.consume.add((f.id, k))
                        self.S[f.id].add(v)
        ch = True
        while ch:
            ch = False
            for f in self.fns:
                if self.step(f):
                    ch = True

    def secret_expr(self, f, i):
        """does the value of expression i contain a secret's content?"""
        S = self.S[f.id]
        work = [i]
        while work:
            x = work.pop()
            n = f.nodes[x]
            if n["k"] == "mem":
                if n["f"] in ("len", "size", "fixed_size"):
                    continue
                if n["f"] in SECNAME and isdstr(n.get("T", "")):
                    return True
            if n["k"] == "call" and n.get("fn") not in ("dstr_sub2", "dstr_sub", "_fmt_dstr", "dstr_from_cstr"):
                continue
            if n["k"] == "ref" and n["d"] in ("l", "p") and n["v"] in S:
                return True
            from model import children
            work += children(n)
        return False

    def var(self, f, i):
        r = root_var(f, i)
        if r and [x for x in r[1] if x != "data"] == [] and isdstr(f.vars[r[0]][1]):
            return r[0]
        return None

    def targets(self, f, n):
        return self.ix.targets(f, n) if n["k"] == "call" else ()

    def step(self, f):
        S = self.S[f.id]
        k0 = (len(S), len(self.consume), len(self.produce), len(self.json))

        def add(v):
            if v is not None:
                S.add(v)
        self.readers(f)
        for i, n in enumerate(f.nodes):
            if n["k"] != "call":
                continue
            name = n.get("fn") or ""
            a = n["a"]
            if name in PRODUCE and PRODUCE[name] < len(a):
                add(self.var(f, a[PRODUCE[name]]))
            for t in self.targets(f, n):
                for k in range(len(a)):
                    if (t, k) in self.consume or (t, k) in self.produce:
                        add(self.var(f, a[k]))
            g = f.nodes[strip(f, n["fe"])] if "fe" in n else None
            fname = name or (g["f"] if g is not None and g["k"] == "mem" else "")
            if fname.endswith("user_prompt") and len(a) >= 3 and f.nodes[strip(f, a[-1])].get("cv") == 1:
                add(self.var(f, a[-2]))
            if name in COPY:
                s, d = COPY[name]
                if self.secret_expr(f, a[s]):
                    add(self.var(f, a[d]))
                if name in DECODE:
                    v = self.var(f, a[d])
                    if v in S:
                        add(self.var(f, a[s]))
            if name == "_fmt" or name == "pvt_fmt":
                if any(self.secret_expr(f, x) for x in a[1:]):
                    for x, m in walk(f, a[0]):
                        if m["k"] == "ref" and m["d"] in ("l", "p") and isdstr(f.vars[m["v"]][1]):
                            add(m["v"])
            if name == "json_parse" and f.id in self.json:
                add(self.var(f, a[0]))
            if name == "json_prep_preallocated" and f.id in self.json:
                add(self.var(f, a[1]))
        # OpenSSL parameters holding a private key
        for v in priv_params(f):
            add(v)
        for k, v in enumerate(f.params):
            if v in S:
                if "*" in f.vars[v][1] and "const" not in f.vars[v][1]:
                    if not f.name.endswith("user_prompt"):      # depends on its last argument
                        self.produce.add((f.id, k))
                else:
                    self.consume.add((f.id, k))
        return (len(S), len(self.consume), len(self.produce), len(self.json)) != k0

    def readers(self, f):
        """does f read a secret out of parsed JSON?"""
        if f.id in self.json:
            return
        for i, n in enumerate(f.nodes):
            if n["k"] == "init" and ("jspec" in (n.get("T") or "") or "jspec" in (n.get("r") or "")):
                for x, m in walk(f, i):
                    if m["k"] == "un" and m["o"] == "&":
                        b = f.nodes[strip(f, m["s"])]
                        if b["k"] == "mem" and b["f"] in SECNAME:
                            self.json.add(f.id)
                            return
                        if b["k"] == "ref" and b["d"] == "l" and b["v"] in self.S[f.id]:
                            self.json.add(f.id)
                            return
            if n["k"] == "ref" and n["d"] == "f" and n["id"] in self.json:
                g = self.p.funcs.get(n["id"])
                if g and any(g.vars[v][1].startswith(("json_ptr_t", "jctx_t")) for v in g.params):
                    self.json.add(f.id)
                    return


def priv_params(f):
    """dstr locals whose memory an OSSL_PARAM names as a private key"""
    out = {}
    for i, n in enumerate(f.nodes):
        if n["k"] == "init" and (n.get("r") or "").startswith(("ossl_param", "OSSL_PARAM")):
            d = dict((a, b) for a, b in n["i"] if a)
            if "key" in d and "data" in d:
                if any(m["k"] == "str" and m["s"] == "priv" for x, m in walk(f, d["key"])):
                    r = root_var(f, d["data"])
                    if r:
                        out[r[0]] = i
    return out


class Wiped(Rule):
    """q = secret variables of the function which hold content"""

    def __init__(self, ix, sec):
        super().__init__(ix)
        self.sec = sec
        self.tracked = {}
        self.jsons = {}
        for f in sec.fns:
            tr = {v for v in sec.S[f.id] if f.vars[v][2] == "l" and isdstr(f.vars[v][1]) and "*" not in f.vars[v][1]
                  and owned(f, v)}
            byval = {v for v in sec.S[f.id] if v in f.params and "*" not in f.vars[v][1] and addr_of(f, v)}
            if tr or byval:
                self.tracked[f.id] = (tr, byval)
            js = {}
            for i, n in enumerate(f.nodes):
                if n["k"] == "call" and n.get("fn") == "json_prep_preallocated":
                    j, t = root_var(f, n["a"][0]), root_var(f, n["a"][1])
                    if j and t:
                        js[j[0]] = t[0]
            self.jsons[f.id] = js
            self.priv = {}

    def is_event(self, fn, i, n):
        return n["k"] == "call" and fn.id in self.tracked

    def on_call(self, sim, fn, i, n, q, args, env):
        if fn.id not in self.tracked:
            return None
        name = n.get("fn") or ""
        tr, byval = self.tracked[fn.id]
        tr = tr | byval
        js = self.jsons[fn.id]
        a = n["a"]
        if name in WIPES:
            r = root_var(fn, a[0])
            if r and r[0] in tr:
                self.count["wipes"] += 1
                return [(None, q - {r[0]})]
            return [(None, q)]
        if name == "dstr_free":
            r = root_var(fn, a[0])
            if r and r[0] in tr and not [x for x in r[1] if x != "data"]:
                if r[0] in q:
                    self.report(sim, fn, i, "'%s' held a secret and is released without being erased" % fn.vars[r[0]][0])
                return [(None, q - {r[0]})]
        if name in ("dstr_new", "dstr_grow", "dstr_new_quiet", "json_prep_preallocated", "dstr_grow_quiet"):
            return sim.opaque(fn, i, n, q, args, env) if "f" in n else None
        if name.startswith("steal_dstr_t"):
            r = root_var(fn, a[0])
            if r and r[0] in tr:
                return [(None, q - {r[0]})]
        if name in ("EVP_PKEY_get_raw_private_key",):
            r = root_var(fn, a[1])
            return [(1, q | ({r[0]} if r and r[0] in tr else frozenset())), (0, q), (-1, q)]
        if name in ("EVP_PKEY_get_params",):
            live = set()
            for v in priv_params(fn):
                if v in tr and self.selects(sim, fn, a[1], args[1], env):
                    live.add(v)
            return [(1, q | live), (0, q), (-1, q)]
        if name.startswith(ERRH):
            return None
        # handed over to an object
        given = set()
        for t in self.ix.targets(fn, n):
            for k, x in enumerate(a):
                m = fn.nodes[strip(fn, x)]
                if m["k"] == "ref" and m.get("v") in q and m["d"] in ("l", "p") and keeps(self.p, t, k):
                    given.add(m["v"])
        if given:
            g = self.p.funcs.get(n.get("f"))
            if g and g.ret == "derr_t":
                return [(0, q - given), (NZ, q)]
            return [(None, q - given)]
        live = set(q)
        pts = self.ptypes(fn, n)
        for k, x in enumerate(a):
            m = fn.nodes[strip(fn, x)]
            t = pts[k] if pts and k < len(pts) else m.get("T", "")
            if "*" not in t or t.startswith("const "):
                continue
            r = root_var(fn, x)
            if r is None:
                continue
            if r[0] in tr and not [y for y in r[1] if y != "data"]:
                self.count["fills"] += 1
                live.add(r[0])
            if r[0] in js and js[r[0]] in tr:
                self.count["fills"] += 1
                live.add(js[r[0]])
        if name in ("_fmt", "pvt_fmt"):
            for x, m in walk(fn, a[0]):
                if m["k"] == "ref" and m["d"] == "l" and m["v"] in tr:
                    live.add(m["v"])
        g = self.p.funcs.get(n.get("f"))
        if g and g.ret in ("bool", "_Bool") and live != set(q):
            return [(1, frozenset(live)), (0, q)]       # "false": there was nothing to hand out
        out = sim.opaque(fn, i, n, frozenset(live), args, env) if "f" in n else None
        return out if out is not None else [(None, frozenset(live))]

    def ptypes(self, fn, n):
        x = self.p.externs.get(n.get("f"))
        if x:
            return x[1]
        g = self.p.funcs.get(n.get("f"))
        if g:
            return [g.vars[v][1] for v in g.params]
        return None

    def selects(self, sim, fn, i, val, env):
        """the parameter array given to OpenSSL includes the private key"""
        m = fn.nodes[strip(fn, i)]
        if m["k"] == "un" and m["o"] == "&":
            b = fn.nodes[strip(fn, m["s"])]
            if b["k"] == "idx":
                v = self.value(fn, b["i"], env)
                if v is not None and v > 0:
                    return False
        return True

    def value(self, fn, i, env):
        n = fn.nodes[strip(fn, i)]
        if "cv" in n:
            return n["cv"]
        if n["k"] == "cond":
            c = fn.nodes[strip(fn, n["c"])]
            if c["k"] == "ref" and ("v", c.get("v")) in env:
                t = truth(env[("v", c["v"])])
                if t is not None:
                    return self.value(fn, n["t"] if t else n["e"], env)
        return None

    def on_assign(self, sim, fn, i, lhs, val, q, env):
        if fn.id not in self.tracked:
            return q
        n = fn.nodes[i]
        if n["k"] != "asg" or n["o"] != "=":
            return q
        r = fn.nodes[strip(fn, n["r"])]
        if r["k"] == "ref" and r.get("v") in q and r["d"] in ("l", "p"):
            l = root_var(fn, lhs)
            if l is None or fn.vars[l[0]][2] != "l" or l[1]:
                return q - {r["v"]}
        return q

    def keep_var(self, fn, v):
        return fn.vars[v][1] in ("bool", "_Bool") and v in fn.params

    def on_exit(self, sim, fn, q, ret, env):
        tr, byval = self.tracked.get(fn.id, ((), ()))
        for v in sorted(q):
            if v in tr:
                self.report(sim, fn, None, "'%s' held a secret and is still readable when the function returns" % fn.vars[v][0])


def keeps(prog, t, k):
    """the callee stores its k-th argument, a dstr_t, in an object"""
    f = prog.funcs.get(t)
    if f is None or k >= len(f.params):
        return False
    v = f.params[k]
    if not isdstr(f.vars[v][1]) or "*" in f.vars[v][1]:
        return False
    for i, n in enumerate(f.nodes):
        if n["k"] == "asg" and n["o"] == "=":
            l = f.nodes[strip(f, n["l"])]
            r = f.nodes[strip(f, n["r"])]
            if l["k"] == "mem" and r["k"] == "ref" and r.get("v") == v and r["d"] == "p":
                return True
        if n["k"] == "init" and any(a and f.nodes[strip(f, b)]["k"] == "ref" and f.nodes[strip(f, b)].get("v") == v and
                                    f.nodes[strip(f, b)]["d"] == "p" for a, b in n["i"]) and not (n.get("r") or "").startswith(
                                        ("_fmt", "fmt")):
            return True
    return False


def addr_of(f, v):
    return any(m["k"] == "un" and m["o"] == "&" and f.nodes[strip(f, m["s"])].get("v") == v
               and f.nodes[strip(f, m["s"])]["k"] == "ref" for m in f.nodes)


def owned(f, v):
    """the local has memory of its own: a buffer, or it is grown"""
    for d in var_defs(f, v):
        n = f.nodes[strip(f, d)]
        if n["k"] == "init":
            for x, m in walk(f, d):
                if m["k"] == "ref" and m["d"] == "l" and m.get("T", "").startswith("char["):
                    return True
    for i, n in enumerate(f.nodes):
        if n["k"] != "call" or n.get("fn") in ("dstr_split2_soft", "dstr_split2"):
            continue
        for x in n["a"]:
            m = f.nodes[strip(f, x)]
            if m["k"] == "un" and m["o"] == "&" and f.nodes[strip(f, m["s"])].get("v") == v \
                    and f.nodes[strip(f, m["s"])]["k"] == "ref" and n.get("fn") in (
                    "dstr_free", "dstr_free0", "dstr_zeroize", "dstr_new", "dstr_copy", "steal_dstr_t"):
                return True
    return False


def c05(prog, ix, res, tier):
    sec = Secrets(prog, ix)
    r = Wiped(ix, sec)
    s = Sim(r)
    roots = []
    nv = 0
    for t, (tr, byval) in sorted(r.tracked.items()):
        f = prog.funcs[t]
        nv += len(tr)
        res.functions.add(t)
        bools = [v for v in f.params if f.vars[v][1] in ("bool", "_Bool")]
        binds = [()]
        for v in bools[:4]:
            binds = [b + ((("v", v), k),) for b in binds for k in (0, 1)]
        roots += [(t, frozenset(byval), b) for b in binds]
    s.run(roots)
    res.add_sim(s, "secrets")
    res.floor("functions with secrets in local buffers", sum(1 for t, x in r.tracked.items() if x[0]), 15)
    res.floor("secret local buffers", nv, 20)
    res.floor("fills of secret buffers", r.count["fills"], 20)
    res.floor("erasures", r.count["wipes"], 20)
    # objects holding secrets
    nf = 0
    for f in sec.fns:
        for i, n in enumerate(f.nodes):
            if n["k"] == "call" and n.get("fn") in ("dstr_free", "dstr_free0"):
                m = f.nodes[strip(f, n["a"][0])]
                if m["k"] == "un" and m["o"] == "&":
                    m = f.nodes[strip(f, m["s"])]
                if m["k"] == "mem" and m["f"] in SECNAME:
                    nf += 1
                    res.obligations += 1
                    if n["fn"] == "dstr_free" and not any(
                            c.get("fn") in WIPES and same_field(f, c["a"][0], n["a"][0]) and before(f, j, i)
                            for j, c in enumerate(f.nodes) if c["k"] == "call"):
                        res.add(f, n["L"], "the secret '%s' of an object is released without being erased" % m["f"])
    res.floor("releases of secret fields", nf, 3)
    # a buffer a private key was read into is what gets used
    for f in sec.fns:
        for i, n in enumerate(f.nodes):
            if n["k"] == "call" and n.get("fn") == "EVP_PKEY_get_raw_private_key":
                r0 = root_var(f, n["a"][1])
                v = r0[0] if r0 else None
                res.obligations += 1
                used = any(m["k"] == "ref" and m.get("v") == v and m["d"] in ("l", "p") and x not in set(
                    y for y, _ in walk(f, i)) and not wiping(f, x) and not lenonly(f, x) for x, m in enumerate(f.nodes))
                if v is not None and f.vars[v][2] == "l" and not used:
                    res.add(f, n["L"], "the private key is read but something else is used in its place")


def parents(f, x):
    while f.parent[x] >= 0:
        x = f.parent[x]
        yield x


def wiping(f, x):
    return any(f.nodes[y]["k"] == "call" and f.nodes[y].get("fn") in WIPES for y in parents(f, x))


def lenonly(f, x):
    return any(f.nodes[y]["k"] == "mem" and f.nodes[y]["f"] in ("len", "size") for y in parents(f, x))


def same_field(f, a, b):
    return resolve(f, a) == resolve(f, b)


def before(f, a, b):
    pa, pb = pos(f, a), pos(f, b)
    return bool(pa and pb and (pa[0] == pb[0] and pa[1] < pb[1] or pa[0] != pb[0] and dominates(f, pa[0], pb[0])))


# ---- C06 -------------------------------------------------------------------
WEAK = ("rand", "srand", "random", "srandom", "rand_r", "random_r", "drand48", "lrand48", "mrand48", "erand48", "nrand48",
        "jrand48", "srand48", "initstate", "setstate", "RAND_pseudo_bytes", "rand_s")
GEN = {"random_bytes": 0, "random_uint": 0, "random_uint64": 0, "random_uint_under": 1, "random_uint64_under": 1,
       "urandom_bytes": 0}
# columns which must be unguessable
SINKS = {("csrf", "csrf_id"), ("tokens", "secret"), ("tokens", "token"), ("installations", "secret"),
         ("installations", "token"), ("installations", "inst_uuid"), ("accounts", "user_uuid")}
XFER = {"bin2b64": (0, 1), "bin2hex": (0, 1), "dstr_copy": (0, 1), "dstr_append": (1, 0), "bin2b64url": (0, 1),
        "memcpy": (1, 0), "dstr_append_quiet": (1, 0)}


def shipped(prog):
    return [f for f in prog.funcs.values() if not f.file.startswith(("test/", "/")) and "/test_" not in f.file
            and "/test/" not in f.file and "fake_" not in f.file]


class Gen(Rule):
    """q = 'ok' once the generator delivered, 'bad' after it failed"""
    LIBC = ("RAND_bytes", "RAND_priv_bytes", "dstr_read")

    def __init__(self, ix, wanted):
        super().__init__(ix)
        self.wanted = wanted

    def is_event(self, fn, i, n):
        return n["k"] == "call" and fn.id in self.wanted and n.get("fn") in self.LIBC

    def on_call(self, sim, fn, i, n, q, args, env):
        name = n.get("fn")
        if fn.id not in self.wanted:
            return None
        if name in ("RAND_bytes", "RAND_priv_bytes"):
            self.count["gen"] += 1
            return [(1, q if q == "bad" else "ok"), (0, "bad"), (-1, "bad")]
        if name == "dstr_read":
            self.count["gen"] += 1
            c = sim.cell(fn, strip(fn, fn.nodes[strip(fn, n["a"][3])].get("s", -1)), env) if \
                fn.nodes[strip(fn, n["a"][3])]["k"] == "un" else None
            if c is None:
                return [(0, "bad"), (NZ, "bad")]
            full, short = dict(env), dict(env)
            full[c] = args[2]
            short[c] = ("S", "short")
            return [(0, "ok", full), (0, "bad", short), (NZ, "bad", short)]
        return None

    def on_exit(self, sim, fn, q, ret, env):
        if success(ret) and q != "ok":
            self.report(sim, fn, None, "reports success although the generator did not deliver")


class Consume(Rule):
    """q = 'failed' after a generator reported an error"""

    def __init__(self, ix, gens):
        super().__init__(ix)
        self.gens = gens

    def is_event(self, fn, i, n):
        return n["k"] == "call" and n.get("f") in self.gens

    def on_call(self, sim, fn, i, n, q, args, env):
        if n.get("f") in self.gens:
            self.count["uses"] += 1
            return [(0, q), (NZ, "failed")]
        if "f" in n and not (n.get("fn") or "").startswith(ERRH):
            return sim.opaque(fn, i, n, q, args, env)
        return None

    def on_exit(self, sim, fn, q, ret, env):
        if q == "failed" and success(ret):
            self.report(sim, fn, None, "carries on with a value although the random generator failed")


class Random:
    """variables whose content comes from the generator, and nothing else"""

    def __init__(self, prog, ix):
        self.p, self.ix = prog, ix
        names = {}
        for f in prog.funcs.values():
            names.setdefault(f.name, f)
        self.fill = {(names[n].id, k) for n, k in GEN.items() if n in names}
        self.gens = {t for t, k in self.fill}
        ch = True
        while ch:
            ch = False
            for f in shipped(prog):
                if f.ret != "derr_t" or f.id in self.gens:
                    continue
                for k, v in enumerate(f.params):
                    if "*" in f.vars[v][1] and (f.id, k) not in self.fill and "const" not in f.vars[v][1] and (
                            self.random(f, v) is None):
                        self.fill.add((f.id, k))
                        ch = True

    def writes(self, f, v):
        """[(node, kind, source)] every place that gives v content"""
        out = []
        for d in var_defs(f, v):
            n = f.nodes[strip(f, d)]
            if n.get("cv") == 0 or n["k"] == "init":
                continue
            out.append((d, "value", d))
        for i, n in enumerate(f.nodes):
            if n["k"] == "asg":
                l = strip(f, n["l"])
                r = root_var(f, l)
                if r and r[0] == v and f.nodes[l]["k"] != "ref" and not (r[1] and r[1][0] in ("len", "size")):
                    if f.nodes[strip(f, n["r"])].get("cv") != 0:
                        out.append((i, "value", n["r"]))
            if n["k"] != "call":
                continue
            for k, a in enumerate(n["a"]):
                r = root_var(f, a)
                if not r or r[0] != v or [x for x in r[1] if x != "data"]:
                    continue
                m = f.nodes[strip(f, a)]
                t = m.get("T", "")
                pts = None
                x = self.p.externs.get(n.get("f"))
                g = self.p.funcs.get(n.get("f"))
                if x:
                    pts = x[1]
                elif g:
                    pts = [g.vars[w][1] for w in g.params]
                if pts and k < len(pts):
                    t = pts[k]
                if "*" not in t or t.startswith("const "):
                    continue
                out.append((i, "call", k))
        return out

    def random(self, f, v, depth=0):
        """None if v's content comes from the generator; else (node, message)"""
        got = False
        bad = None
        if depth > 6:
            return (None, "not traced")
        for i, kind, src in self.writes(f, v):
            if kind == "value":
                r = root_var(f, src)
                if r and not r[1] and self.random(f, r[0], depth + 1) is None:
                    got = True
                    continue
                bad = (i, "is given a value which is not random")
                continue
            n = f.nodes[i]
            name = n.get("fn") or ""
            if name in XFER and XFER[name][1] == src:
                r = root_var(f, n["a"][XFER[name][0]])
                if r and self.random(f, r[0], depth + 1) is None:
                    got = True
                else:
                    bad = (i, "is given content which is not random")
                continue
            if name in XFER or name.endswith(("_bind_in", "_bind_out")) or name in (
                    "dstr_grow", "dstr_new", "dstr_free", "dstr_free0", "dstr_zeroize", "dstr_null_terminate"):
                continue
            if any((t, src) in self.fill for t in self.ix.targets(f, n)):
                got = True
                continue
            bad = (i, "is filled by %s(), which is not the random generator" % (name or "a callback"))
        if bad:
            return bad
        return None if got else (None, "never receives random content")

    def trace(self, f, i, seen=None):
        """[(fn, node, msg)] origins of expression i which are not random"""
        seen = seen if seen is not None else set()
        r = root_var(f, i)
        if r is None:
            return [(f, i, "is not a variable")]
        v = r[0]
        if (f.id, v) in seen:
            return []
        seen.add((f.id, v))
        w = self.random(f, v)
        if w is None:
            return []
        if v in f.params and w[0] is None:
            k = f.params.index(v)
            out = []
            cs = [(g, j, c) for g, j, c in calls(self.p, f.name) if f.id in self.ix.targets(g, c)]
            for g, j, c in cs:
                out += self.trace(g, c["a"][k], seen)
            return out if cs else [(f, i, "comes from outside")]
        return [(f, w[0] if w[0] is not None else i, w[1])]


def c06(prog, ix, res, tier):
    from sql import sites, columns_of_insert
    import re
    n = 0
    for f in shipped(prog):
        for i, m in enumerate(f.nodes):
            if m["k"] == "ref" and m["d"] == "f":
                n += 1
                if m["n"] in WEAK and not m["id"].count("@"):
                    res.add(f, m["L"], "%s() is not a cryptographic random generator" % m["n"])
    res.floor("function references searched for weak generators", n, 10000)
    res.obligations += 1
    names = {f.name: f for f in prog.funcs.values()}
    base = [names[x] for x in ("random_bytes", "urandom_bytes") if x in names]
    if len(base) < 2:
        raise Broken("generators not found")
    wanted = {f.id for f in base}
    r = Gen(ix, wanted)
    s = Sim(r)
    s.run([(f.id, "none", ((("v", f.params[1]), ("S", "full")),)) for f in base])
    res.add_sim(s, "generators")
    res.floor("generators", r.count["gen"], 2)
    # the length announced is the length generated
    for f in base:
        for i, m in enumerate(f.nodes):
            if m["k"] == "call" and m.get("fn") in ("RAND_bytes", "RAND_priv_bytes"):
                L = [x["r"] for x in f.nodes if x["k"] == "asg" and is_mem(f, x["l"], "dstr_t", "len")]
                res.obligations += 1
                if not any(resolve(f, x) == resolve(f, m["a"][1]) for x in L):
                    res.add(f, m["L"], "announces more random bytes than were generated")
    rnd = Random(prog, ix)
    c = Consume(ix, {t for t, k in rnd.fill})
    s2 = Sim(c)
    users = sorted({f.id for f in shipped(prog) if f.ret == "derr_t" for m in f.nodes if m["k"] == "call" and m.get("f") in c.gens})
    s2.run([(t, "", ()) for t in users])
    res.add_sim(s2, "users")
    res.floor("functions using the generator", len(users), 12)
    # columns which must be unguessable
    nc = 0
    for st in sites(prog, ix):
        for q in st.queries:
            cols = columns_of_insert(q)
            todo = []
            if cols:
                table, names_, vals = cols
                vals = vals or ["?"] * len(names_)
                k = 0
                for col, v in zip(names_, vals):
                    if v == "?":
                        if (table, col) in SINKS:
                            todo.append((table, col, k))
                        if (table, col) == ("accounts", "password"):
                            todo.append((table, col, k))
                        k += 1
                    elif (table, col) in SINKS:
                        res.add(st.fn, st.n["L"], "%s.%s is set to %s, which is not random" % (table, col, v))
            elif re.match(r"\s*UPDATE\s+accounts\s+SET\s+password\s*=\s*\?", q, re.I):
                todo.append(("accounts", "password", 0))
            for table, col, k in todo:
                if k >= len(st.binds):
                    continue
                nc += 1
                res.obligations += 1
                b = st.binds[k][1]
                if col == "password":
                    bad = salts(rnd, st.fn, b)
                else:
                    bad = rnd.trace(st.fn, b)
                for f, i, msg in bad:
                    res.add(f, f.nodes[i]["L"], "the value stored as %s.%s %s" % (table, col, msg))
    res.floor("values which must be unguessable", nc, 8)


def salts(rnd, f, i, seen=None):
    """the hash stored at i was computed with a random salt"""
    r = root_var(f, i)
    if r is None:
        return [(f, i, "is not a variable")]
    v = r[0]
    out = []
    hit = False
    for n in f.nodes:
        if n["k"] == "call" and n.get("fn") == "hash_password":
            d = root_var(f, n["a"][3])
            if d and d[0] == v:
                hit = True
                out += [(g, x, "is hashed with a salt which " + m) for g, x, m in rnd.trace(f, n["a"][2])]
    if hit:
        return out
    if v in f.params:
        k = f.params.index(v)
        cs = [(g, j, c) for g, j, c in calls(rnd.p, f.name) if f.id in rnd.ix.targets(g, c)]
        for g, j, c in cs:
            out += salts(rnd, g, c["a"][k])
        return out
    return [(f, i, "is not the result of hashing the password")]


CHECKS = {
    "C01": dict(check=c01, level="other", technique="typestate over the upload command's phases (path-sensitive, interprocedural) plus source-to-sink dataflow on its body"),
    "C02": dict(check=c02, level="other", technique="path-sensitive typestate of the decrypter for every tag length, guard queries and a write-after-authentication typestate over its users"),
    "C03": dict(check=c03, level="other", technique="dominating-guard dataflow over lengths parsed from the message (linear forms, integer widths) and a grow-before-write typestate"),
    "C04": dict(check=c04, level="other", technique="interprocedural typestate of decision, alert, record and trust over the handlers of new keys, plus contracts of the fingerprint watcher"),
    "C05": dict(check=c05, level="other", technique="interprocedural secret-content dataflow over local buffers plus a path-sensitive erase-before-exit typestate"),
    "C06": dict(check=c06, level="other", technique="forbidden-call search over the resolved program, generator contracts by path-sensitive analysis, and provenance dataflow of stored tokens"),
}
