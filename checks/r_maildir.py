"""M03..M06, M08, M09: the local copy of a mailbox (libimaildir, libcitm)."""
import collections

from sim import Rule, Sim, NZ, truth, KILL
from front import Broken
from util import (reach_down, Strings, strip, walk, root_var, var_defs, calls, lit, field_of, fields_of, fp_field,
                  loops_of, children, block_of, dominates, raise_src, Sources, is_mem, files_under)
from prims import success

# ---- M03 -------------------------------------------------------------------
LOGI = "maildir_log_i"


class Order(Rule):
    """q = (fresh, dirty, ex): fresh 1 = a msg_t without any index record;
    dirty 1 = flags/modseq, 2 = other persistent fields changed since the last
    record; ex 0 = no expunge known, 1 = created/changed, 2 = persisted"""
    EVC = {"msg_new", "msg_expunge_new", "msg_del_file", "old_msg_new", "update_new", "drename_path",
           "drename_atomic_path", "jsw_afind", "remove_path", "imaildir_log_open", "imaildir_log_rm"}
    FIND = {"jsw_atfirst", "jsw_atnext", "jsw_pop_atnext", "jsw_atlast", "jsw_atprev"}
    PERSIST = {"flags": 1, "internaldate": 2, "uid_dn": 2, "state": 2, "key": 2}

    def __init__(self, ix, msgs_new, kinds, expunged):
        super().__init__(ix)
        self.kinds = kinds            # value -> UPDATE_*
        self.expunged = expunged      # value of MSG_EXPUNGED
        self.finalizers = msgs_new

    def is_event(self, fn, i, n):
        if not fn.file.startswith("libimaildir/") or fn.file.startswith("libimaildir/log"):
            return False
        if n["k"] == "call":
            f = fp_field(fn, n)
            return n.get("fn") in self.EVC - {"imaildir_log_open", "imaildir_log_rm", "jsw_afind"} or (
                f is not None and f[0] == LOGI and f[1].startswith("update_"))
        if n["k"] == "asg":
            return self.change(fn, n["l"]) > 0
        return False

    def change(self, fn, l):
        fs = fields_of(fn, l)
        if not fs or fn.nodes[strip(fn, l)]["k"] != "mem":
            return 0
        lvl = 0
        for r, f in fs:
            if r == "msg_t":
                if f == "mod":
                    lvl = 1 if fs[0][1] in ("modseq", "mod") else 0
                else:
                    lvl = self.PERSIST.get(f, 0)
                return lvl
        return 0

    def copied(self, fn, n):
        for a in n["a"][1:]:
            if not any(r == "msg_expunge_t" for r, f in fields_of(fn, a)):
                return False
        return True

    def on_call(self, sim, fn, i, n, q, args, env):
        fresh, dirty, ex = q
        name = n.get("fn")
        f = fp_field(fn, n)
        if f is not None and f[0] == LOGI:
            if f[1] == "update_msg":
                self.count["message records"] += 1
                return [(0, (0, 0, ex)), (NZ, q)]
            if f[1] == "update_expunge":
                self.count["expunge records"] += 1
                return [(0, (fresh, dirty, 2)), (NZ, q)]
            if f[1] == "set_explicit_modseq_dn":
                return [(0, (fresh, 0 if dirty == 1 else dirty, ex)), (NZ, q)]
            return None
        if name is None:
            return None
        if name in ("imaildir_log_open", "imaildir_log_rm"):
            return [(0, q), (NZ, q)]
        if name == "msg_new":
            self.count["new messages"] += 1
            return [(0, (1, dirty, ex)), (NZ, q)]
        if name == "msg_expunge_new":
            self.count["new expunges"] += 1
            if self.copied(fn, n):
                return [(0, q), (NZ, q)]
            return [(0, (fresh, dirty, 1)), (NZ, q)]
        if name in ("drename_path", "drename_atomic_path", "drename", "drename_atomic"):
            self.count["renames"] += 1
            if fresh:
                self.report(sim, fn, i, "a message's file is moved into the mailbox before the message has an index record")
            return [(0, q), (NZ, q)]
        if name == "update_new" and len(args) >= 3:
            k = self.kinds.get(args[2])
            self.count["announcements"] += 1
            if k is None and args[2] is None:
                self.report(sim, fn, i, "an update of unknown type is distributed")
            if k in ("UPDATE_NEW", "UPDATE_META") and (dirty or fresh):
                self.report(sim, fn, i, "a message is announced to clients before its change is persisted")
            if k == "UPDATE_EXPUNGE" and ex != 2:
                self.report(sim, fn, i, "an expunge is announced to clients before it is persisted")
            return [(0, q), (NZ, q)]
        if name == "jsw_afind":
            t = field_of(fn, n["a"][0])
            if t == ("imaildir_t", "expunged"):
                return [(NZ, (fresh, dirty, 2)), (0, q)]
            if t == ("imaildir_t", "msgs"):
                self.left(sim, fn, i, q)
                return [(NZ, (0, 0, 0)), (0, q)]
            return None
        if name in self.FIND:
            self.left(sim, fn, i, q)
            return [(NZ, (0, 0, 0)), (0, (0, 0, 0))]
        if name == "msg_del_file" or name == "old_msg_new":
            self.count["deletions"] += 1
            if ex != 2:
                self.report(sim, fn, i, "a message's file is deleted (or scheduled for deletion) "
                            "before its expunge is persisted")
            return [(0, q), (NZ, q)]
        if name in ("remove_path", "dunlink_path"):
            if fn.name in self.hooks:
                self.count["deletions"] += 1
                if ex != 2:
                    self.report(sim, fn, i, "a message's file is deleted before its expunge is persisted")
            return [(0, q), (NZ, q)]
        return None

    def left(self, sim, fn, i, q):
        if q[0] or q[1] or q[2] == 1:
            self.report(sim, fn, i, "the next message is looked at while the last one's change is not persisted")

    def on_assign(self, sim, fn, i, lhs, val, q, env):
        fresh, dirty, ex = q
        c = self.change(fn, lhs)
        fs = fields_of(fn, lhs) if fn.nodes[strip(fn, lhs)]["k"] == "mem" else []
        if fs and fs[-1][0] == "msg_expunge_t" or (fs and fs[0][0] == "msg_expunge_t"):
            if fn.file.startswith("libimaildir/imaildir"):
                return (fresh, dirty, 1)
        if c and fs and fs[0] == ("msg_t", "state") and val == self.expunged:
            self.count["marked expunged"] += 1
            if ex != 2:
                self.report(sim, fn, i, "a message is marked expunged before its expunge is persisted")
            return q
        if c:
            self.count["message changes"] += 1
            return (fresh, max(dirty, c), ex)
        return q

    def on_exit(self, sim, fn, q, ret, env):
        if truth(ret) is not True and fn.ret == "derr_t" and (q[0] or q[1] or q[2] == 1):
            what = "a new message" if q[0] else "a changed message" if q[1] else "an expunge"
            self.report(sim, fn, -1, "success is reported although %s was not persisted" % what)


def check_M03(prog, ix, res, tier):
    enums = {}
    for e in prog.enums.values():
        enums.update(e)
    kinds = {enums[k]: k for k in ("UPDATE_NEW", "UPDATE_META", "UPDATE_EXPUNGE", "UPDATE_SYNC") if k in enums}
    if len(kinds) < 4 or "MSG_EXPUNGED" not in enums:
        raise Broken("update types not found")
    # callbacks run once an expunge was fully distributed
    fin = set()
    for f, i, n in calls(prog, "refs_init"):
        for a in n["a"]:
            t = ix._fnref(f.nodes, a)
            if t:
                fin.add(t)
    rule = Order(ix, fin, kinds, enums["MSG_EXPUNGED"])
    # hooks over the files of the mailbox, other than those of a wipe (M08)
    rule.hooks = set()
    for t in ix.fnparam.get(("for_each_file_in_dir", 1), ()):
        f = prog.funcs.get(t)
        if f and f.file.startswith("libimaildir/") and any(
                n["k"] == "call" and fp_field(f, n) and fp_field(f, n)[0] == LOGI for n in f.nodes) or (
                f and any(n["k"] == "call" and n.get("fn") == "jsw_afind" for n in f.nodes)):
            rule.hooks.add(f.name)
    sim = Sim(rule)
    roots = []
    for t, q, b in sim.auto_roots((0, 0, 0)):
        f = prog.funcs[t]
        if not f.file.startswith("libimaildir/") or f.file.startswith("libimaildir/log"):
            continue
        roots.append((t, (0, 0, 2) if t in fin else (0, 0, 0), b))
    # public entry points of the mailbox are analysed on their own, too
    have = {r[0] for r in roots}
    for t in sorted(sim.relevant):
        f = prog.funcs.get(t)
        if f and f.file == "libimaildir/imaildir.c" and not f.static and t not in have:
            roots.append((t, (0, 0, 0), ()))
    res.floor("M03 entry points", len(roots), 6)
    sim.run(roots)
    for k, lo in (("message records", 4), ("expunge records", 2), ("new messages", 2), ("new expunges", 2),
                  ("renames", 1), ("announcements", 3), ("deletions", 2), ("message changes", 3),
                  ("marked expunged", 1)):
        res.floor(k, rule.count[k], lo)
    res.add_sim(sim, "M03")


# ---- M04 -------------------------------------------------------------------
COUNTERS = {"hi_uid_dn": "dn", "hi_uid_local": "local", "himodseq_dn": "mod"}
# where handed-out values end up: (record, field) -> counter
USES = {("msg_t", "uid_dn"): "dn", ("msg_expunge_t", "uid_dn"): "dn", ("msg_key_t", "uid_local"): "local",
        ("msg_mod_t", "modseq"): "mod"}
TRAV_FIRST = {"jsw_atfirst", "jsw_atlast"}
TRAV_NEXT = {"jsw_atnext", "jsw_atprev", "jsw_pop_atnext"}


def maildir_fns(prog):
    return [f for f in prog.funcs.values() if f.file.startswith("libimaildir/") and not f.file.startswith("libimaildir/log")]


def counter_writes(fn):
    """[(node, field, form)] form: step | raise(src) | const | addr | bad"""
    out = []
    for i, n in enumerate(fn.nodes):
        if n["k"] == "un" and n["o"] in ("++", "--", "p++", "p--", "&"):
            f = field_of(fn, n["s"])
            if fn.nodes[strip(fn, n["s"])]["k"] == "mem" and f and f[0] == "imaildir_t" and f[1] in COUNTERS:
                out.append((i, f[1], {"++": "step", "p++": "post", "&": "addr"}.get(n["o"], "bad"), None))
        elif n["k"] == "asg" and fn.nodes[strip(fn, n["l"])]["k"] == "mem":
            f = field_of(fn, n["l"])
            if not f or f[0] != "imaildir_t" or f[1] not in COUNTERS:
                continue
            if n["o"] == "+=":
                cv = fn.nodes[strip(fn, n["r"])].get("cv")
                out.append((i, f[1], "step" if isinstance(cv, int) and cv > 0 else "bad", None))
                continue
            src = raise_src(fn, i)
            if src is not None:
                out.append((i, f[1], "raise", src))
                continue
            m = fn.nodes[strip(fn, n["r"])]
            if m["k"] == "ref" and m["d"] == "l":
                ds = var_defs(fn, m["v"])
                if len(ds) == 1:
                    m = fn.nodes[strip(fn, ds[0])]
            if m["k"] == "bin" and m["o"] == "+" and n["o"] == "=":
                cv = fn.nodes[strip(fn, m["r"])].get("cv")
                if is_mem(fn, m["l"], "imaildir_t", f[1]) and isinstance(cv, int) and cv > 0:
                    out.append((i, f[1], "step", None))
                    continue
            out.append((i, f[1], "bad", None))
    return out


class HighWater(Rule):
    """q = (opened, done, cur, seen): which trees have been scanned completely
    since the index was opened, and what the current element raised so far"""

    def __init__(self, ix, raises, steps):
        super().__init__(ix)
        self.raises = raises      # fn id -> {node: (counter, {element fields})}
        self.steps = steps        # fn id -> {node: counter}

    def tree(self, fn, i):
        f = field_of(fn, i)
        return f[1] if f and f[0] == "imaildir_t" and f[1] in ("msgs", "expunged") else None

    def is_event(self, fn, i, n):
        if n["k"] == "call":
            if n.get("fn") == "imaildir_log_open":
                return True
            if n.get("fn") in TRAV_FIRST and len(n["a"]) > 1 and self.tree(fn, n["a"][1]):
                return True
        return i in self.raises.get(fn.id, ()) or i in self.steps.get(fn.id, ())

    def on_call(self, sim, fn, i, n, q, args, env):
        opened, done, cur, seen = q
        name = n.get("fn")
        if name == "imaildir_log_open":
            self.count["opens"] += 1
            return [(0, (1, frozenset(), None, frozenset())), (NZ, q)]
        if name in TRAV_FIRST and len(n["a"]) > 1:
            t = self.tree(fn, n["a"][1])
            if t:
                self.count["scans"] += 1
                return [(NZ, (opened, done, t, frozenset())), (0, (opened, done | {t}, None, frozenset()))]
            return None
        if name in TRAV_NEXT and cur:
            ok = opened and cur not in done and len(seen) < 2
            if ok:
                q2 = (opened, done | {cur + "?"}, None, frozenset())
                q1 = (opened, done | {cur + "?"}, cur, frozenset())
                return [(NZ, q1), (0, q2)]
            return [(NZ, (opened, done, cur, frozenset())), (0, (opened, done | {cur}, None, frozenset()))]
        return None

    def on_assign(self, sim, fn, i, lhs, val, q, env):
        s = self.steps.get(fn.id, {}).get(i)
        if s is not None:
            self.count["values handed out"] += 1
            if q[0] and not self.complete(q[1], s):
                self.report(sim, fn, i, "a new value is handed out before the counter was raised above every value "
                            "found in the index")
        return q

    def complete(self, done, s):
        if s == "mod":
            return True
        return "msgs" in done and "expunged" in done and not any(x.endswith("?") for x in done)

    def on_read(self, sim, fn, i, n, q, env):
        r = self.raises.get(fn.id)
        if r and i in r and q[2] is not None:
            self.count["raises"] += 1
            return (q[0], q[1], q[2], q[3] | {r[i]})
        return q

    def on_exit(self, sim, fn, q, ret, env):
        if q[0] and truth(ret) is not True and not self.complete(q[1], "dn"):
            self.report(sim, fn, -1, "a mailbox is opened without raising its UID counters above every value found in "
                        "its index")


def check_M04(prog, ix, res, tier):
    if not ix.one("imaildir_init"):
        raise Broken("imaildir_init not found")
    S = Sources(ix)
    nwrites = 0
    raises = collections.defaultdict(dict)
    steps = collections.defaultdict(dict)
    gens = collections.defaultdict(set)
    for fn in prog.funcs.values():
        for i, fld, form, src in counter_writes(fn):
            nwrites += 1
            kind = COUNTERS[fld]
            n = fn.nodes[i]
            if form == "bad":
                res.add(fn, n["L"], "the counter %s is set to a value that may be lower than one already used" % fld)
            elif form == "post" and used(fn, i):
                res.add(fn, n["L"], "the counter %s is read before it is incremented" % fld)
            elif form == "addr":
                p = fn.parent[i]
                while p >= 0 and fn.nodes[p]["k"] in ("cast",):
                    p = fn.parent[p]
                if p < 0 or fn.nodes[p]["k"] != "call" or fn.nodes[p].get("fn") != "imaildir_log_open":
                    res.add(fn, n["L"], "the counter %s is modified through a pointer" % fld)
            if form in ("step", "post"):
                steps[fn.id][i] = kind
                gens[kind].add(fn.id)
            if form == "raise":
                srcs = S.of(fn, src)
                want = {"dn": "uid_dn", "local": "uid_local", "mod": "modseq"}[kind]
                if all(s[0] == "mem" and s[2] == want for s in srcs):
                    # the comparison marks the element as examined
                    for c, m in enumerate(fn.nodes):
                        if m["k"] == "mem" and m.get("r") == "imaildir_t" and m["f"] == fld and c != strip(fn, n["l"]):
                            raises[fn.id][c] = kind
    res.floor("counter updates", nwrites, 5)
    for k in ("dn", "local", "mod"):
        if not gens[k]:
            f = ix.one("imaildir_init")
            res.add(f, f.line, "the counter for %s values never advances" % k)

    # values handed out
    nuses = 0

    def ok_src(s, kind, fn):
        if s[0] == "const":
            return s[1] == 0
        if s[0] == "step":
            return s[2] == "imaildir_t" and COUNTERS.get(s[3]) == kind and s[1] in ("++", "+=")
        if s[0] == "mem":
            if USES.get((s[1], s[2])) == kind:
                return True
            return False
        return False

    def verify(fn, i, kind, what):
        nonlocal nuses
        nuses += 1
        for s in gen_sources(S, fn, i, kind, gens):
            if not ok_src(s, kind, fn):
                res.add(fn, fn.nodes[i]["L"], "%s is given a value that was not newly taken from its counter (%s)"
                        % (what, " ".join(str(x) for x in s if x)))
    for fn in maildir_fns(prog):
        for i, n in enumerate(fn.nodes):
            if n["k"] == "asg" and n["o"] == "=":
                f = field_of(fn, n["l"])
                if fn.nodes[strip(fn, n["l"])]["k"] == "mem" and f in USES and fn.name not in ("msg_new", "msg_expunge_new"):
                    verify(fn, n["r"], USES[f], f[1])
            elif n["k"] == "call" and n.get("fn") == "msg_new" and len(n["a"]) == 7:
                verify(fn, n["a"][2], "dn", "uid_dn")
                verify(fn, n["a"][6], "mod", "modseq")
            elif n["k"] == "call" and n.get("fn") == "msg_expunge_new" and len(n["a"]) == 5:
                verify(fn, n["a"][2], "dn", "uid_dn")
                verify(fn, n["a"][4], "mod", "modseq")
            elif n["k"] == "init" and n.get("r") == "msg_key_t" and fn.file == "libimaildir/imaildir.c":
                for fld, c in n["i"]:
                    if fld == "uid_local" and c >= 0:
                        verify(fn, c, "local", "uid_local")
    res.floor("handed-out values", nuses, 10)

    # the scan when a mailbox is opened
    rule = HighWater(ix, raises, steps)
    sim = Sim(rule)
    opens = {f.id for f, i, n in calls(prog, "imaildir_log_open")}
    res.floor("index opens", len(opens), 1)
    roots = [(t, (0, frozenset(), None, frozenset()), ()) for t in sorted(ix.reach_up(opens))
             if t in prog.funcs and prog.funcs[t].file.startswith("libimaildir/")]
    sim.run(roots)
    for k, lo in (("opens", 1), ("scans", 2), ("raises", 2), ("values handed out", 1)):
        res.floor(k, rule.count[k], lo)
    res.add_sim(sim, "M04")

    # the modseq counter found in the index
    nmod = 0
    kinds = set()
    for fn in files_under(prog, "libimaildir/log"):
        outp = [v for v in fn.params if fn.vars[v][1] in ("uint64_t *", "unsigned long *")]
        for v in outp:
            for i, n in enumerate(fn.nodes):
                if n["k"] != "asg":
                    continue
                l = fn.nodes[strip(fn, n["l"])]
                if not (l["k"] == "un" and l["o"] == "*" and is_var(fn, l["s"], v)):
                    continue
                nmod += 1
                todo = [i]
                m = fn.nodes[strip(fn, n["r"])]
                if m["k"] == "ref" and m["d"] == "l" and raise_src(fn, i) is None:
                    todo = [j for j, x in enumerate(fn.nodes) if x["k"] == "asg" and is_var(fn, x["l"], m["v"])]
                    for d in var_defs(fn, m["v"]):
                        if fn.nodes[fn.parent[d]]["k"] == "decls" and fn.nodes[strip(fn, d)].get("cv", 99) not in (0, 1):
                            res.add(fn, fn.nodes[d]["L"], "the modification sequence counter does not start from scratch")
                for j in todo:
                    src = raise_src(fn, j)
                    r = fn.nodes[strip(fn, fn.nodes[j]["r"])]
                    if src is None:
                        if r.get("cv") not in (0, 1):
                            res.add(fn, fn.nodes[j]["L"], "the modification sequence counter read from the index may be lowered")
                        continue
                    for s in S.of(fn, src):
                        kinds.add("explicit" if s[0] == "outarg" else "message" if s[:3] == ("mem", "msg_mod_t", "modseq") else "other")
    res.floor("modseq assignments in the index reader", nmod, 1)
    for k in ("explicit", "message"):
        if k not in kinds:
            f = ix.one("imaildir_log_open")
            res.add(f, f.line, "the modification sequence counter ignores the %s values recorded in the index" % k)


def is_var(fn, i, v):
    n = fn.nodes[strip(fn, i)]
    return n["k"] == "ref" and n["d"] in ("l", "p") and n["v"] == v


def used(fn, i):
    p = fn.parent[i]
    return p >= 0 and fn.nodes[p]["k"] not in ("stmtexpr",)


def gen_sources(S, fn, i, kind, gens):
    """sources, where reading a counter right after stepping it in the same
    function counts as the step"""
    out = set()
    for s in S.of(fn, i):
        if s[0] == "mem" and s[1] == "imaildir_t" and COUNTERS.get(s[2]) == kind:
            s2 = reread(S, fn, i, kind, s[2], gens)
            out.add(s2 or s)
        elif s[0] == "expr" and s[1] == "+":
            s2 = reread(S, fn, i, kind, {v: k for k, v in COUNTERS.items()}[kind], gens)
            out.add(s2 or s)
        else:
            out.add(s)
    return out


def reread(S, fn, i, kind, fld, gens, depth=0):
    """is the value the return of a generator, or read after a dominating
    step in the same function?"""
    i = strip(fn, i)
    n = fn.nodes[i]
    if n["k"] == "call" and n.get("f") in gens[kind]:
        g = S.p.funcs[n["f"]]
        for r in g.nodes:
            if r["k"] == "ret" and r["s"] >= 0:
                if not after_step(g, r["s"], fld):
                    return None
        return ("step", "++", "imaildir_t", fld)
    if n["k"] == "cond":
        a = [x for x in (n["t"], n["e"]) if "cv" not in fn.nodes[strip(fn, x)]]
        if all(reread(S, fn, x, kind, fld, gens, depth + 1) for x in a):
            return ("step", "++", "imaildir_t", fld)
        return None
    if n["k"] == "ref" and n["d"] in ("l", "p") and depth < 4:
        ds = [d for d in var_defs(fn, n["v"]) if "cv" not in fn.nodes[strip(fn, d)]]
        if ds and all(reread(S, fn, d, kind, fld, gens, depth + 1) for d in ds):
            return ("step", "++", "imaildir_t", fld)
        if n["d"] == "p":
            pi = fn.params.index(n["v"])
            cs = S.ix.calls.get(fn.id, ())
            if cs and all(reread(S, g, g.nodes[c]["a"][pi], kind, fld, gens, depth + 1) for g, c in cs):
                return ("step", "++", "imaildir_t", fld)
        return None
    if after_step(fn, i, fld):
        return ("step", "++", "imaildir_t", fld)
    return None


def after_step(fn, i, fld):
    i = strip(fn, i)
    n = fn.nodes[i]
    st = [j for j, f, form, s in counter_writes(fn) if f == fld and form == "step"]
    if n["k"] in ("un", "asg"):
        return i in st
    b = block_of(fn, i)
    if n["k"] == "mem" and n["f"] == fld:
        for j in st:
            bj = block_of(fn, j)
            if bj != b and dominates(fn, bj, b):
                return True
            if bj == b and fn.blocks[b].elems.index(elem_of(fn, j, b)) < fn.blocks[b].elems.index(elem_of(fn, i, b)):
                return True
        return False
    if n["k"] == "ref" and n["d"] == "l":
        ds = var_defs(fn, n["v"])
        for j in st:
            m = fn.nodes[j]
            if m["k"] == "asg" and is_var(fn, m["r"], n["v"]) and dominates(fn, block_of(fn, j), b):
                return True
        return bool(ds) and all(after_step(fn, d, fld) for d in ds)
    return False


def elem_of(fn, i, b):
    es = set(fn.blocks[b].elems)
    x = i
    last = None
    while x >= 0:
        if x in es:
            return x
        x = fn.parent[x]
    return last


# ---- M05 -------------------------------------------------------------------
class Detach(Rule):
    """q = (drained lists, list of the element just taken out, owner told,
    something other than building a fresh in-memory object failed)"""
    CB = "imaildir_cb_i"
    BUILD = {"msg_new", "msg_view_new", "msg_expunge_new"}

    def __init__(self, ix, lists, tell):
        super().__init__(ix)
        self.lists = lists        # fields of imaildir_t holding accessors
        self.tell = tell          # names of the accessors' failure handlers

    def is_event(self, fn, i, n):
        if n["k"] != "call" or not fn.file.startswith("libimaildir/imaildir"):
            return False
        return n.get("fn") in self.tell or fp_field(fn, n) == (self.CB, "failed")

    def on_call(self, sim, fn, i, n, q, args, env):
        drained, pend, told, hurt = q
        name = n.get("fn")
        if name == "pvt_orig":
            return [(r, q2[:3] + (1,), e) for r, q2, e in sim.errapi(fn, i, n, q, args, env)]
        if name in ("link_list_pop_first", "link_list_pop_last"):
            f = field_of(fn, n["a"][0])
            if f and f[0] == "imaildir_t" and f[1] in self.lists:
                self.count["drains"] += 1
                if pend:
                    self.lost(sim, fn, i)
                return [(NZ, (drained, f[1], told, hurt)), (0, (drained | {f[1]}, None, told, hurt))]
            return None
        if name in self.tell:
            self.count["notifications"] += 1
            return [(None, (drained, None, told, hurt))]
        if fp_field(fn, n) == (self.CB, "failed"):
            self.count["owner notifications"] += 1
            self.complete(sim, fn, i, q)
            return [(None, (drained, pend, 1, hurt))]
        return None

    def after_call(self, sim, fn, i, n, q, args, ret, env):
        name = n.get("fn", "")
        if n.get("T") == "derr_t" and truth(ret) is True and name not in self.BUILD:
            return q[:3] + (1,)
        return q

    def lost(self, sim, fn, i):
        self.report(sim, fn, i, "an attached session is removed from a failed mailbox without being told")

    def complete(self, sim, fn, i, q):
        if q[1]:
            self.lost(sim, fn, i)
        for l in sorted(self.lists - q[0]):
            self.report(sim, fn, i, "a failed mailbox is released while sessions in its list '%s' are still attached" % l)

    forced = None
    entry = frozenset()

    def on_exit(self, sim, fn, q, ret, env):
        if fn.name == self.forced:
            self.complete(sim, fn, -1, q)
            return
        if fn.id in self.entry and truth(ret) is True and q[3]:
            self.count["failing entry points"] += 1
            if not q[2]:
                self.report(sim, fn, -1, "a failed update to the mailbox does not fail the mailbox: its sessions stay attached")


class Cleared(Rule):
    """failure handlers let go of the mailbox and wake their owner"""
    def __init__(self, ix, recs):
        super().__init__(ix)
        self.guards = frozenset((r, "m") for r in recs)
        self.recs = recs

    def is_event(self, fn, i, n):
        f = fp_field(fn, n) if n["k"] == "call" else None
        return f is not None and f[1] == "schedule" and f[0] in ("up_cb_i", "dn_cb_i")

    def on_call(self, sim, fn, i, n, q, args, env):
        f = fp_field(fn, n)
        if f is not None and f[1] == "schedule" and f[0] in ("up_cb_i", "dn_cb_i"):
            return [(None, 1, env)]
        return None

    def on_exit(self, sim, fn, q, ret, env):
        if not any(truth(env.get(("g", r, "m"))) is False for r in self.recs):
            self.report(sim, fn, -1, "a session told about a failed mailbox keeps its reference to it")
        if not q:
            self.report(sim, fn, -1, "a session detached from a failed mailbox is never woken up to notice")


class Attached(Rule):
    """sessions use their mailbox only after seeing that it did not fail"""
    def __init__(self, ix, recs):
        super().__init__(ix)
        self.guards = frozenset((r, "m") for r in recs)
        self.recs = recs
        self.cells = {("g", r, "m") for r in recs}

    def uses(self, fn, n):
        for a in n["a"]:
            m = fn.nodes[strip(fn, a)]
            if m["k"] == "mem" and m.get("r") in self.recs and m["f"] == "m":
                return m["r"]
        return None

    def is_event(self, fn, i, n):
        return n["k"] == "call" and (n.get("fn", "") and self.uses(fn, n) is not None or self.reply(fn, n))

    def reply(self, fn, n):
        f = fp_field(fn, n)
        return f is not None and f[0] == "imap_cmd_cb_t" and fn.file == "libimaildir/up.c"

    def on_call(self, sim, fn, i, n, q, args, env):
        if self.reply(fn, n):
            # a command's callback may find that the mailbox failed
            e2 = {c: v for c, v in env.items() if c not in self.cells}
            return [(0, q, e2), (NZ, q, e2)]
        r = self.uses(fn, n)
        if r is None or "fn" not in n:
            return None
        self.count["uses"] += 1
        c = ("g", r, "m")
        if truth(env.get(c)) is not True:
            self.report(sim, fn, i, "a session uses its mailbox without first checking whether it failed")
        if n.get("T") == "derr_t":
            e2 = dict(env)
            e2.pop(c, None)
            return [(0, q, env), (NZ, q, e2)]
        return None


def check_M05(prog, ix, res, tier):
    # lists of accessors: what their links are appended to
    lists, tell = set(), set()
    for name in ("link_list_append", "link_list_prepend"):
        for f, i, n in calls(prog, name):
            a, b = field_of(f, n["a"][0]), field_of(f, n["a"][1])
            if a and a[0] == "imaildir_t" and b and b[0] in ("up_t", "dn_t"):
                lists.add(a[1])
    res.floor("lists of attached sessions", len(lists), 3)
    for nm in ("up_imaildir_failed", "dn_imaildir_failed"):
        if ix.one(nm):
            tell.add(nm)
    if len(tell) < 2:
        raise Broken("failure handlers of the sessions not found")
    rule = Detach(ix, lists, tell)
    rule.forced = "imaildir_forceclose"
    entry = set()
    for f in prog.funcs.values():
        if f.file != "libimaildir/imaildir.c" or f.ret != "derr_t":
            continue
        ext = {prog.funcs[c].file for c in ix.callers.get(f.id, ())} & {"libimaildir/up.c", "libimaildir/dn.c"}
        done = any(f.id in t for (g, ai), t in ix.fnparam.items() if "imap_cmd_cb_init" in g)
        if (not f.static and ext) or done:
            entry.add(f.id)
    rule.entry = frozenset(entry)
    res.floor("mailbox operations of sessions", len(entry), 11)
    q0 = (frozenset(), None, 0, 0)
    fc = ix.one("imaildir_forceclose")
    if fc is None:
        raise Broken("imaildir_forceclose not found")
    sim = Sim(rule)
    sim.run([(fc.id, q0, ())] + [(t, q0, ()) for t in sorted(entry)])
    for k, lo in (("drains", 3), ("notifications", 3), ("owner notifications", 1), ("failing entry points", 9)):
        res.floor(k, rule.count[k], lo)
    res.add_sim(sim, "broadcast")

    recs = ("up_t", "dn_t")
    rule = Cleared(ix, recs)
    sim = Sim(rule)
    sim.run([(ix.one(nm).id, 0, ()) for nm in sorted(tell)])
    res.add_sim(sim, "handlers")

    rule = Attached(ix, recs)
    sim = Sim(rule)
    roots = []
    for t in sorted(sim.relevant):
        f = prog.funcs.get(t)
        if not f or f.file not in ("libimaildir/up.c", "libimaildir/dn.c"):
            continue
        cs = {prog.funcs[c].file for c in ix.callers.get(t, ())}
        nn = tuple((("g", r, "m"), NZ) for r in recs)
        if f.static:
            if t in ix.addr_taken:
                roots.append((t, 0, nn))
        elif "libimaildir/imaildir.c" not in cs:
            roots.append((t, 0, ()))
    sim.run(roots)
    res.floor("mailbox uses by sessions", rule.count["uses"], 15)
    res.add_sim(sim, "sessions")


# ---- M06 -------------------------------------------------------------------
RESERVED = {".", "..", "cur", "tmp", "new"}
EQ = {"dstr_cmp": False, "dstr_icmp": False, "dstr_cmp2": False, "strcmp": False, "dstr_eq": True, "dstr_ieq": True}


class NameCheck(Rule):
    """every component is compared with every reserved word before the name is
    accepted; q = (in a component, words excluded, length examined, refused)"""

    def __init__(self, ix, root):
        super().__init__(ix)
        self.root = root
        self.S = Strings(ix)

    def is_event(self, fn, i, n):
        return fn.id == self.root or (n["k"] == "call" and n.get("fn") in EQ and fn.file.endswith("dirmgr.c"))

    def finished(self, sim, fn, i, q):
        comp, words, ln, hit = q
        if not comp:
            return
        for w in sorted(RESERVED - words):
            self.report(sim, fn, i, "a mailbox name with a component '%s' is accepted" % w)
        if not ln:
            self.report(sim, fn, i, "a mailbox name with an empty component is accepted")

    def on_call(self, sim, fn, i, n, q, args, env):
        comp, words, ln, hit = q
        name = n.get("fn", "")
        if name.startswith("dstr_split"):
            self.finished(sim, fn, i, q)
            self.count["components"] += 1
            return [(0, (1, frozenset(), 0, hit))]
        if name in EQ:
            ws = frozenset(self.S.of(fn, n["a"][1], params=True) | self.S.of(fn, n["a"][0], params=True)) & RESERVED
            if not ws:
                return None
            self.count["comparisons"] += 1
            pos = EQ[name]
            return [(1 if pos else 0, (comp, words, ln, 1)), (0 if pos else NZ, (comp, words | ws, ln, hit))]
        return None

    def on_read(self, sim, fn, i, n, q, env):
        if n.get("r") == "dstr_t" and n["f"] == "len":
            p = fn.nodes[fn.parent[i]] if fn.parent[i] >= 0 else None
            if p and (p["k"] == "bin" and any(fn.nodes[strip(fn, p[s])].get("cv") in (0, 1) for s in "lr")
                      or (p["k"] == "un" and p["o"] == "!") or self.is_cond(fn, i)):
                return (q[0], q[1], 1, q[3])
        return q

    def is_cond(self, fn, i):
        return any(b.cond == i for b in fn.blocks.values())

    def on_exit(self, sim, fn, q, ret, env):
        if truth(ret) is False:
            return
        if q[3]:
            self.report(sim, fn, -1, "a mailbox name is accepted after it matched a reserved component")
        if not q[0]:
            self.report(sim, fn, -1, "a mailbox name is accepted without looking at its components")
        self.finished(sim, fn, -1, q)


def sb_dstr(fn, i):
    """the dstr expression behind SBD(x), or None"""
    for x, n in walk(fn, i):
        if n["k"] == "init" and n.get("r") == "string_builder_t":
            d = dict((a, b) for a, b in n["i"])
            w = fn.nodes[d["write"]] if d.get("write", -1) >= 0 else None
            if w is not None and w.get("n") == "_sb_write_dstr":
                a = fn.nodes[strip(fn, d["arg"])]
                if a["k"] == "init":
                    return a["i"][0][1]
            return None
    return None


def origin(fn, i, depth=0):
    """canonical token of a dstr expression: ('v', var) or ('f', record, field)"""
    while True:
        i = strip(fn, i)
        n = fn.nodes[i]
        k = n["k"]
        if k == "un" and n["o"] in ("&", "*"):
            i = n["s"]
        elif k == "mem":
            if n.get("r") == "dstr_t":
                i = n["b"]
                continue
            rv = root_var(fn, i)
            return ("f", n.get("r"), n["f"], rv[0] if rv else None)
        elif k == "cond":
            return None
        elif k == "ref" and n["d"] in ("l", "p"):
            if n["d"] == "l":
                ds = var_defs(fn, n["v"])
                if len(ds) == 1 and depth < 4:
                    o = origin(fn, ds[0], depth + 1)
                    if o:
                        return o
            return ("v", n["v"])
        else:
            return None


class Validated(Rule):
    """intraprocedural: which names are known valid at every use; q = set of tokens"""

    def __init__(self, ix, checkers, sinks):
        super().__init__(ix)
        self.checkers = checkers     # fn id -> {param: True if result true means valid}
        self.sinks = sinks           # (fn id, param)
        self.need = []               # (fn, node, token)
        self.valid_exit = None
        self.only = None

    def is_event(self, fn, i, n):
        return self.only == fn.id

    def on_call(self, sim, fn, i, n, q, args, env):
        f = n.get("f")
        outs = None
        if f in self.checkers:
            pi, kind = self.checkers[f]
            t = origin(fn, n["a"][pi])
            self.count["checks"] += 1
            good = q | {t} if t else q
            return [(NZ, good), (0, q)] if kind == "bool" else [(0, good), (NZ, q)]
        for tok, what in self.uses(fn, i, n):
            if tok is None or tok not in q:
                self.need.append((fn, i, tok, what))
            self.count["uses"] += 1
        if f in self.p.funcs:
            # intraprocedural: the callee is looked at on its own
            return [(0, q), (NZ, q)] if n.get("T") == "derr_t" else [(None, q)]
        return None

    def uses(self, fn, i, n):
        name = n.get("fn")
        if name == "sb_append" and dirmgr_path(fn, n["a"][0]):
            d = sb_dstr(fn, n["a"][1])
            if d is not None:
                yield origin(fn, d), "path"
            elif not Strings(self.ix).of(fn, n["a"][1]):
                yield None, "path"
        for ai, a in enumerate(n["a"]):
            if (n.get("f"), ai) in self.sinks:
                yield origin(fn, a), "argument"
        if name in ("dstr_copy", "dstr_append", "dstr_append_quiet") and len(n["a"]) > 1:
            o = origin(fn, n["a"][1])
            if o and o[:3] in self.sinks:
                yield origin(fn, n["a"][0]), "field"


def dirmgr_path(fn, i, depth=0):
    if field_of(fn, i) == ("dirmgr_t", "path"):
        return True
    m = fn.nodes[strip(fn, i)]
    if m["k"] == "un" and m["o"] == "&":
        m = fn.nodes[strip(fn, m["s"])]
    if m["k"] == "ref" and m["d"] == "l" and depth < 3:
        return any(dirmgr_path(fn, d, depth + 1) for d in var_defs(fn, m["v"]))
    return False


class CheckerExit(Validated):
    def on_exit(self, sim, fn, q, ret, env):
        if fn.ret == "derr_t":
            ok = truth(ret) is not True
        else:
            ok = truth(ret) is not False
        if ok:
            self.valid_exit = q if self.valid_exit is None else self.valid_exit & q


def check_M06(prog, ix, res, tier):
    v = ix.one("dirmgr_name_valid")
    if v is None:
        raise Broken("dirmgr_name_valid not found")
    rule = NameCheck(ix, v.id)
    sim = Sim(rule)
    sim.run([(v.id, (0, frozenset(), 0, 0), ())])
    res.floor("reserved word comparisons", rule.count["comparisons"], 1)
    res.floor("components split", rule.count["components"], 1)
    res.add_sim(sim, "validator")

    # functions that validate one of their parameters
    checkers = {v.id: (0, "bool")}
    for _ in range(3):
        for f in list(prog.funcs.values()):
            if f.id in checkers or f.ret not in ("derr_t", "bool", "_Bool") or f.file.startswith("test"):
                continue
            if not any(n["k"] == "call" and n.get("f") in checkers for n in f.nodes):
                continue
            r = CheckerExit(ix, checkers, set())
            r.only = f.id
            Sim(r).run([(f.id, frozenset(), ())])
            for pi, pv in enumerate(f.params):
                if r.valid_exit and ("v", pv) in r.valid_exit and "dstr_t" in f.vars[pv][1]:
                    checkers[f.id] = (pi, "bool" if f.ret != "derr_t" else "derr")
    res.stats["validators"] = len(checkers)

    sinks = set()
    done = set()
    dead = {f.id for f in prog.funcs.values() if not ix.callers.get(f.id) and f.id not in ix.addr_taken and
            f.file.startswith("libimaildir/")}
    res.notes.append("functions without any caller are not judged: " + ", ".join(
        sorted(prog.funcs[x].name for x in dead if prog.funcs[x].file.endswith("dirmgr.c"))))
    uses = 0
    first = True
    work = []
    viol = {}
    allneed = []
    rounds = 0
    while True:
        rounds += 1
        uses = 0
        allneed = []
        for f in prog.funcs.values():
            if not (f.file.startswith("libimaildir/") or f.file.startswith("libcitm/")) or f.id in dead:
                continue
            r = Validated(ix, {k: c for k, c in checkers.items() if k != f.id}, sinks)
            if not any(n["k"] == "call" and any(True for _ in r.uses(f, i, n)) for i, n in enumerate(f.nodes)):
                continue
            r.only = f.id
            s = Sim(r)
            s.run([(f.id, frozenset(), ())])
            uses += r.count["uses"]
            res.functions |= s.fns
            allneed += r.need
        new = set()
        viol = {}
        for fn, i, tok, what in allneed:
            if tok and tok[0] == "v" and tok[1] in fn.params and fn.id not in ix.addr_taken and ix.callers.get(fn.id):
                k = (fn.id, fn.params.index(tok[1]))
                if k not in sinks:
                    new.add(k)
            elif tok and tok[0] == "f" and tok[1] in ("dirmgr_hold_t", "dirmgr_freeze_t", "managed_dir_t"):
                if tok[:3] not in sinks:
                    new.add(tok[:3])
            else:
                viol[(fn.id, i)] = (fn, i)
        if not new:
            break
        sinks |= new
        if rounds > 12:
            raise Broken("name obligations did not converge")
    for fn, i in viol.values():
        res.add(fn, fn.nodes[i]["L"], "an unchecked mailbox name becomes part of a path below the mail directory")
    # a field that is a sink must have been written through checked copies
    res.floor("uses of mailbox names in paths", uses, 4)
    res.stats["obligations passed to callers"] = len(sinks)


# ---- M08 -------------------------------------------------------------------
class Wipe(Rule):
    """q = (marked: '?', 'U' or 'M', index gone, directories emptied)"""
    OPS = {"touch_path", "remove_path", "dunlink_path", "exists_path", "imaildir_log_open"}

    def __init__(self, ix, hooks, alldirs):
        super().__init__(ix)
        self.S = Strings(ix)
        self.hooks = hooks           # deleting callbacks
        self.alldirs = alldirs       # value -> name
        self.memo = {}

    def which(self, fn, i, n):
        """'.invalid', '.cache' or None"""
        k = (fn.id, i)
        if k not in self.memo:
            s = self.S.of(fn, n["a"][0], params=True)
            self.memo[k] = ".invalid" if ".invalid" in s else ".cache" if ".cache" in s else None
        return self.memo[k]

    def hook(self, fn, n):
        for a in n["a"]:
            t = self.ix._fnref(fn.nodes, a)
            if t in self.hooks:
                return t
        return None

    def is_event(self, fn, i, n):
        if n["k"] != "call" or not fn.file.startswith("libimaildir/"):
            return False
        name = n.get("fn")
        if name == "imaildir_log_open":
            return True
        if name in self.OPS:
            return self.which(fn, i, n) is not None
        return name == "for_each_file_in_dir" and self.hook(fn, n) is not None

    def dirs(self, fn, n):
        """subdirectories a call may work on"""
        out = set()
        vs = self.consts(fn, n["a"][0], set())
        if vs:
            return frozenset(vs)
        for m in fn.nodes:
            if m["k"] == "ref" and m.get("n") in self.alldirs.values():
                out.add(m["n"])
        return frozenset(out)

    def consts(self, fn, i, seen):
        out = set()
        for x, m in walk(fn, i):
            if m["k"] == "ref" and m.get("n") in self.alldirs.values():
                out.add(m["n"])
            elif m["k"] == "ref" and m["d"] in ("l", "p") and m["v"] not in seen:
                seen.add(m["v"])
                for d in var_defs(fn, m["v"]):
                    out |= self.consts(fn, d, seen)
        return out

    def on_call(self, sim, fn, i, n, q, args, env):
        mark, log, dirs = q
        name = n.get("fn")
        if name == "imaildir_log_open":
            self.count["opens"] += 1
            if mark == "M":
                self.report(sim, fn, i, "a mailbox is read again although its wipe is not finished or still marked")
            elif mark != "U":
                self.report(sim, fn, i, "a mailbox is read without checking whether an interrupted wipe must be finished")
            return [(0, q), (NZ, q)]
        if name == "for_each_file_in_dir":
            t = self.hook(fn, n)
            if t is None:
                return None
            self.count["message deletions"] += 1
            if mark != "M":
                self.report(sim, fn, i, "message files are wiped while the mailbox is not marked as invalid")
            return [(0, (mark, log, dirs | self.dirs(fn, n))), (NZ, q)]
        if name not in self.OPS or not fn.file.startswith("libimaildir/"):
            return None
        w = self.which(fn, i, n)
        if w is None:
            return None
        if name == "exists_path":
            outs = [(NZ, q)]
            c = args[1][1] if len(args) > 1 and isinstance(args[1], tuple) and args[1][0] == "&" else None
            for val in (0, 1):
                e = dict(env)
                if c:
                    sim.put(e, c, val)
                q2 = q
                if w == ".invalid":
                    if mark == "?" or (mark == "U") == (val == 0):
                        q2 = ("M" if val else "U", log, dirs)
                    else:
                        continue
                elif val == 0:
                    q2 = (mark, 1, dirs)
                outs.append((0, q2, e))
            return outs
        if name == "touch_path":
            if w == ".invalid":
                self.count["marks"] += 1
                return [(0, ("M", 0, frozenset())), (NZ, q)]
            return [(0, q), (NZ, q)]
        # removals
        if w == ".cache":
            self.count["index removals"] += 1
            if mark != "M":
                self.report(sim, fn, i, "the index is wiped while the mailbox is not marked as invalid")
            return [(0, (mark, 1, dirs)), (NZ, q)]
        self.count["unmarks"] += 1
        if not log:
            self.report(sim, fn, i, "the mark of an unfinished wipe is removed while the index may still exist")
        for d in sorted(set(self.alldirs.values()) - dirs):
            self.report(sim, fn, i, "the mark of an unfinished wipe is removed while message files may be left (%s)" % d)
        return [(0, ("U", 0, frozenset())), (NZ, q)]


class DelHook(Rule):
    """a wiping callback removes every file it is given"""
    def is_event(self, fn, i, n):
        return fn.id == self.root

    def on_call(self, sim, fn, i, n, q, args, env):
        if n.get("fn") in ("remove_path", "dunlink_path"):
            return [(0, 1), (NZ, q)]
        return None

    def on_exit(self, sim, fn, q, ret, env):
        if truth(ret) is not True and not q:
            self.report(sim, fn, -1, "a wipe may leave a message file behind")


def check_M08(prog, ix, res, tier):
    dirs = {}
    for en in prog.enums.values():
        for k, v in en.items():
            if k.startswith("SUBDIR_"):
                dirs[v] = k
    if len(dirs) < 3:
        raise Broken("subdirectory types not found")
    hooks = set()
    for t in ix.fnparam.get(("for_each_file_in_dir", 1), ()):
        f = prog.funcs.get(t)
        # wiping callbacks: they remove files whatever the index says
        if f and f.file.startswith("libimaildir/imaildir") and any(
                n["k"] == "call" and n.get("fn") in ("remove_path", "dunlink_path") for n in f.nodes) and not any(
                n["k"] == "call" and n.get("fn") in ("jsw_afind", "msg_parse_filename", "maildir_name_parse") for n in f.nodes):
            hooks.add(t)
    res.floor("wiping callbacks", len(hooks), 1)
    for t in sorted(hooks):
        f = prog.funcs[t]
        r = DelHook(ix)
        r.root = t
        s = Sim(r)
        b = tuple((("v", v), 0) for v in f.params if f.vars[v][1] in ("bool", "_Bool"))
        s.run([(t, 0, b)])
        res.add_sim(s, "callback")
    rule = Wipe(ix, hooks, dirs)
    sim = Sim(rule)
    q0 = ("?", 0, frozenset())
    roots = [(t, q0, ()) for t in sorted(sim.relevant) if t in prog.funcs and
             prog.funcs[t].file.startswith("libimaildir/") and not prog.funcs[t].static and
             not prog.funcs[t].file.startswith("libimaildir/log")]
    sim.run(roots)
    for k, lo in (("opens", 1), ("message deletions", 1), ("marks", 1), ("index removals", 1), ("unmarks", 1)):
        res.floor(k, rule.count[k], lo)
    res.add_sim(sim, "M08")


# ---- M09 -------------------------------------------------------------------
TOK = ("dirmgr_freeze_t", "dirmgr_hold_t")


def tok_type(t):
    t = (t or "").replace("const ", "").replace("struct ", "")
    for x in TOK:
        if t == x + " *":
            return x, 1
        if t == x + " **":
            return x, 2
    return None, 0


class Tokens(Rule):
    """q = (dangling fields, fields freed so far, local tokens held, local
    tokens freed, local mailboxes borrowed, command sent)"""

    def __init__(self, ix, fields, acq, rel):
        super().__init__(ix)
        self.fields = fields
        self.guards = frozenset(fields) | {("sc_t", "passthru_pre"), ("sc_t", "passthru_sent")}
        self.acq = acq
        self.rel = rel
        self.need = frozenset()     # fields that must be held when the command is sent
        self.root = None
        self.destroys = None

    def is_event(self, fn, i, n):
        if n["k"] == "call":
            if n.get("fn") in ("dirmgr_hold_get_imaildir", "dirmgr_hold_release_imaildir", "imap_cmd_new"):
                return fn.file != "libimaildir/dirmgr.c" and not fn.file.startswith("test")
            if "fe" in n and fn.file == "libcitm/sc.c" and fn.nodes[strip(fn, n["fe"])].get("d") == "p":
                return True      # a phase of a command, passed as a callback
            if n.get("fn") == "free" and self.owner(fn, n["a"][0]):
                return True
            return any(True for a in n["a"] if self.target(fn, a)[0])
        return False

    def target(self, fn, a):
        """(what, deref level) for a token argument: ('f', rec, field) or ('v', v)"""
        t, lvl = tok_type(fn.nodes[a].get("T"))
        if not t:
            t, lvl = tok_type(fn.nodes[strip(fn, a)].get("T"))
        if not t:
            return None, 0
        s = strip(fn, a)
        n = fn.nodes[s]
        if n["k"] == "call" and n.get("fn", "").startswith("steal_"):
            s, lvl = strip(fn, n["a"][0]), 2
            n = fn.nodes[s]
        if lvl == 2:
            if n["k"] != "un" or n["o"] != "&":
                return None, 0
            s = strip(fn, n["s"])
            n = fn.nodes[s]
        if n["k"] == "mem" and (n.get("r"), n["f"]) in self.fields:
            return ("f", n["r"], n["f"]), lvl
        if n["k"] == "ref" and n["d"] in ("l", "p"):
            return ("v", fn.id, n["v"]), lvl
        return None, 0

    def owner(self, fn, a):
        t = fn.nodes[strip(fn, a)].get("T", "").replace("struct ", "")
        return t[:-2] if t.endswith(" *") and any(r == t[:-2] for r, f in self.fields) else None

    def borrowed(self, fn, a):
        n = fn.nodes[strip(fn, a)]
        if n["k"] == "un" and n["o"] == "&":
            m = fn.nodes[strip(fn, n["s"])]
            if m["k"] == "ref" and m["d"] == "l":
                return (fn.id, m["v"])
        return None

    def on_call(self, sim, fn, i, n, q, args, env):
        dang, freed, held, gone, bor, sent = q
        name = n.get("fn")
        if name == "dirmgr_hold_get_imaildir":
            b = self.borrowed(fn, n["a"][1])
            self.count["borrows"] += 1
            if b is None:
                return None
            return [(0, (dang, freed, held, gone, bor | {b}, sent)), (NZ, q)]
        if name == "dirmgr_hold_release_imaildir":
            b = self.borrowed(fn, n["a"][1])
            return [(None, (dang, freed, held, gone, bor - {b}, sent))]
        if name == "free":
            r = self.owner(fn, n["a"][0])
            return [(None, (frozenset(x for x in dang if x[0] != r), freed, held, gone, bor, sent))] if r else None
        if (name or "").startswith("steal_"):
            return None
        if name == "imap_cmd_new" and self.root:
            self.count["commands sent"] += 1
            for f in sorted(self.need):
                if truth(env.get(("g",) + f)) is not True or f in dang:
                    self.report(sim, fn, i, "the server is asked to act before %s is taken" % f[1])
            return [(NZ, (dang, freed, held, gone, bor, 1)), (0, q)]
        outs = None
        for a in n["a"]:
            t, lvl = self.target(fn, a)
            if not t:
                continue
            kind = self.kind(fn, n)
            if t[0] == "f":
                f = t[1:]
                cell = ("g",) + f
                if lvl == 2 and kind != "release":
                    self.count["field acquisitions"] += 1
                    if truth(env.get(cell)) is True and f not in dang:
                        self.report(sim, fn, i, "%s is overwritten while it still holds one" % f[1])
                    e1, e0 = dict(env), dict(env)
                    e1[cell] = NZ
                    e0[cell] = 0
                    return [(0, (dang - {f}, freed - {f}, held, gone, bor, sent), e1), (NZ, q, e0)]
                if kind == "release":
                    self.count["field releases"] += 1
                    if f in dang:
                        self.report(sim, fn, i, "%s is released twice" % f[1])
                    e = dict(env)
                    if lvl == 2:
                        e[cell] = 0
                        return [(None, (dang - {f}, freed | {f}, held, gone, bor, sent), e)]
                    if env.get(cell) == 0:
                        return [(None, (dang, freed | {f}, held, gone, bor, sent), e)]
                    return [(None, (dang | {f}, freed | {f}, held, gone, bor, sent), e)]
                if f in dang:
                    self.report(sim, fn, i, "%s is used after it was released" % f[1])
            else:
                v = t[1:]
                if lvl == 2 and kind == "acquire":
                    self.count["local acquisitions"] += 1
                    return [(0, (dang, freed, held | {v}, gone - {v}, bor, sent)), (NZ, q)]
                al = [x for x in held if x[:2] == v and len(x) > 2]
                if kind == "release" and al:
                    f = al[0][2]
                    if len(al[0]) == 3:
                        if f in dang:
                            self.report(sim, fn, i, "%s is released twice" % f[1])
                        return [(None, (dang | {f}, freed | {f}, held - set(al), gone | {v}, bor, sent))]
                    return [(None, (dang, freed | {f}, held - set(al), gone | {v}, bor, sent))]
                if kind == "release" and fn.vars[v[1]][2] != "p" and v[1] not in fn.params:
                    if v in gone:
                        self.report(sim, fn, i, "a hold or freeze is released twice")
                    if v in held:
                        return [(None, (dang, freed, held - {v}, gone | {v}, bor, sent))]
                    return [(None, q)]
        if name and name.startswith("dirmgr_") and n.get("T") == "derr_t":
            return [(0, q), (NZ, q)]
        return outs

    def kind(self, fn, n):
        if n.get("fn") in ("dirmgr_freeze_free", "dirmgr_hold_free") or n.get("f") in self.rel:
            return "release"
        f = fp_field(fn, n)
        if n.get("f") in self.acq or (f and f[1].endswith("_new")):
            return "acquire"
        return None

    def on_assign(self, sim, fn, i, lhs, val, q, env):
        n = fn.nodes[strip(fn, lhs)]
        if n["k"] == "mem" and (n.get("r"), n["f"]) in self.fields:
            f = (n["r"], n["f"])
            cell = ("g",) + f
            a = fn.nodes[i]
            held = q[2]
            al = {x for x in held if x[0] == fn.id and len(x) == 3 and x[2] == f}
            if al:
                # a local still has it
                x = sorted(al)[0]
                held = held - al | {x + (1,)}
            elif f not in q[0] and truth(env.get(cell)) is True:
                self.report(sim, fn, i, "%s is forgotten without being released" % f[1])
            if a["k"] == "asg":
                r = fn.nodes[strip(fn, a["r"])]
                if r["k"] == "ref" and r["d"] in ("l", "p"):
                    held = held - {(fn.id, r["v"])}
            return (q[0] - {f}, q[1], held, q[3], q[4], q[5])
        if n["k"] == "ref" and n["d"] == "l" and fn.nodes[i]["k"] == "asg":
            return self.alias(fn, n["v"], fn.nodes[i]["r"], q)
        return q

    def on_decl(self, sim, fn, i, v, init, val, q, env):
        return self.alias(fn, v, init, q) if init is not None else q

    def alias(self, fn, v, src, q):
        k = field_of(fn, src)
        if k in self.fields and fn.vars[v][2] != "p":
            return (q[0], q[1], frozenset(x for x in q[2] if x[:2] != (fn.id, v)) | {(fn.id, v, k)}) + q[3:]
        return q

    def on_leave(self, fn, q, ret):
        return q

    def on_ret(self, sim, fn, i, v, q, env):
        return q

    def on_exit(self, sim, fn, q, ret, env):
        dang, freed, held, gone, bor, sent = q
        if self.destroys:
            for f in sorted(self.fields):
                if f[0] == self.destroys and f not in freed:
                    self.report(sim, fn, -1, "%s is not released when its owner goes away" % f[1])
            return
        for f in sorted(dang):
            self.report(sim, fn, -1, "%s is left behind after it was released" % f[1])
        for x in held:
            if x[0] == fn.id and len(x) != 3:
                self.report(sim, fn, -1, "a hold or freeze taken by this function is never released")
        for x in bor:
            if x[0] == fn.id:
                self.report(sim, fn, -1, "a mailbox borrowed from a hold is never given back")
        if self.root == fn.id:
            okp = [v for v in fn.params if fn.vars[v][1] in ("bool *", "_Bool *")]
            done = any(env.get(("d", v)) == 1 for v in okp)
            if truth(ret) is not True and done:
                self.count["completed commands"] += 1
                for f in sorted(self.fields):
                    if f[0] == "sc_t" and truth(env.get(("g",) + f)) is not False:
                        self.report(sim, fn, -1, "%s is still held after the command completed" % f[1])


class Frozen(Rule):
    """q = (known not frozen, directory entry closed or absent, registered)"""

    def is_event(self, fn, i, n):
        if n["k"] != "call" or not fn.file.startswith("libimaildir/dirmgr"):
            return False
        return (n.get("fn") in ("hashmap_gets", "hashmap_sets") and self.map(fn, n) is not None) or \
            n.get("fn") in ("managed_dir_new", "imaildir_register_up", "imaildir_register_dn", "imaildir_forceclose")

    def map(self, fn, n):
        f = field_of(fn, n["a"][0])
        return f[1] if f and f[0] == "dirmgr_t" else None

    def on_call(self, sim, fn, i, n, q, args, env):
        nf, closed, reg = q
        name = n.get("fn")
        if name in ("imaildir_free", "managed_dir_free"):
            return [(None, q)]
        if name == "hashmap_gets":
            m = self.map(fn, n)
            if m == "freezes":
                self.count["freeze lookups"] += 1
                return [(NZ, (0, closed, reg)), (0, (1, closed, reg))]
            if m == "dirs":
                return [(NZ, (nf, 0, reg)), (0, (nf, 1, reg))]
            return None
        if name == "hashmap_sets":
            m = self.map(fn, n)
            if m == "freezes":
                self.count["freezes"] += 1
                if not nf:
                    self.report(sim, fn, i, "a mailbox is frozen a second time")
                if not closed:
                    self.report(sim, fn, i, "a mailbox is frozen while it is open")
                return [(None, (nf, closed, 1))]
            return None
        if name == "imaildir_forceclose":
            return [(None, (nf, 1, reg))]
        if name in ("managed_dir_new", "imaildir_register_up", "imaildir_register_dn"):
            self.count["opens"] += 1
            if not nf:
                self.report(sim, fn, i, "a mailbox is opened without knowing that it is not frozen")
            return [(0, q), (NZ, q)] if n.get("T") == "derr_t" else [(None, q)]
        return None

    def on_exit(self, sim, fn, q, ret, env):
        if fn.name == "dirmgr_freeze_new" and truth(ret) is not True and not q[2]:
            self.report(sim, fn, -1, "a freeze is handed out that does not keep the mailbox from being opened")


class Count(Rule):
    """holds are counted: sharing one counts up, releasing counts down once"""
    guards = frozenset({("dirmgr_hold_t", "count")})

    def is_event(self, fn, i, n):
        return n["k"] == "call" and n.get("fn") in ("hash_elem_remove", "hashmap_gets", "hashmap_sets") and \
            fn.name in ("dirmgr_hold_new", "dirmgr_hold_free")

    def on_call(self, sim, fn, i, n, q, args, env):
        if n.get("fn") == "hashmap_gets":
            f = field_of(fn, n["a"][0])
            if f == ("dirmgr_t", "holds"):
                return [(NZ, "shared", env), (0, "fresh", env)]
        if n.get("fn") == "hashmap_sets":
            return [(None, "registered", env)]
        if n.get("fn") == "hash_elem_remove":
            return [(None, "removed", env)]
        return None

    def on_assign(self, sim, fn, i, lhs, val, q, env):
        n = fn.nodes[strip(fn, lhs)]
        if n["k"] == "mem" and (n.get("r"), n["f"]) == ("dirmgr_hold_t", "count"):
            a = fn.nodes[i]
            self.count["count changes"] += 1
            if a.get("o") in ("++", "p++", "+=") or (a["k"] == "asg" and a["o"] == "="):
                return "counted"
            return "down"
        return q

    def on_exit(self, sim, fn, q, ret, env):
        if fn.name == "dirmgr_hold_new":
            if truth(ret) is not True and q == "shared":
                self.report(sim, fn, -1, "a hold is shared without being counted")
            if truth(ret) is not True and q == "fresh":
                self.report(sim, fn, -1, "a hold is handed out that is not registered")


def down_reach(ix, names, skip=()):
    """functions from which one of the named functions may be called directly"""
    return ix.reach_up({f.id for nm in names for f in ix.byname.get(nm, [])})


def check_M09(prog, ix, res, tier):
    fields = set()
    for rec, fl in prog.records.items():
        for f, t in fl.items():
            if tok_type(t)[1] == 1 and rec not in TOK:
                fields.add((rec, f))
    res.floor("owning fields", len(fields), 4)
    acq = down_reach(ix, ("dirmgr_freeze_new", "dirmgr_hold_new"))
    rel = down_reach(ix, ("dirmgr_freeze_free", "dirmgr_hold_free")) - acq
    # helpers that take a pointer to the token
    rel = {t for t in rel if t in prog.funcs and any(tok_type(prog.funcs[t].vars[v][1])[1] for v in prog.funcs[t].params)}
    q0 = (frozenset(), frozenset(), frozenset(), frozenset(), frozenset(), 0)
    total = collections.Counter()

    def go(roots, label, **kw):
        r = Tokens(ix, fields, acq, rel)
        for k, v in kw.items():
            setattr(r, k, v)
        s = Sim(r)
        s.run(roots)
        for k, v in r.count.items():
            total[k] += v
        res.add_sim(s, label)
        return s

    # destructors
    recs = {r for r, f in fields}
    ndes = 0
    for f in prog.funcs.values():
        if not f.params or not f.name.endswith("_free"):
            continue
        t = f.vars[f.params[0]][1].replace("struct ", "")
        if t.endswith(" *") and t[:-2] in recs:
            ndes += 1
            go([(f.id, q0, ((("v", f.params[0]), NZ),))], "destructors", destroys=t[:-2])
    res.floor("destructors of owners", ndes, len(recs))

    # commands in two phases
    npairs = 0
    for f in prog.funcs.values():
        if f.file != "libcitm/sc.c":
            continue
        for i, n in enumerate(f.nodes):
            if n["k"] != "call" or n.get("f") not in prog.funcs:
                continue
            fr = [(ai, ix._fnref(f.nodes, a)) for ai, a in enumerate(n["a"])]
            fr = [(ai, t) for ai, t in fr if t in prog.funcs and prog.funcs[t].file == "libcitm/sc.c"]
            if len(fr) != 2:
                continue
            g = prog.funcs[n["f"]]
            (pa, pre), (ca, chk) = fr
            down = used_fields(prog, ix, chk, fields)
            taken = taken_fields(prog, ix, pre, fields)
            if not down and not taken:
                continue
            npairs += 1
            z = {("g",) + x: 0 for x in fields if x[0] == "sc_t"}
            b0 = [(("v", g.params[pa]), ("F", pre)), (("v", g.params[ca]), ("F", chk))]
            P, S = ("g", "sc_t", "passthru_pre"), ("g", "sc_t", "passthru_sent")
            h = dict(z)
            for x in down | taken:
                h[("g",) + x] = NZ
            roots = [(g.id, q0, tuple(b0 + list(z.items()) + [(P, 0), (S, 0)])),
                     (g.id, q0, tuple(b0 + list(h.items()) + [(P, 1), (S, 0)])),
                     (g.id, q0, tuple(b0 + list(h.items()) + [(P, 1), (S, 1)]))]
            go(roots, "two-phase commands", root=g.id, need=frozenset(down))
            distinct_names(prog, ix, pre, fields, res)
    res.floor("two-phase commands holding mailboxes", npairs, 3)

    # everything else that takes or borrows one
    roots = []
    r = Tokens(ix, fields, acq, rel)
    s = Sim(r)
    for t in sorted(s.base):
        f = prog.funcs[t]
        if f.file == "libimaildir/dirmgr.c" or f.name.endswith("_free") or f.file.startswith("test"):
            continue
        roots.append((t, q0, ()))
    go(roots, "users")
    for k, lo in (("field acquisitions", 4), ("field releases", 5), ("local acquisitions", 2), ("borrows", 3),
                  ("commands sent", 3), ("completed commands", 3)):
        res.floor(k, total[k], lo)

    r = Frozen(ix)
    s = Sim(r)
    s.run([(t, (0, 0, 0), ()) for t in sorted(s.relevant) if t in prog.funcs and prog.funcs[t].file == "libimaildir/dirmgr.c"
           and not prog.funcs[t].static])
    for k, lo in (("freeze lookups", 1), ("freezes", 1), ("opens", 2)):
        res.floor(k, r.count[k], lo)
    res.add_sim(s, "freezes")
    r = Count(ix)
    s = Sim(r)
    s.run([(f.id, "", ()) for nm in ("dirmgr_hold_new",) for f in ix.byname.get(nm, [])])
    res.note("hold count changes", r.count["count changes"]) if hasattr(res, "note") else None
    res.add_sim(s, "hold counts")


def used_fields(prog, ix, t, fields):
    """freezes a command hands to the directory manager when it completes"""
    out = set()
    for x in reach_down(prog, t):
        f = prog.funcs[x]
        if f.file != "libcitm/sc.c":
            continue
        for n in f.nodes:
            if n["k"] == "call" and n.get("fn", "").startswith("dirmgr_") and not n["fn"].endswith("_free"):
                for a in n["a"]:
                    k = field_of(f, a)
                    if k in fields:
                        out.add(k)
    return out


def taken_fields(prog, ix, t, fields):
    out = set()
    for x in reach_down(prog, t):
        f = prog.funcs[x]
        if f.file != "libcitm/sc.c":
            continue
        for n in f.nodes:
            if n["k"] == "call" and n.get("fn", "").endswith("_new"):
                for a in n["a"]:
                    k = field_of(f, a)
                    if k in fields and tok_type(f.nodes[strip(f, a)].get("T"))[1] == 2:
                        out.add(k)
    return out


def distinct_names(prog, ix, t, fields, res):
    """two freezes of one command are for two different mailboxes"""
    seen = {}
    f = prog.funcs[t]
    for i, n in enumerate(f.nodes):
        if n["k"] == "call" and n.get("fn") == "dirmgr_freeze_new":
            d = n["a"][1]
            m = fn_key(f, d)
            if m is not None and m in seen:
                res.add(f, n["L"], "the same mailbox is frozen twice instead of both mailboxes of the command")
            seen[m] = i


def fn_key(f, i):
    i = strip(f, i)
    n = f.nodes[i]
    if n["k"] == "un":
        return fn_key(f, n["s"])
    if n["k"] == "ref" and n["d"] == "l":
        ds = var_defs(f, n["v"])
        if len(ds) == 1:
            return fn_key(f, ds[0])
        return ("v", n["v"])
    if n["k"] == "call" and n["a"]:
        return (n.get("fn"), fn_key(f, n["a"][0]))
    if n["k"] == "mem":
        return (n.get("r"), n["f"])
    return None


CHECKS = {
    "M09": dict(check=check_M09, level="other",
                technique="path-sensitive typestate of freezes, holds and borrowed mailboxes: owning fields, locals, "
                "two-phase commands, destructors, and the directory manager's own bookkeeping"),
    "M08": dict(check=check_M08, level="other",
                technique="path-sensitive interprocedural typestate of the invalid mark, the index and the message "
                "directories through every entry point of the mailbox",
                assumptions=["directory operations reach the disk in order (the mark itself is not flushed by the program)"]),
    "M06": dict(check=check_M06, level="other",
                technique="path-sensitive must-validate analysis from every use of a mailbox name in a path back to the "
                "name check (through parameters and stored names), and a path-sensitive check of the validator itself",
                assumptions=["the string splitting and comparison functions of libdstr work as named"]),
    "M05": dict(check=check_M05, level="other",
                technique="path-sensitive interprocedural analysis of the failure broadcast, of every mailbox operation "
                "sessions call (error exit implies broadcast) and of every use of the mailbox by a session",
                assumptions=["callbacks of commands in flight only run while the mailbox is attached (they are released on detach)"]),
    "M04": dict(check=check_M04, level="other",
                technique="value-origin analysis of every UID and modification sequence, monotonicity of every write to "
                "the counters, and path-sensitive check that opening a mailbox scans the whole index first",
                assumptions=["the ordered trees of the mailbox are traversed completely by their traversal functions"]),
    "M03": dict(check=check_M03, level="other",
                technique="path-sensitive interprocedural typestate of messages and expunges through every entry point "
                "of the mailbox: new/changed state must be persisted before the file moves, the announcement or the "
                "deletion",
                assumptions=["the index update operations persist what they are given (M01)",
                             "one message is processed at a time: looking up the next one starts afresh"]),
}
