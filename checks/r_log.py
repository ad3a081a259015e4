"""M01, M02: the mailbox index (libimaildir/log_file.c)."""
import collections

from sim import Rule, Sim, NZ, truth, KILL
from front import Broken
from util import Strings, strip, walk, root_var, var_defs, calls, lit, loops_of
from prims import check_prims, success
from lin import Lin, State, L

LIVE, TMP = ".cache", ".cache.tmp"


class Files:
    """which (path leaf, mode) a FILE* expression may have been opened with"""
    OPENERS = {"dfopen_path": (0, 1, 2), "dfopen": (0, 1, 2)}

    def __init__(self, ix):
        self.ix = ix
        self.st = Strings(ix)
        self.memo = {}

    def cls(self, fn, i, depth=0):
        n = fn.nodes[strip(fn, i)]
        if n["k"] == "un" and n["o"] in ("&", "*"):
            return self.cls(fn, n["s"], depth)
        if n["k"] == "mem":
            return frozenset([("field", n.get("r"), n["f"])])
        if n["k"] == "ref" and n["d"] in ("l", "p"):
            return self.var(fn, n["v"], depth)
        return frozenset()

    def var(self, fn, v, depth=0):
        key = (fn.id, v)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = frozenset()
        out = set()
        for i, n in enumerate(fn.nodes):
            if n["k"] == "call" and n.get("fn") in self.OPENERS:
                pa, ma, fa = self.OPENERS[n["fn"]]
                t = root_var(fn, n["a"][fa])
                if t and t[0] == v and not t[1]:
                    mode = lit(fn, n["a"][ma])
                    for s in self.st.of(fn, n["a"][pa], params=True) or {"?"}:
                        out.add((s, mode))
            elif n["k"] == "call" and n.get("fn") == "fopen":
                pass
        for d in var_defs(fn, v):
            if depth < 5:
                out |= self.cls(fn, d, depth + 1)
                dn = fn.nodes[strip(fn, d)]
                if dn["k"] == "call" and dn.get("fn") == "fopen":
                    for s in self.st.of(fn, dn["a"][0], params=True) or {"?"}:
                        out.add((s, lit(fn, dn["a"][1])))
        if v in fn.params and depth < 5:
            pi = fn.params.index(v)
            for g, ci in self.ix.calls.get(fn.id, ()):
                a = g.nodes[ci]["a"]
                if pi < len(a):
                    out |= self.cls(g, a[pi], depth + 1)
        self.memo[key] = frozenset(out)
        return self.memo[key]


WRITES = {"dstr_fwrite": 0, "dstr_fwrite_quiet": 0, "dfputc": 0, "fputc": 1, "fputs": 1, "fwrite": 3, "fprintf": 0,
          "putc": 1, "fwrite_unlocked": 3, "fputc_unlocked": 1}
SYNCS = {"dffsync": 0}
FIELD = ("field", "log_t", "f")


def wf_file(fn, n):
    """FILE expression written by a _fmt(WF(file), ...) call"""
    for x, m in walk(fn, n["a"][0]):
        if m["k"] == "init" and m.get("r") == "_writer_file_t":
            for f, c in m["i"]:
                if f == "out":
                    return c
    return None


def wd_buf(fn, n):
    for x, m in walk(fn, n["a"][0]):
        if m["k"] == "init" and m.get("r") == "_writer_dstr_t":
            for f, c in m["i"]:
                if f == "out":
                    return c
    return None


def file_arg(fn, n, tab):
    name = n.get("fn")
    if name in tab and tab[name] < len(n["a"]):
        return n["a"][tab[name]]
    if tab is WRITES and name in ("_fmt", "_fmt_quiet", "_fmt_unlocked"):
        return wf_file(fn, n)
    return None


class Durable(Rule):
    """q = (record, file): record 0 none, 1 key, 2 key+value, 3 complete line;
    file 'C' nothing written yet, 'W' written, 'S' synced, 'X' failed"""
    APPENDS = {"dstr_append": 1, "dstr_append_quiet": 1}
    VALUES = {"marshal_message", "marshal_expunge", "marshal_uidvlds", "marshal_date"}
    EV = set(WRITES) | set(SYNCS) | set(APPENDS) | VALUES | {"log_key_marshal", "_fmt", "_fmt_quiet"}

    def __init__(self, ix, files):
        super().__init__(ix)
        self.files = files
        self.root = None

    def is_event(self, fn, i, n):
        return n["k"] == "call" and n.get("fn") in ("log_key_marshal",) or (
            n["k"] == "call" and self.is_log(fn, n))

    def is_log(self, fn, n):
        for tab in (WRITES, SYNCS):
            f = file_arg(fn, n, tab)
            if f is not None and FIELD in self.files.cls(fn, f):
                return True
        return False

    def on_call(self, sim, fn, i, n, q, args, env):
        name = n.get("fn")
        if name not in self.EV:
            return None
        rec, fil = q
        derr = n.get("T") in ("derr_t", "struct derr_t", "derr_type_t")
        okv, badv = (0, NZ)
        if name == "log_key_marshal":
            self.count["key"] += 1
            return [(0, (1, fil)), (NZ, (0, fil))]
        if name in self.VALUES:
            return [(0, (max(rec, 2) if rec else 0, fil)), (NZ, (0, fil))]
        f = file_arg(fn, n, WRITES)
        if f is not None:
            if FIELD not in self.files.cls(fn, f):
                return None
            self.count["write"] += 1
            if rec != 3:
                self.report(sim, fn, i, "something other than one complete index record is written to the index")
            return [(0, (0, "W")), (NZ, (0, "X"))]
        f = file_arg(fn, n, SYNCS)
        if f is not None:
            if FIELD not in self.files.cls(fn, f):
                return None
            self.count["sync"] += 1
            return [(0, (rec, "S" if fil == "W" else fil)), (NZ, (rec, "X"))]
        # text added to the record being built
        text = None
        if name in self.APPENDS:
            s = self.files.st.of(fn, n["a"][1])
            text = next(iter(s)) if len(s) == 1 else ""
        elif name in ("_fmt", "_fmt_quiet"):
            if wd_buf(fn, n) is None:
                return None
            text = lit(fn, n["a"][1]) or ""
        if text is not None:
            if not rec:
                return [(0, q), (NZ, q)]
            new = rec
            if new == 1 and "|" in text and len(text.strip("|\n")) > 0:
                new = 2
            if new == 2 and text.endswith("\n"):
                new = 3
            return [(0, (new, fil)), (NZ, (0, fil))]
        return None

    def on_exit(self, sim, fn, q, ret, env):
        if success(ret) and q[1] != "S":
            self.report(sim, fn, -1, {
                "C": "an index update can report success without writing its record",
                "W": "an index update can report success before its record is flushed to stable storage",
                "X": "an index update can report success although writing its record failed"}[q[1]])


def check_compaction(prog, ix, files, res):
    """the index an update may be moved to is flushed before it is renamed
    into place, and nothing but the index is opened as the index"""
    nopen = nren = 0
    rule = Replace(ix, files)
    sim = Sim(rule)
    for f in list(prog.funcs.values()):
        ren = False
        for i, n in enumerate(f.nodes):
            if n["k"] != "call":
                continue
            nm = n.get("fn")
            if nm in Files.OPENERS:
                out = f.nodes[strip(f, n["a"][Files.OPENERS[nm][2]])]
                if out["k"] == "un" and out["o"] == "&":
                    out = f.nodes[strip(f, out["s"])]
                if out["k"] == "mem" and out.get("r") == "log_t" and out["f"] == "f":
                    nopen += 1
                    if files.st.of(f, n["a"][0], params=True) != {LIVE}:
                        res.add(f, n["L"], "something other than the index is opened for appending index records")
            elif nm in ("drename_atomic_path", "drename_path") and TMP in files.st.of(f, n["a"][0], params=True):
                ren = True
        if ren:
            nren += 1
            sim.run([(f.id, "N", ())])
            check_copy(f, files, res)
    res.floor("places the index is opened for appending", nopen, 2)
    res.floor("functions replacing the index", nren, 1)
    res.add_sim(sim, "compaction")


def reaches(fn, b, targets, without=(), inside=None):
    seen, work = set(), [b]
    while work:
        x = work.pop()
        if x in seen or x in without or (inside is not None and x not in inside):
            continue
        seen.add(x)
        if x in targets:
            return True
        work += [s for s in fn.blocks[x].succs if s >= 0]
    return False


def check_copy(fn, files, res):
    """loops that fill the temporary file write something in every round and
    have a single way out that leads on to the rename"""
    ren, wr, sets, drop = set(), set(), set(), set()
    for b in fn.blocks.values():
        for e in list(b.elems) + ([b.cond] if b.cond is not None else []):
            for i, n in walk(fn, e):
                if n["k"] != "call":
                    continue
                nm = n.get("fn")
                if nm in ("drename_atomic_path", "drename_path"):
                    ren.add(b.id)
                f = file_arg(fn, n, WRITES)
                if f is not None and any(c[0] == TMP for c in files.cls(fn, f)):
                    wr.add(b.id)
                if nm in ("hashmap_sets", "hashmap_sets_unique"):
                    sets.add(b.id)
                if nm in ("dstr_eq", "dstr_cmp"):
                    drop.add(b.id)
    n = 0
    for h, body in loops_of(fn).items():
        act = (wr | sets) & body
        if not act:
            continue
        if sets & body:
            act = act | (drop & body)
        n += 1
        outs = [(b, s) for b in body for s in fn.blocks[b].succs if s >= 0 and s not in body and reaches(fn, s, ren)]
        if len(outs) > 1:
            res.add(fn, fn.blocks[outs[-1][0]].tline or fn.line, "the copy of the index can be cut short and still replace it")
        if h not in act and any(reaches(fn, s, {h}, act, body) for s in fn.blocks[h].succs if s >= 0):
            res.add(fn, fn.blocks[h].tline or fn.line, "a record of the index can be left out of the copy that replaces it")
    res.floor("loops copying the index", n, 1)


WRITERS = ("set_uidvlds", "set_himodseq_up", "set_explicit_modseq_dn", "update_msg", "update_expunge")


def check_M01(prog, ix, res, tier):
    check_prims(ix, res, ["dffsync"], "M01")
    files = Files(ix)
    rule = Durable(ix, files)
    sim = Sim(rule)
    slots = [(r, f) for r, f in ix.fp if r == "maildir_log_i" and f in WRITERS]
    roots = sorted({t for s in slots for t in ix.fp[s] if t in prog.funcs})
    res.floor("index update operations", len(roots), 5)
    sim.run([(t, (0, "C"), ()) for t in roots])
    res.floor("records marshaled", rule.count["key"], 1)
    res.floor("index writes on the analysed paths", rule.count["write"], 1)
    res.floor("index syncs on the analysed paths", rule.count["sync"], 1)
    res.add_sim(sim, "M01")
    # the writer must report short writes
    for name in ("dstr_fwrite_quiet", "dstr_fwrite"):
        fn = ix.one(name)
        if fn is None:
            raise Broken("no function " + name)
    check_fwrite(ix, res)
    # a compaction may be part of an update: what replaces the index has to
    # be complete and flushed as well
    check_compaction(prog, ix, files, res)
    # every write to the index is one of those operations
    reach = set()
    work = list(roots)
    while work:
        x = work.pop()
        if x in reach or x not in prog.funcs:
            continue
        reach.add(x)
        work += [n["f"] for n in prog.funcs[x].nodes if n["k"] == "call" and "f" in n]
    nw = 0
    for f in prog.funcs.values():
        for i, n in enumerate(f.nodes):
            if n["k"] == "call":
                a = file_arg(f, n, WRITES)
                if a is not None and FIELD in files.cls(f, a):
                    nw += 1
                    if f.id not in reach:
                        res.add(f, n["L"], "the index is written outside of the index update operations")
    res.floor("index write sites", nw, 1)


class Fwrite(Lin):
    def call(self, fn, fr, st, i, n, depth):
        if n.get("fn") in ("fwrite", "fwrite_unlocked"):
            args = [self.ev(fn, fr, st, a) for a in n["a"]]
            at = ("fwrite", fr, i)
            self.R.setdefault(at, (0, None))
            self.sites[(fn.id, i)] = n["L"]
            c = args[1].const() if isinstance(args[1], L) else None
            c2 = args[2].const() if isinstance(args[2], L) else None
            # every item written means every byte written
            self.want[at] = args[2]
            return [(L(0, {at: 1}), st)]
        return super().call(fn, fr, st, i, n, depth)


def check_fwrite(ix, res):
    """reporting success entails that fwrite wrote everything it was given"""
    n = 0
    for name in ("dstr_fwrite_quiet",):
        fn = ix.one(name)
        if fn is None:
            continue
        ln = Fwrite(ix.p, lambda f: f.name.endswith("_container_of"), 2000)
        ln.want, ln.sites = {}, {}
        outs = ln.run(fn, (), State())
        n += len(ln.sites)
        line = next(iter(ln.sites.values()), fn.line)
        res.functions.add(fn.id)
        for r, st in outs:
            if not isinstance(r, L) or r.const() not in (0, None):
                continue
            if r.const() is None and ln.lo(r) is not None and ln.lo(r) > 0:
                continue
            used = [a for a in ln.want if any(a in f.t for f in st.facts)]
            if used:
                a = used[-1]
                ok = ln.entails(st, ln.want[a].sub(L(0, {a: 1})))
            else:
                # only nothing can be written without writing
                size = [v for (k, v) in st.env.items()]
                ok = not any(True for a in ln.want if seen(st, a)) and nothing(fn, ln, st)
            if not ok:
                res.add(fn, line, "a short write is not detected")
    res.floor("fwrite results checked", n, 1)
    check_compared(ix, res)


def seen(st, a):
    return any(isinstance(v, L) and a in v.t for v in st.env.values())


def nothing(fn, ln, st):
    """the path established that some length is zero"""
    return any(len(f.t) == 1 and f.c == 0 and next(iter(f.t.values())) > 0 for f in st.facts)


def check_compared(ix, res):
    """a branch on (or derived from) fwrite's result guards each success"""
    n = 0
    for name in ("_writer_file_puts",):
        fn = ix.one(name)
        if fn is None:
            continue
        for i, c in enumerate(fn.nodes):
            if c["k"] == "call" and c.get("fn") in ("fwrite", "fwrite_unlocked"):
                n += 1
                vs = set()
                p = fn.parent[i]
                while p >= 0 and (fn.nodes[p]["k"] in ("cast", "cond", "stmtexpr") or fn.nodes[p].get("o") in (
                        "__extension__", ",")):
                    p = fn.parent[p]
                if p >= 0 and fn.nodes[p]["k"] == "decls":
                    vs = {v for v, init in fn.nodes[p]["d"]}
                elif p >= 0 and fn.nodes[p]["k"] == "asg":
                    rv = root_var(fn, fn.nodes[p]["l"])
                    vs = {rv[0]} if rv else set()
                used = False
                for b in fn.blocks.values():
                    if b.cond is None:
                        continue
                    for x, m in walk(fn, b.cond):
                        if x == i or (m["k"] == "ref" and m.get("v") in vs and m["d"] == "l"):
                            # must be compared with the requested size
                            pp = fn.parent[x]
                            while pp >= 0 and fn.nodes[pp]["k"] == "cast":
                                pp = fn.parent[pp]
                            if pp >= 0 and fn.nodes[pp]["k"] == "bin" and fn.nodes[pp]["o"] in ("==", "!=", "<") and all(
                                    "cv" not in fn.nodes[strip(fn, fn.nodes[pp][s])] for s in "lr"):
                                used = True
                if not used:
                    res.add(fn, c["L"], "a short write is not detected")
    res.floor("fwrite results compared", n, 1)


# ---- M02 -------------------------------------------------------------------
PATHFN_OK = {"exists_path", "sb_expand", "file_r_access_path", "stat_path", "lstat_path"}


class Replace(Rule):
    """q: 'N' no temporary, 'O' temporary opened for writing, 'S' synced since
    the last write, 'R' renamed into place"""

    def __init__(self, ix, files):
        super().__init__(ix)
        self.files = files

    def tmpfile(self, fn, f):
        return f is not None and any(c[0] == TMP for c in self.files.cls(fn, f))

    def is_event(self, fn, i, n):
        if n["k"] != "call":
            return False
        nm = n.get("fn")
        if nm in ("drename_atomic_path", "drename_path"):
            return TMP in self.files.st.of(fn, n["a"][0], params=True)
        if nm in Files.OPENERS:
            return TMP in self.files.st.of(fn, n["a"][0], params=True)
        return self.tmpfile(fn, file_arg(fn, n, WRITES)) or self.tmpfile(fn, file_arg(fn, n, SYNCS))

    def on_call(self, sim, fn, i, n, q, args, env):
        nm = n.get("fn")
        if n["k"] != "call" or not self.is_event(fn, i, n):
            return None
        if nm in Files.OPENERS:
            self.count["open"] += 1
            return [(0, "O"), (NZ, q)]
        if nm in ("drename_atomic_path", "drename_path"):
            self.count["rename"] += 1
            if LIVE in self.files.st.of(fn, n["a"][1], params=True) and q != "S":
                self.report(sim, fn, i, "the index is replaced by a file that was not completely written and flushed")
            return [(0, "R"), (NZ, "R")]
        if file_arg(fn, n, SYNCS) is not None:
            self.count["sync"] += 1
            return [(0, "S" if q in ("O", "S") else q), (NZ, "F")]
        self.count["write"] += 1
        return [(0, "O"), (NZ, "F")]


def check_M02(prog, ix, res, tier):
    check_prims(ix, res, ["dffsync", "drename", "drename_atomic", "drename_atomic_path", "touch", "touch_path"], "M02")
    files = Files(ix)
    st = files.st
    nsites = 0
    wipers = set()
    for f in prog.funcs.values():
        if f.file.startswith("libdstr/"):
            continue
        for i, n in enumerate(f.nodes):
            if n["k"] != "call" or "f" not in n:
                continue
            for ai, a in enumerate(n["a"]):
                T = f.nodes[a].get("T", "")
                if "string_builder_t" not in T or not path_sink(n):
                    continue
                s = st.of(f, a, params=True)
                if LIVE not in s:
                    continue
                nsites += 1
                nm = n["fn"]
                if nm in PATHFN_OK or nm == "touch_path":
                    continue
                if nm in Files.OPENERS:
                    mode = lit(f, n["a"][1])
                    if mode is None or mode.strip("b") not in ("r", "a"):
                        res.add(f, n["L"], "the index is opened with mode '%s', which destroys it in place" % mode)
                    continue
                if nm in ("drename_atomic_path", "drename_path"):
                    src = st.of(f, n["a"][0], params=True)
                    if ai == 1 and src == {TMP}:
                        continue
                    res.add(f, n["L"], "the index is renamed over by, or to, something that is not its temporary file")
                    continue
                if nm in ("remove_path", "dunlink_path"):
                    wipers.add(f.id)
                    continue
                res.add(f, n["L"], "the index is passed to %s()" % nm)
    res.floor("uses of the index path", nsites, 6)
    # removal is only reachable through the wipe entry point, checked by M08
    for w in sorted(wipers):
        f = prog.funcs[w]
        if f.name != "imaildir_log_rm":
            cs = {prog.funcs[c].name for c in ix.callers.get(w, ())}
            if cs != {"imaildir_log_rm"}:
                res.add(f, f.line, "the index is removed outside of a wipe")
    # flags used by touch
    t = ix.one("touch")
    if t is not None:
        for n in t.nodes:
            if n["k"] == "call" and n.get("fn") == "open":
                fl = t.nodes[strip(t, n["a"][1])].get("cv")
                if fl is None or fl & 0o1000:
                    res.add(t, n["L"], "touch() may truncate an existing file")
    rule = Replace(ix, files)
    sim = Sim(rule)
    roots = []
    top = set()
    for t in sim.relevant:
        if t in prog.funcs and t in sim.base:
            top.add(t)
    # analyse from the outermost functions of the log implementation
    up = ix.reach_up(top)
    for t in sorted(up):
        f = prog.funcs.get(t)
        if f is None or not f.file.startswith("libimaildir/"):
            continue
        if f.name == "imaildir_log_open" or not any(
                prog.funcs[c].file == f.file for c in ix.callers.get(t, ()) if c in prog.funcs):
            if f.file == "libimaildir/log_file.c":
                roots.append((t, "N", ()))
    res.floor("M02 roots", len(roots), 2)
    sim.run(roots)
    for f in prog.funcs.values():
        if f.file == "libimaildir/log_file.c" and any(
                n["k"] == "call" and n.get("fn") in ("drename_atomic_path", "drename_path") for n in f.nodes):
            check_copy(f, files, res)
    for k, v in (("open", 2), ("rename", 2), ("sync", 2), ("write", 2)):
        res.floor("temporary index %s sites" % k, rule.count[k], 1)
    res.add_sim(sim, "M02")


def path_sink(n):
    return n["fn"].endswith(("_path", "_path2")) or n["fn"] in (
        "rm_rf_path", "empty_dir", "for_each_file_in_dir", "dflock_path")


CHECKS = {
    "M01": dict(check=check_M01, level="other",
                technique="path-sensitive interprocedural typestate over every index update operation: record "
                "built completely, written, then synced before success; contract checks of the sync and write wrappers",
                assumptions=["fsync(2) makes data durable"]),
    "M02": dict(check=check_M02, level="other",
                technique="query over every use of the index path (open modes, renames, removals) and a path-sensitive "
                "typestate of the temporary file: written, synced, then renamed",
                assumptions=["rename(2) is atomic"]),
}
