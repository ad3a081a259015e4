"""IMAP-facing properties: replies, read-only mailboxes, session states."""
import collections

from front import Broken
from sim import Rule, Sim, NZ, truth
from util import strip, field_of, root_var, reach_down, walk, var_defs

SPENT = ("0", "spent")
LIST = ("link_t *",)
LISTOPS = ("link_list_append", "link_list_prepend", "link_list_append_list", "link_list_prepend_list",
           "link_list_pop_first", "link_list_pop_last")


def enum_val(prog, name):
    for en in prog.enums.values():
        if name in en:
            return en[name]
    raise Broken("no enum constant " + name)


# ---- I01 -------------------------------------------------------------------
class Replies(Rule):
    """Cells of link_t lists hold the number of replies queued on them.
    q = a reply with a tag was built but is not yet inside a response."""
    ptr_types = ("link_t *", "ie_dstr_t **", "imap_resp_t **")
    addr_guards = True
    frame = True

    def __init__(self, ix, guards):
        super().__init__(ix)
        self.guards = frozenset(guards)
        self.plus = enum_val(ix.p, "IMAP_RESP_PLUS")
        self.status = enum_val(ix.p, "IMAP_RESP_STATUS_TYPE")
        self.callbacks = set().union(*ix.fnparam.values())

    def is_event(self, fn, i, n):
        if fn.id in self.callbacks and fn.file.startswith("libcitm/"):
            return True
        if n["k"] == "call":
            if n.get("fn") in LISTOPS + ("ie_st_resp_new", "imap_resp_new"):
                return fn.file.startswith(("libcitm/", "libimaildir/"))
            if "fe" in n and fn.file.startswith("libcitm/") and fn.nodes[strip(fn, n["fe"])].get("d") == "p":
                return True
        if n["k"] == "mem" and n["f"] == "tag" and n.get("r") == "ie_st_resp_t":
            return fn.file.startswith(("libcitm/", "libimaildir/"))
        return False

    @staticmethod
    def listcell(args, k):
        a = args[k]
        return a[1] if isinstance(a, tuple) and a[0] == "&" else None

    def on_call(self, sim, fn, i, n, q, args, env):
        name = n.get("fn") or ""
        if name in LISTOPS:
            c = self.listcell(args, 0)
            cnt = env.get(c) if c else None
            cnt = cnt if isinstance(cnt, int) else 0
            e = dict(env)
            if name.startswith("link_list_pop"):
                if not any(m["k"] == "call" and m.get("fn") == "imap_resp_free" for m in fn.nodes):
                    return [(0, q, env), (NZ, q, env)]      # handed to the writer
                outs = [(NZ, q, env)]
                if cnt:
                    e[c] = cnt - 1
                    outs.append((NZ, q, e))
                else:
                    outs.append((0, q, e))
                return outs
            if name.endswith("_list"):
                d = self.listcell(args, 1)
                add = env.get(d) if d else None
                add = add if isinstance(add, int) else 0
                if d:
                    e[d] = 0
            else:
                add = 0
                r = root_var(fn, n["a"][1])
                t = fn.vars[r[0]][1] if r else ""
                if t.replace("struct ", "").startswith("imap_resp_t"):
                    v = env.get(("v", r[0]))
                    if isinstance(v, tuple) and v[0] == "T":
                        add = v[1]
                    elif q:
                        add, q = 1, 0
            if add and c:
                self.count["replies queued"] += 1
                e[c] = min(cnt + add, 3)
            elif add:
                self.count["replies queued elsewhere"] += 1
            return [(None, q, e)]
        if name.startswith("steal_") and args:
            c = self.listcell(args, 0)
            if c is None:
                return None
            e = dict(env)
            v = env.get(c)
            # a command's tag which was used before differs from no tag at all
            e[c] = SPENT if name == "steal_ie_dstr_t" and v != 0 else 0
            return [(v, q, e)]
        if name == "ie_st_resp_new":
            tagged = args[1] == SPENT or truth(args[1]) is not False
            self.count["status replies built"] += 1
            return [(r, 1 if tagged and truth(self.errval(fn, n, e)) is not True else q, e)
                    for r, q, e in sim.opaque(fn, i, n, q, args, env)]
        if name == "imap_resp_new":
            outs = []
            for r, q2, e in sim.opaque(fn, i, n, q, args, env):
                if args[1] == self.plus:
                    outs.append((("T", 1), q2, e))
                elif args[1] == self.status:
                    outs.append((("T", q2), 0, e))
                else:
                    outs.append((("T", 0), q2, e))
            return outs
        if name == "imap_resp_assert_writable":
            return [(args[1], q2, e) for r, q2, e in sim.opaque(fn, i, n, q, args, env)]
        tg = n.get("f")
        g = self.p.funcs.get(tg)
        if g is not None and (n.get("T", "").replace("struct ", "") == "imap_cmd_t *" or
                              any(g.vars[v][1].replace("struct ", "") == "imap_cmd_t *" for v in g.params)):
            # a command of our own to the server, not the client's
            keep = {c: v for c, v in env.items() if c[0] == "g"}
            outs = []
            for r, q2, e in sim.opaque(fn, i, n, q, args, env):
                e = dict(e)
                e.update(keep)
                outs.append((r, q2, e))
            return outs
        if tg is not None and tg not in sim.relevant and not name.endswith("container_of"):
            keep = [self.listcell(args, k) for k, a in enumerate(n["a"])
                    if fn.nodes[a].get("T", "").replace("struct ", "") in LIST]
            keep = [c for c in keep if c and env.get(c) is not None]
            if keep and not sim.errapi(fn, i, n, q, args, env):
                outs = []
                for r, q2, e in sim.opaque(fn, i, n, q, args, env):
                    e = dict(e)
                    for c in keep:
                        e[c] = env[c]
                    outs.append((r, q2, e))
                return outs
        return None

    def errval(self, fn, n, env):
        return None

    def on_assign(self, sim, fn, i, lhs, val, q, env):
        n = fn.nodes[strip(fn, lhs)]
        if n["k"] == "mem" and n["f"] == "tag" and n.get("r") == "ie_st_resp_t":
            if fn.nodes[i]["k"] == "asg" and truth(sim.ev(fn, fn.nodes[i]["r"], env)) is not False:
                self.count["status replies built"] += 1
                return 1
        return q


def dispatchers(prog, file):
    """functions of a file which decide by the type of a client's command"""
    out = []
    for f in prog.funcs.values():
        if f.file != file:
            continue
        for b in f.blocks.values():
            if b.term == "switch" and b.cond is not None and len(b.succs) >= 8:
                if "imap_cmd_type" in f.nodes[strip(f, b.cond)].get("T", ""):
                    out.append(f.id)
                    break
    return sorted(out)


def phase_flags(prog, handler, records):
    """bool fields which only the handler (and what it calls) changes"""
    down = reach_down(prog, handler, 12)
    inside, outside = set(), set()
    for f in prog.funcs.values():
        for n in f.nodes:
            if n["k"] == "asg":
                k = field_of(f, n["l"])
                if k and (k[0] in records or any(k[0].startswith(r + "::") for r in records)):
                    if prog.records.get(k[0], {}).get(k[1]) in ("bool", "_Bool"):
                        (inside if f.id in down else outside).add(k)
    return inside - outside


def cond_fields(f):
    """names of fields whose bare truth value decides a branch"""
    out = set()
    for b in f.blocks.values():
        if b.cond is None:
            continue
        i = strip(f, b.cond)
        while f.nodes[i]["k"] == "un" and f.nodes[i]["o"] == "!":
            i = strip(f, f.nodes[i]["s"])
        if f.nodes[i]["k"] == "mem":
            out.add(f.nodes[i]["f"])
    return out


def cmd_types(prog):
    for en in prog.enums.values():
        if "IMAP_CMD_SEARCH" in en:
            return en
    raise Broken("no command types")


class Handler:
    """all histories of a command handler: the state it leaves behind is the
    state it is entered with the next time"""

    def __init__(self, prog, ix, res, handler, owner, records, tags, hand_over=(), consts=(), rule=Replies):
        self.prog, self.ix, self.res = prog, ix, res
        self.f = prog.funcs[handler]
        self.handler = handler
        self.out = ("g",) + owner
        self.owner = owner[0]
        self.tag = ("g", "imap_cmd_t", "tag")
        self.type = ("g", "imap_cmd_t", "type")
        self.flags = phase_flags(prog, handler, records)
        self.tags = [("g",) + t for t in tags]
        self.hand_over = hand_over
        # what a command says does not change while it is worked on
        said = {(n["r"], n["f"]) for n in self.f.nodes
                if n["k"] == "mem" and n.get("r", "").endswith("_cmd_t") and n.get("r", "").startswith("ie_")
                and (n.get("T") in ("bool", "_Bool") or n.get("T", "").endswith("*"))
                and n["f"] in cond_fields(self.f)}
        self.said = [("g",) + x for x in sorted(said)]
        self.consts = consts = tuple(consts) + tuple(sorted(said))
        guards = list(consts) + [x[1:] for x in [self.out, self.tag, self.type] + self.tags] + sorted(self.flags)
        self.rule = rule(ix, guards)
        self.sim = Sim(self.rule)
        self.okp = [v for v in self.f.params if self.f.vars[v][1] in ("bool *", "_Bool *")]
        self.names = {v: k.replace("IMAP_CMD_", "") for k, v in cmd_types(prog).items()}
        self.always = False      # every call deals with a whole command
        self.states = 0
        self.outcomes = 0

    def run(self):
        z = {("g",) + x: 0 for x in self.flags}
        z[self.out] = 0
        z[self.tag] = NZ
        starts = [z]
        for c in self.consts:
            starts = [{**s, ("g",) + c: v} for s in starts for v in (0, NZ)]
        work = [(t, frozenset(s.items())) for s in starts for t in sorted(self.names)]
        seen = set(work)
        while work:
            t, st = work.pop()
            self.states += 1
            bind = dict(st)
            entry = dict(st)
            bind[self.type] = t
            if self.names[t] == "PLUS_REQ":
                bind[self.tag] = 0      # a continuation request has no tag
            bind = tuple(sorted(bind.items(), key=repr))
            self.sim.run([(self.handler, 0, bind)])
            for ret, q, gv, dv in self.sim.summ.get((self.handler, 0, frozenset(bind)), ()):
                if truth(ret) is True:
                    continue
                self.outcomes += 1
                gv = dict(gv)
                for c in self.said:
                    gv[c] = entry[c]
                nxt = self.judge(t, gv, dict(dv))
                if nxt is None:
                    continue
                todo = [(t, nxt[0])]
                if not nxt[1]:
                    # the next command: it may say something else and be
                    # another one, to which only what outlives a command's
                    # own phases carries over
                    todo = []
                    for x in sorted(self.names):
                        st = {c: v if x == t or c[1] == self.owner or c in (self.out, self.tag) else z.get(c)
                              for c, v in nxt[0] if c not in self.said}
                        sts = [st]
                        for c in self.said:
                            sts = [{**s, c: v} for s in sts for v in (0, NZ)]
                        todo += [(x, frozenset((c, v) for c, v in s.items() if v is not None)) for s in sts]
                for w in todo:
                    if w not in seen:
                        seen.add(w)
                        work.append(w)
        self.res.add_sim(self.sim, self.f.name)
        return self

    def judge(self, t, gv, dv):
        cnt = gv.get(self.out)
        cnt = cnt if isinstance(cnt, int) else 0
        done = truth(dv.get(self.okp[0])) if self.okp else True
        what = self.names[t]
        if self.okp == [] or self.always:
            done = True

        def bad(msg):
            self.res.add(self.f, self.f.line if hasattr(self.f, "line") else 0, "%s: %s" % (what, msg))
        if self.names[t] == "LOGOUT" and not cnt and any(
                c[2].startswith("log") and truth(gv.get(c)) is True for c in gv if c[1:] in self.flags):
            return None                 # answered by the shutdown
        if cnt > 1:
            bad("more than one reply is queued for one command")
            return None
        if self.names[t] in self.hand_over and done is not False and not cnt:
            return None
        keep = {c: v for c, v in gv.items() if c[1:] in self.flags or c in self.tags or c[1:] in self.consts}
        if done is not False:
            if not cnt:
                bad("a command is finished without a reply")
                return None
            keep[self.out] = 0
            keep[self.tag] = NZ
            return frozenset(keep.items()), False
        keep[self.out] = cnt
        if self.tag in gv:
            keep[self.tag] = gv[self.tag]
        return frozenset(keep.items()), True


def check_I01(prog, ix, res, tier):
    tags = sorted((r, "tag") for r, fl in prog.records.items() if r.startswith("dn_t::") and "tag" in fl)
    tot = collections.Counter()
    roots = dispatchers(prog, "libcitm/sc.c")
    res.floor("command handlers", len(roots), 1)
    for t in roots:
        h = Handler(prog, ix, res, t, ("sc_t", "resps"), ("sc_t", "dn_t"), tags,
                    consts=(("sc_t", "selected_mailbox"),)).run()
        tot.update(h.rule.count)
        res.stats["session states entered"] = h.states
        res.stats["phase flags"] = len(h.flags)
        res.floor("command outcomes", h.outcomes, 20)
    for file, rec, over in (("libcitm/anon.c", "anon_t", ("LOGIN",)), ("libcitm/imap_server.c", "imap_server_t", ())):
        roots = dispatchers(prog, file)
        res.floor("handlers in " + file, len(roots), 1)
        for t in roots:
            h = Handler(prog, ix, res, t, (rec, "resps"), (), [(rec, "tag")], over)
            h.always = True
            h.run()
            tot.update(h.rule.count)
            res.floor("command outcomes in " + file, h.outcomes, 20)
    for k, lo in (("replies queued", 8), ("status replies built", 5)):
        res.floor(k, tot[k], lo)


# ---- I02 -------------------------------------------------------------------
CHANGES = ("UPDATE_REQ_STORE", "UPDATE_REQ_EXPUNGE")


class ReadOnly(Rule):
    """q = 0; a request to change the mailbox must not be built while the
    session's read-only flag is set"""
    guards = frozenset({("dn_t", "examine"), ("imap_cmd_t", "type")})

    def __init__(self, ix, flag, value):
        super().__init__(ix)
        self.kinds = {enum_val(ix.p, k): k for k in CHANGES}
        self.value = value

    def kind(self, fn, i):
        for x, n in walk(fn, i):
            if n["k"] == "init" and n.get("r") == "update_req_t":
                for fld, c in n["i"]:
                    if fld == "type" and fn.nodes[strip(fn, c)].get("cv") in self.kinds:
                        return self.kinds[fn.nodes[strip(fn, c)]["cv"]]
        return None

    def is_event(self, fn, i, n):
        if n["k"] == "asg":
            if self.kind(fn, n["r"]):
                return True
            l = fn.nodes[strip(fn, n["l"])]
            if l["k"] == "mem" and l["f"] == "type" and l.get("r") == "update_req_t":
                return fn.nodes[strip(fn, n["r"])].get("cv") in self.kinds
        if n["k"] == "decls":
            return any(x >= 0 and self.kind(fn, x) for v, x in n["d"])
        return False

    def hit(self, sim, fn, i, kind):
        self.count[kind] += 1
        if self.value:
            who = [s.split(":")[1] for s in sim.stack]
            self.report(sim, fn, i, "%s builds a request (%s) to change a mailbox opened read-only"
                        % (" > ".join(who[:-1][-3:]), kind))

    def on_assign(self, sim, fn, i, lhs, val, q, env):
        n = fn.nodes[i]
        if n["k"] == "asg":
            k = self.kind(fn, n["r"])
            if k is None and self.is_event(fn, i, n):
                k = self.kinds[fn.nodes[strip(fn, n["r"])]["cv"]]
            if k:
                self.hit(sim, fn, i, k)
        return q

    def on_decl(self, sim, fn, i, v, init, val, q, env):
        if init >= 0:
            k = self.kind(fn, init)
            if k:
                self.hit(sim, fn, i, k)
        return q


class ExamineArg(Rule):
    """the read-only flag of a session reflects the command which opened it"""
    guards = frozenset({("imap_cmd_t", "type")})

    def __init__(self, ix, chain, want):
        super().__init__(ix)
        self.chain = chain      # fn id -> parameter index
        self.want = want

    def is_event(self, fn, i, n):
        return n["k"] == "call" and n.get("f") in self.chain and fn.id not in self.chain

    def on_call(self, sim, fn, i, n, q, args, env):
        if self.is_event(fn, i, n):
            self.count["opens"] += 1
            v = truth(args[self.chain[n["f"]]])
            if v is None or v != self.want:
                self.report(sim, fn, i, "the mailbox is not opened %s by %s" % (
                    ("read-only", "EXAMINE") if self.want else ("for writing", "SELECT")))
        g = self.p.funcs.get(n.get("f"))
        if g is not None and n.get("T", "").replace("struct ", "") == "imap_cmd_t *":
            return [(None, q, env)]
        return None


def check_I02(prog, ix, res, tier):
    flag = ("dn_t", "examine")
    if "examine" not in prog.records.get("dn_t", {}):
        raise Broken("dn_t has no examine flag")
    # A: operations of a read-only session
    entries = set()
    for f in prog.funcs.values():
        if f.file.startswith("libimaildir/") and any(f.vars[v][1].replace("struct ", "") == "dn_t *" for v in f.params):
            if any(g.file != f.file and not g.file.split("/")[-1].startswith("test") for g, i in ix.calls.get(f.id, ())):
                entries.add(f.id)
    res.floor("operations of a mailbox session", len(entries), 10)
    for value in (0, 1):
        r = ReadOnly(ix, flag, value)
        s = Sim(r)
        s.run([(t, 0, ((("g",) + flag, value),)) for t in sorted(entries)])
        res.add_sim(s, "read-only" if value else "writable")
        if not value:
            for k in CHANGES:
                res.floor("requests built in writable sessions: " + k, r.count[k], 1)
    # B: the flag is set when the session is made and never changed
    chain = {}
    writes = 0
    for f in prog.funcs.values():
        for i, n in enumerate(f.nodes):
            src = None
            if n["k"] == "init" and n.get("r") == "dn_t":
                for fld, c in n["i"]:
                    if fld == "examine":
                        src = c
            elif n["k"] == "asg" and field_of(f, n["l"]) == flag:
                src = n["r"]
            if src is None:
                continue
            writes += 1
            x = f.nodes[strip(f, src)]
            if x["k"] == "ref" and x.get("d") == "p" and len(var_defs(f, x["v"])) == 0:
                chain[f.id] = f.params.index(x["v"])
            else:
                res.add(f, n["L"], "the read-only flag of a session is set to something else than what it was opened with")
    res.floor("places which set the read-only flag", writes, 1)
    work = list(chain)
    while work:
        t = work.pop()
        for g, i in ix.calls.get(t, ()):
            x = g.nodes[strip(g, g.nodes[i]["a"][chain[t]])]
            if x["k"] == "ref" and x.get("d") == "p" and len(var_defs(g, x["v"])) == 0 and g.id not in chain:
                chain[g.id] = g.params.index(x["v"])
                work.append(g.id)
    opens = 0
    for t in dispatchers(prog, "libcitm/sc.c"):
        for name, want in (("IMAP_CMD_EXAMINE", True), ("IMAP_CMD_SELECT", False)):
            r = ExamineArg(ix, {c: k for c, k in chain.items()}, want)
            s = Sim(r)
            s.run([(t, 0, ((("g", "imap_cmd_t", "type"), enum_val(prog, name)),))])
            res.add_sim(s, name)
            opens += r.count["opens"]
            top = r
    res.floor("mailboxes opened by commands", opens, 2)


# ---- I03 -------------------------------------------------------------------
ANY_STATE = ("ERROR", "PLUS_REQ", "CAPA", "NOOP", "LOGOUT")
SELECTED = ("CHECK", "CLOSE", "EXPUNGE", "SEARCH", "FETCH", "STORE", "COPY", "IDLE", "IDLE_DONE", "UNSELECT")


class Refuse(Replies):
    """a command in the wrong state is answered with BAD or NO and has no
    other effect.  q as in Replies"""

    def __init__(self, ix, guards):
        super().__init__(ix, guards)
        self.ok_status = enum_val(ix.p, "IE_ST_OK")
        self.cmd = None
        self.acts = frozenset()
        self.handler = None

    def is_event(self, fn, i, n):
        if n["k"] == "call" and n.get("f") in self.acts and fn.file.startswith("libcitm/"):
            return True
        return super().is_event(fn, i, n)

    def on_call(self, sim, fn, i, n, q, args, env):
        if self.cmd:
            if n.get("fn") == "ie_st_resp_new":
                self.count["replies in the wrong state"] += 1
                st = [a for a, x in zip(args, n["a"]) if "ie_status_t" in fn.nodes[x].get("T", "")
                      or fn.nodes[x].get("n", "").startswith("IE_ST_")]
                k = next((k for k, v in enumerate(self.p.funcs[n["f"]].params)
                          if self.p.funcs[n["f"]].vars[v][1] == "ie_status_t"), None) if n["f"] in self.p.funcs else None
                v = args[k] if k is not None else (st[0] if st else None)
                if not isinstance(v, int) or v == self.ok_status:
                    self.report(sim, fn, i, "%s is accepted %s" % self.cmd)
            elif n.get("f") in self.acts:
                self.report(sim, fn, i, "%s is acted upon %s (%s)" % (self.cmd + (n["fn"],)))
        return super().on_call(sim, fn, i, n, q, args, env)


def check_I03(prog, ix, res, tier):
    names = cmd_types(prog)
    acts = set()
    for f in prog.funcs.values():
        if f.file.startswith("libimaildir/") and any(
                f.vars[v][1].replace("struct ", "") in ("dn_t *", "up_t *", "dirmgr_t *") for v in f.params):
            acts.add(f.id)
    for file, rec, allowed, when, sel in (
            ("libcitm/imap_server.c", "imap_server_t", ANY_STATE + ("STARTTLS",), "before STARTTLS", False),
            ("libcitm/anon.c", "anon_t", ANY_STATE + ("LOGIN",), "before login", False),
            ("libcitm/sc.c", "sc_t", None, "while no mailbox is selected", True)):
        roots = dispatchers(prog, file)
        res.floor("command handlers in " + file, len(roots), 1)
        for t in roots:
            h = Handler(prog, ix, res, t, (rec, "resps"), (rec, "dn_t") if sel else (), [(rec, "tag")],
                        consts=(("sc_t", "selected_mailbox"),) if sel else (), rule=Refuse)
            h.rule.acts = frozenset(acts)
            h.sim = Sim(h.rule)
            refused = 0
            for ename, v in sorted(names.items(), key=lambda x: x[1]):
                nm = ename.replace("IMAP_CMD_", "")
                wrong = (nm in SELECTED + ("LOGIN", "STARTTLS")) if sel else nm not in allowed
                if not wrong:
                    continue
                refused += 1
                h.rule.cmd = (nm, "after login" if sel and nm not in SELECTED else when)
                base = {("g",) + x: 0 for x in h.flags}
                base[h.out] = 0
                base[h.tag] = NZ
                base[h.type] = v
                for c in h.consts:
                    base[("g",) + c] = 0
                if nm == "IDLE_DONE":
                    for c in [c for c in base if c[2] == "idle"]:
                        base[c] = 1
                h.sim = Sim(h.rule)
                before = h.rule.count["replies in the wrong state"]
                bind = tuple(sorted(base.items(), key=repr))
                h.sim.run([(t, 0, bind)])
                if h.rule.count["replies in the wrong state"] == before:
                    res.add(h.f, h.f.line, "%s is not refused %s" % h.rule.cmd)
                for ret, q, gv, dv in h.sim.summ[(t, 0, frozenset(bind))]:
                    if truth(ret) is True:
                        continue
                    gv = dict(gv)
                    if not sel and h.okp and truth(dict(dv).get(h.okp[0])) is not False:
                        res.add(h.f, h.f.line, "%s is handed on %s" % h.rule.cmd)
                    ch = [c for c in base if c[1:] in h.flags and gv.get(c) != base[c] and c[2] != "idle"]
                    if ch:
                        res.add(h.f, h.f.line, "%s changes %s %s" % (nm, ch[0][2], when))
            res.add_sim(h.sim, h.f.name)
            res.violations += [x for x in h.rule.found.values() if x not in res.violations]
            res.floor("commands refused in " + file, refused, 10)


# ---- I04 -------------------------------------------------------------------
class Upgrade(Rule):
    """q = (list, raw): list of parsed messages "empty"/"?"; raw plaintext
    bytes "clean", "left" (in the buffer), "split" (a message boundary was
    kept, the rest not yet moved)"""

    def __init__(self, ix, lists, guards, reader):
        super().__init__(ix)
        self.lists = lists
        self.guards = frozenset(guards)
        self.reader = reader
        self.armed = False

    addr_guards = True

    NAMES = ("imap_cmd_read", "imap_resp_read", "imap_cmd_read_starttls", "imap_resp_reader_init",
             "imap_cmd_reader_init", "link_list_isempty", "link_list_pop_first", "dstr_leftshift",
             "duv_tls_wrap_server", "duv_tls_wrap_client")

    def is_event(self, fn, i, n):
        return n["k"] == "call" and n.get("fn") in self.NAMES and fn.file.startswith("libcitm/imap_")

    def on_call(self, sim, fn, i, n, q, args, env):
        name = n.get("fn") or ""
        if name not in self.NAMES or not self.is_event(fn, i, n):
            return None
        lst, raw = q
        if name in ("imap_cmd_read", "imap_resp_read", "imap_cmd_read_starttls"):
            self.count["reads"] += 1
            raw = "split" if name.endswith("_starttls") else "left"
            return [(r, ("?", raw), e) for r, q2, e in sim.opaque(fn, i, n, q, args, env)]
        if name.endswith("reader_init"):
            return [(r, (lst, "clean" if truth(r) is not True else raw), e)
                    for r, q2, e in sim.opaque(fn, i, n, q, args, env)]
        if name in ("link_list_isempty", "link_list_pop_first"):
            if self.fieldarg(fn, n["a"][0]) not in self.lists:
                return None
            if name == "link_list_isempty":
                return [(1, ("empty", raw), env)] + ([] if lst == "empty" else [(0, ("?", raw), env)])
            return [(0, ("empty", raw), env)] + ([] if lst == "empty" else [(NZ, ("?", raw), env)])
        if name == "dstr_leftshift":
            if raw == "split":
                return [(None, (lst, "moved"), env)]
            return None
        # the upgrade itself
        self.count["upgrades"] += 1
        if self.armed:
            if lst != "empty":
                self.report(sim, fn, i, "messages received before the upgrade to TLS may still be waiting to be processed")
            pre = name.endswith("server") and raw == "moved"
            if raw != "clean" and not pre:
                self.report(sim, fn, i, "plaintext received before the upgrade to TLS may still be in the reader")
        return [(r, ("?", "clean"), e) for r, q2, e in sim.opaque(fn, i, n, q, args, env)]

    @staticmethod
    def fieldarg(fn, i):
        n = fn.nodes[strip(fn, i)]
        if n["k"] == "un" and n["o"] == "&":
            return field_of(fn, n["s"])
        return None


def check_I04(prog, ix, res, tier):
    ups = 0
    for file, rec in (("libcitm/imap_server.c", "imap_server_t"), ("libcitm/imap_client.c", "imap_client_t")):
        lists, reads = set(), set()
        for f in prog.funcs.values():
            if f.file != file:
                continue
            for i, n in enumerate(f.nodes):
                if n["k"] == "call" and n.get("fn") in ("imap_cmd_read", "imap_resp_read", "imap_cmd_read_starttls"):
                    lists.add(Upgrade.fieldarg(f, n["a"][2]))
                    reads.add(f.id)
        lists.discard(None)
        res.floor("lists of received messages in " + file, len(lists), 1)
        # the state machine: the topmost function which both reads and upgrades
        wraps = {f.id for f, i in sum((ix.calls.get(g.id, []) for nm in ("duv_tls_wrap_server", "duv_tls_wrap_client")
                                       for g in ix.byname.get(nm, [])), []) if f.file == file}
        cand = [f.id for f in prog.funcs.values() if f.file == file and
                (reach_down(prog, f.id) & reads) and (reach_down(prog, f.id) & wraps)]
        cand = [t for t in cand if not any(c != t and t not in () and c in reach_down(prog, t) for c in cand)]
        res.floor("upgrading state machines in " + file, len(cand), 1)
        for t in cand:
            down = reach_down(prog, t, 12)
            inside, outside, inits = set(), set(), set()
            for f in prog.funcs.values():
                for n in f.nodes:
                    if n["k"] == "asg" and field_of(f, n["l"]):
                        k = field_of(f, n["l"])
                        if k[0] == rec and prog.records[rec].get(k[1]) in ("bool", "_Bool"):
                            (inside if f.id in down else outside).add(k)
            flags = inside - outside
            # settings of the connection never change
            fixed = {(rec, n["f"]) for t2 in down for n in prog.funcs[t2].nodes
                     if n["k"] == "mem" and n.get("r") == rec and n.get("T") in ("bool", "_Bool")} - inside - outside
            flags |= fixed
            if "derr_t" in prog.records[rec].get("e", ""):
                flags.add((rec, "e"))
            r = Upgrade(ix, lists, flags, None)
            r.armed = True
            s = Sim(r)
            work = [(("empty", "clean"), frozenset((("g",) + x, 0) for x in flags))]
            for x in sorted(fixed):
                work = [(q, (st - {(("g",) + x, 0)}) | {(("g",) + x, v)}) for q, st in work for v in (0, 1)]
            seen = set(work)
            while work:
                q, st = work.pop()
                s.run([(t, q, tuple(sorted(st, key=repr)))])
                for ret, q2, gv, dv in s.summ[(t, q, st)]:
                    w = (q2, frozenset((c, v) for c, v in gv if c[1:] in flags))
                    if w not in seen:
                        seen.add(w)
                        work.append(w)
            res.add_sim(s, file)
            res.stats["states of the connection in " + file] = len(seen)
            ups += r.count["upgrades"]
            res.floor("upgrades reached in " + file, r.count["upgrades"], 1)
            res.floor("reads reached in " + file, r.count["reads"], 1)


CHECKS = {
    "I01": dict(check=check_I01, level="other",
                technique="path-sensitive interprocedural count of replies queued per command, through every list a "
                "reply can travel on",
                assumptions=["a response object queued on a list is eventually written (asynchronous writer)"]),
    "I02": dict(check=check_I02, level="other",
                technique="path-sensitive reachability: with the session's read-only flag set no operation builds a "
                "change request; provenance of the flag back to the opening command"),
    "I03": dict(check=check_I03, level="other",
                technique="typestate: per session state, every command type which is not valid there only reaches a "
                "BAD or NO reply"),
    "I04": dict(check=check_I04, level="other",
                technique="typestate over all histories of the connection state machines: leftover plaintext at the "
                "call which starts TLS"),
}
