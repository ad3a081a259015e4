"""D01-D03: the DNS server.  D01: every byte of a query that is read lies in
the datagram, every byte written lies in the reply buffer; D02: what is
answered; D03: how much and how often."""
import re

from front import Broken
from lin import Lin, L, State, is_bytes, short
from util import calls

NAMES = ("parse_name", "skip_name", "labels_next", "rrs_next", "opts_next", "parse_rr", "parse_edns", "parse_pkt",
         "parse_qstn", "parse_hdr", "labels_iter", "rrs_iter", "opts_iter", "handle_packet", "sort_pkt", "is_bad_parse",
         "labels_read_reverse", "rrl_check", "on_recv_dns", "respond_acme", "write_response_hdr")
TRUST = ("skip_name", "labels_next", "rrs_next", "opts_next")
# (pointer, offset, count) of a record the parser filled in
STARTS = {"labels_iter": (("off",), ("nameoff",), ("used",)), "skip_name": (("nameoff",), ("off",)),
          "labels_read": (("off",), ("nameoff",)), "labels_read_reverse": (("off",), ("nameoff",)),
          "rrs_iter": (("off", "count"),), "opts_iter": (("optoff", "optcount"),)}
PAIRS = (("ptr", "rdoff", "rdlen"), ("ptr", "off", "len"), ("str", None, "len"))


class Dns:
    def __init__(self, prog, ix):
        self.p = prog
        self.ix = ix
        self.fs = {f.name: f for f in prog.funcs.values()
                   if f.file.startswith("server/dns/") and "/test_" not in f.file}
        for n in NAMES:
            if n not in self.fs:
                raise Broken("server/dns has no function %s" % n)
        self.parse = [f for f in self.fs.values() if f.file.rsplit("/", 1)[1] in ("parse.c", "write.c", "dns.c")]
        self.status = {}
        self.lins = {}
        self.callees = {}
        for f in self.parse:
            self.callees[f.name] = {n["fn"] for n in f.nodes if n["k"] == "call" and n.get("fn") in self.fs
                                    and "f" in n and n["f"] in prog.funcs}
        self.taken = set()
        for f in prog.funcs.values():
            called = set()
            for n in f.nodes:
                if n["k"] == "call" and "fe" in n:
                    called.add(n["fe"])
            for i, n in enumerate(f.nodes):
                if n["k"] == "ref" and n["d"] == "f" and n["n"] in self.fs and i not in called and f.parent[i] >= 0:
                    up = f.nodes[f.parent[i]]
                    if up["k"] == "call" and up.get("fe", -1) == i:
                        continue
                    self.taken.add(n["n"])
        for g in prog.globals.values():
            for n in g["nodes"]:
                if n["k"] == "ref" and n["d"] == "f":
                    self.taken.add(n["n"])

    def pairs(self, f):
        """(pointer, length) parameters: a byte pointer followed by its length"""
        ts = [f.vars[v][1] for v in f.params]
        out = []
        for k in range(len(ts) - 1):
            if is_bytes(ts[k]) and ts[k + 1] == "size_t" \
                    and f.vars[f.params[k + 1]][0] not in ("used", "start", "off", "pos"):
                out.append((f.params[k], f.params[k + 1]))
        return out

    def arrpair(self, f):
        ts = [f.vars[v][1].replace("const ", "") for v in f.params]
        for k in range(len(ts) - 1):
            if ts[k] in ("lstr_t *",) and ts[k + 1] == "size_t":
                return f.params[k], f.params[k + 1]
        return None

    def small(self, g):
        return len(g.nodes) < 60 and not any(n["k"] == "call" for n in g.nodes) or g.name in ("labels_iter_",)

    def order(self):
        out, seen = [], set()

        def go(n):
            if n in seen or n not in self.callees:
                return
            seen.add(n)
            for c in sorted(self.callees[n]):
                go(c)
            out.append(self.fs[n])
        for n in sorted(self.callees):
            go(n)
        return out

    def inline(self, g):
        if g.name not in self.callees or g.name in TRUST or g.name == "parse_name":
            return False
        return self.status.get(g.name) == "need" or (self.small(g) and g.name not in ("parse_hdr",))

    def start(self, f):
        """initial facts of a function's own contract"""
        st = State()
        for v in f.params:
            if f.vars[v][1].replace("const ", "") == "rr_t":
                ln = self.cur
                a = ln.read(st, (("v", (), v), "nameoff"), "size_t")
                b = ln.read(st, (("v", (), v), "rdoff"), "size_t")
                ln.read(st, (("v", (), v), "rdlen"), "uint16_t")
                st.facts = (a.add(L(11)).sub(b),)
        return st

    def bounded(self, f, ln, s, addr, size):
        """[addr, addr+size) lies in one of the regions f may use"""
        end = addr.add(size)
        z = State()
        for pr in self.pairs(f):
            P = ln.read(z, (("v", (), pr[0]),), "size_t")
            C = ln.read(z, (("v", (), pr[1]),), "size_t")
            if ln.entails(s, end.sub(P).sub(C)) and ln.entails(s, P.sub(addr), 2):
                return True
        for v in f.params:
            if f.vars[v][1].replace("const ", "") == "rr_t":
                P = ln.read(z, (("v", (), v), "ptr"), "const char *")
                e = ln.read(z, (("v", (), v), "rdoff"), "size_t").add(ln.read(z, (("v", (), v), "rdlen"), "uint16_t"))
                if ln.entails(s, end.sub(P).sub(e)):
                    return True
        # a local array
        for a, k in addr.t.items():
            room = self.arrlen(f, L(0, {a: 1})) if k == 1 and a[0] == "addr" else None
            if room is not None:
                off = addr.sub(L(0, {a: 1}))
                if ln.entails(s, off.add(size).sub(L(room))) and ln.entails(s, off.mul(-1)):
                    return True
        # a string constant
        for a, k in addr.t.items():
            if a[0] == "str" and k == 1:
                off = addr.sub(L(0, {a: 1})).add(size)
                if ln.entails(s, off.sub(L(len(a[1]) + 1))):
                    return True
        # a (pointer, length) couple of one record
        for names in PAIRS:
            if self.couple(addr, size, names):
                return True
        return False

    @staticmethod
    def couple(addr, size, names):
        szs = [a for a, k in size.t.items() if k == 1 and a[0] == "f" and a[1][-1] == names[2]]
        for s in szs:
            base, ver = s[1][:-1], s[2]
            want = L(0, {("f", base + (names[0],), ver): 1})
            if names[1]:
                want = want.add(L(0, {("f", base + (names[1],), ver): 1}))
            if addr == want and size == L(0, {s: 1}):
                return True
        # constants of a global record: str constant and its length
        return False

    @staticmethod
    def arrlen(f, A):
        """elements of the local array an argument points to"""
        a = A.atom() if isinstance(A, L) else None
        if a is None or a[0] != "addr" or len(a[1]) != 1 or a[1][0][0] != "v":
            return None
        m = re.search(r"\[(\d+)\]$", f.vars[a[1][0][2]][1])
        return int(m.group(1)) if m else None

    def is_qstn(self, f, base):
        if len(base) == 1:
            return f.vars[base[0][2]][1].replace("const ", "").startswith("dns_qstn_t")
        return base[-1] == "qstn"

    def asked(self, ln, s, base, ver, least, most=None):
        """the path has established the number of questions"""
        cands = [base + ("qdcount",)]
        if len(base) > 1:
            cands.append(base[:-1] + ("hdr", "qdcount"))
        for c in cands:
            q = ln.read(s, c, "uint16_t")
            k = q.sub(L(least))
            if any(s.conds.get(("eq", x.key())) is True for x in (k, k.mul(-1))):
                return True
            if ln.entails(s, L(least).sub(q)) and (most is None or ln.entails(s, q.sub(L(most)))):
                return True
        return False

    def analyse(self, res):
        """bottom up: which functions stay inside the buffers they are given"""
        bad = {}
        for f in self.order():
            ln = Lin(self.p, self.inline, 60000)
            self.cur = ln
            rets = ln.run(f, (), self.start(f))
            self.lins[f.name] = (ln, rets)
            res.functions.add(f.id)
            if ln.truncated:
                raise Broken("too many paths through %s" % f.name)
            fails = []
            for (fid, i), xs in ln.acc.items():
                for fn, n, addr, size, s, kind in xs:
                    self.obl += 1
                    if not self.bounded(f, ln, s, addr, size):
                        fails.append((fn, n, kind, addr, size))
                        break
            ap = self.arrpair(f)
            for (fid, i), xs in ln.elem.items():
                for fn, n, b, x, s, kind in xs:
                    a = b.atom()
                    if x.const() is not None and a is not None and a[0] == "addr":
                        continue
                    z = State()
                    if ap and b == ln.read(z, (("v", (), ap[0]),), "size_t"):
                        self.obl += 1
                        C = ln.read(z, (("v", (), ap[1]),), "size_t")
                        if ln.entails(s, x.add(L(1)).sub(C)) and ln.entails(s, x.mul(-1)):
                            continue
                        fails.append((fn, n, kind + "[]", b, x))
                        break
            for (fid, i), xs in ln.callsites.items():
                for fn, n, args, s in xs:
                    g = self.p.funcs.get(n.get("f"))
                    at = [k for k, a in enumerate(n["a"][:-1]) if is_bytes(fn.nodes[a].get("T", ""))] \
                        if "fn" not in n else []
                    if at:
                        # through a pointer: (..., out, cap, ...)
                        self.obl += 1
                        A, C = args[at[0]:at[0] + 2]
                        if not (isinstance(A, L) and isinstance(C, L)) or not self.bounded(f, ln, s, A, C):
                            fails.append((fn, n, "call", A, C))
                        continue
                    if g is None or g.name not in self.callees:
                        continue
                    ga = self.arrpair(g)
                    if ga and fn is f:
                        A, C = args[g.params.index(ga[0])], args[g.params.index(ga[1])]
                        room = self.arrlen(f, A)
                        if room is not None:
                            self.obl += 1
                            if not isinstance(C, L) or not ln.entails(s, C.sub(L(room))):
                                fails.append((fn, n, "call", A, C))
                    if self.status.get(g.name) != "good":
                        continue
                    if g.name in TRUST:
                        continue
                    for pr in self.pairs(g):
                        self.obl += 1
                        A, C = args[g.params.index(pr[0])], args[g.params.index(pr[1])]
                        if not (isinstance(A, L) and isinstance(C, L)) or not self.bounded(f, ln, s, A, C):
                            fails.append((fn, n, "call", A, C))
            if fails:
                self.status[f.name] = "need"
                bad[f.name] = fails
            elif ln.acc or any(self.status.get(c) in ("good",) for c in self.callees[f.name]):
                self.status[f.name] = "good"
            else:
                self.status[f.name] = "none"
        return bad


def d01(prog, ix, res, tier):
    D = Dns(prog, ix)
    D.obl = 0
    bad = D.analyse(res)
    callers = {}
    for n, cs in D.callees.items():
        for c in cs:
            callers.setdefault(c, set()).add(n)
    for name, fails in sorted(bad.items()):
        if name in TRUST:
            continue
        if callers.get(name) and name not in D.taken and name != "parse_name":
            continue      # judged where it is called
        f = D.fs[name]
        for fn, n, kind, addr, size in fails:
            what = {"r": "reads", "w": "writes", "r[]": "reads an element", "w[]": "writes an element",
                    "call": "passes a buffer and length"}[kind]
            res.add(fn, n["L"], "%s outside what %s knows to be inside its buffer" % (what, name))
    res.floor("accesses and calls whose bounds were decided", D.obl, 400)
    steps(D, res)
    starts(D, res)
    validated(D, res)
    datagrams(D, res)
    return D


def atoms_in(x, out):
    if isinstance(x, L):
        x = x.key()
    if isinstance(x, (tuple, frozenset)):
        if isinstance(x, tuple) and x and x[0] == "call":
            out.add(x)
        for y in x:
            atoms_in(y, out)
    return out


def validated(D, res):
    """what a parser filled in is used only after it said that the parse was ok"""
    n = 0
    bads = sorted(set(next(e for e in D.p.enums.values() if "BP_MINVAL" in e).values()))
    V = {"parse_pkt", "parse_rr", "parse_qstn", "parse_edns"}
    for f in D.parse:
        ln, rets = D.lins[f.name]
        calls_ = {i: m["fn"] for i, m in enumerate(f.nodes) if m["k"] == "call" and m.get("fn") in V}
        if not calls_:
            continue
        for (fid, i), xs in ln.callsites.items():
            for fn, node, args, s in xs:
                if fn is not f or node.get("fn") in V or node.get("fn") == "is_bad_parse":
                    continue
                vers = set()
                for a in args:
                    ats = list(a.t) if isinstance(a, L) else []
                    vers |= {x[2] for x in ats if x[0] == "f" and len(x) > 2}
                    if not isinstance(a, L):
                        vers.add(a.ver)
                used = [v for v in vers if isinstance(v, tuple) and v and v[0] == "c" and v[2] in calls_]
                if not used:
                    continue
                n += 1
                known = set()
                for x in s.facts:
                    atoms_in(x, known)
                good = set()
                for a in known:
                    if a[1] in V and not any(Eval(ln, lambda x, a=a, b=b: b if x == a else None).feasible(s)
                                             for b in bads):
                        good.add(a)
                        atoms_in(a[2], good)
                for v in used:
                    if not any(a[1] == calls_[v[2]] and a[-1] == v[3] + 1 for a in good):
                        res.add(f, node["L"], "uses what %s left behind without knowing that it succeeded"
                                % calls_[v[2]])
    # a position is used only after it was known not to be an error
    for f in D.parse:
        ln, rets = D.lins[f.name]
        for (fid, i), xs in ln.acc.items():
            for fn, node, addr, size, s, kind in xs:
                for a in addr.t:
                    if a[0] != "call" or a[1] not in ("parse_name", "parse_rr", "parse_qstn", "parse_hdr"):
                        continue
                    n += 1
                    if any(Eval(ln, lambda x, a=a, b=b: b if x == a else None).feasible(s) for b in bads):
                        res.add(fn, node["L"], "uses the result of %s as a position before checking it" % a[1])
        for (fid, h), ss in ln.backs.items():
            for s in ss:
                for l, v in s.env.items():
                    if l[0] in ("alias", "ver") or not isinstance(v, L):
                        continue
                    for a in v.t:
                        if a[0] == "call" and a[1] == "parse_name" and fid == f.id:
                            n += 1
                            if any(Eval(ln, lambda x, a=a, b=b: b if x == a else None).feasible(s) for b in bads):
                                res.add(f, f.line, "goes on with the result of %s without checking it" % a[1])
    res.floor("uses of parsed records", n, 6)


def datagrams(D, res):
    """the buffers handed to the parser are the ones of the datagram"""
    f = D.fs["on_recv_dns"]
    g = D.fs["handle_packet"]
    ps = D.pairs(g)
    n = 0
    for i, m in enumerate(f.nodes):
        if m["k"] != "call" or m.get("fn") != "handle_packet":
            continue
        n += 1
        q, r = [(m["a"][g.params.index(a)], m["a"][g.params.index(b)]) for a, b in ps]
        cap = size_of_array(f, r[0])
        c = f.nodes[r[1]].get("cv")
        if cap is None or c is None or c > cap:
            res.add(f, m["L"], "offers handle_packet more than the reply buffer holds")
        v = f.nodes[strip_all(f, q[1])]
        if not (v["k"] == "ref" and v["d"] == "p"):
            res.add(f, m["L"], "does not hand on the length that was received")
    if not n:
        raise Broken("on_recv_dns does not call handle_packet")
    # the buffer offered to the kernel
    al = D.fs.get("allocator")
    if al is None:
        raise Broken("the allocator of the dns server was not found")
    seen = 0
    for i, m in enumerate(al.nodes):
        if m["k"] != "init":
            continue
        its = [x for _, x in m.get("i", [])]
        arrs = [size_of_array(al, x) for x in its]
        cs = [al.nodes[x].get("cv") for x in its]
        a = [x for x in arrs if x]
        c = [x for x in cs if x]
        if a and c:
            seen += 1
            if max(c) > a[0]:
                res.add(al, m["L"], "offers the kernel more than the receive buffer holds")
    res.floor("receive and reply buffers compared", n + seen, 2)


def strip_all(f, i):
    while f.nodes[i]["k"] in ("cast", "paren"):
        i = f.nodes[i]["e"]
    return i


def size_of_array(f, i):
    """bytes of the array an expression decays from"""
    while True:
        n = f.nodes[i]
        m = re.search(r"char ?\[(\d+)\]$", n.get("T", ""))
        if m:
            return int(m.group(1))
        if n["k"] in ("cast", "paren"):
            i = n["e"]
            continue
        return None


# ---- validators and the iterators that trust them ---------------------------
class Eval:
    """value of a canonical form for concrete bytes"""

    def __init__(self, ln, byte):
        self.ln = ln
        self.byte = byte        # offset Lin key -> int or None

    def lin(self, l):
        v = l.c
        for a, k in l.t.items():
            x = self.atom(a)
            if x is None:
                return None
            v += k * x
        return v

    def key(self, k):
        return self.lin(L(k[0], dict(k[1])))

    def atom(self, a):
        v = self.byte(a)
        if v is not None:
            return v
        if a[0] == "op" and len(a) == 3 and a[1] in ("&", "|", "^", "*", ">>", "%", "/"):
            o, x = a[1], a[2]
            if isinstance(x, frozenset):
                vs = [self.key(y) for y in x]
                if len(vs) == 1:
                    vs = vs * 2
            elif o == "&" and isinstance(x, tuple) and isinstance(x[0], int) and isinstance(x[1], tuple):
                vs = [x[0], self.key(x[1])]
            elif isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple):
                vs = [self.key(y) for y in x]
            else:
                return None
            if None in vs:
                return None
            try:
                return {"&": lambda: vs[0] & vs[1], "|": lambda: vs[0] | vs[1], "^": lambda: vs[0] ^ vs[1],
                        "*": lambda: vs[0] * vs[1], ">>": lambda: vs[0] >> vs[1], "%": lambda: vs[0] % vs[1],
                        "/": lambda: vs[0] // vs[1]}[o]()
            except (KeyError, ZeroDivisionError, ValueError):
                return None
        if a[0] == "trunc":
            v = self.key(a[2])
            return None if v is None else v & a[1]
        if a[0] == "op" and a[1] == "c":
            # the value of a comparison
            fs, k = a[2]
            vs = [self.key(x) for x in fs]
            if fs and None not in vs:
                return int(all(v <= 0 for v in vs))
            gs = a[3] if len(a) > 3 else ()
            vs = [self.key(x) for x in gs]
            if gs and None not in vs:
                return int(not all(v <= 0 for v in vs))
            return self.truth(k)
        return None

    def truth(self, k):
        """a condition's key"""
        if not isinstance(k, tuple) or not k:
            return None
        if k[0] == "not":
            t = self.truth(k[1])
            return None if t is None else 1 - t
        if k[0] == "eq":
            v = self.key(k[1])
            return None if v is None else int(v == 0)
        if k[0] == "log":
            ts = []
            for fs, kk in k[2:4]:
                vs = [self.key(x) for x in fs]
                ts.append(int(all(v <= 0 for v in vs)) if fs and None not in vs else self.truth(kk))
            if k[1] == "&&":
                return 0 if 0 in ts else 1 if ts == [1, 1] else None
            return 1 if 1 in ts else 0 if ts == [0, 0] else None
        return None

    def feasible(self, st):
        for f in st.facts:
            v = self.lin(f)
            if v is not None and v > 0:
                return False
        for k, pol in st.conds.items():
            if isinstance(k, tuple) and k and k[0] == "eq":
                v = self.key(k[1])
                if v is not None and (v == 0) != pol:
                    return False
        return True


def steps(D, res):
    p = D.p
    P0 = 5000          # an arbitrary position
    base_byte = 1 << 40

    def runfn(name, extra=()):
        ln = Lin(p, lambda g: g.name in D.callees and g.name not in TRUST and g.name != "parse_name" or g.name in extra,
                 40000)
        D.cur = ln
        f = D.fs[name]
        rets = ln.run(f, (), D.start(f))
        return f, ln, rets

    def paths(ln, rets, fn):
        """states at the end of one turn: returns and back edges of fn's own loops"""
        out = [("ret", v, s) for v, s in rets]
        for (fid, h), ss in ln.backs.items():
            if fid == fn.id:
                out += [("back", None, s) for s in ss]
        return out

    def firstpos(f, outs):
        """the position a turn starts at: the lowest offset its first read uses"""
        for kind, v, s in outs:
            for addr, size, k, fid, i in s.reads:
                if k == "r":
                    return addr
        return None

    # -- names: label / end / pointer -----------------------------------------
    bpmin = None
    for e in p.enums.values():
        if "BP_MINVAL" in e:
            bpmin = min(v for k, v in e.items())
    if bpmin is None:
        raise Broken("bad_parse_e not found")

    def namefn(name):
        f, ln, rets = runfn(name)
        outs = paths(ln, rets, f)
        pos = firstpos(f, outs)
        if pos is None:
            raise Broken("%s reads nothing" % name)
        tab = {}
        for l in range(256):
            for l2 in (0, 1, 12, 255):
                def byte(a):
                    if a[0] == "B":
                        d = L(a[1][0], dict(a[1][1])).sub(pos)
                        c = d.const()
                        return {0: l, 1: l2}.get(c) if c is not None else None
                    return None
                ev = Eval(ln, byte)
                acts = set()
                for kind, v, s in outs:
                    if not s.reads or not ev.feasible(s):
                        continue      # a turn that reads nothing only hands an error on
                    maxread = -1
                    for addr, size, k, fid, i in s.reads:
                        c = addr.sub(pos).const()
                        if c is None:
                            c = ev.lin(addr.sub(pos))
                        maxread = max(maxread, c if c is not None else 1 << 30)
                    acts.add(effect(f, ln, ev, kind, v, s, pos, maxread))
                tab[(l, l2)] = acts
        return f, ln, tab

    def rel(ev, v, pos, ln, base):
        """offset relative to the start of the turn, or the absolute one"""
        if not isinstance(v, L):
            return "?"
        d = ev.lin(v.sub(pos.sub(base)))
        if d is not None:
            return ("+", d)
        d = ev.lin(v)
        if d is not None:
            return ("=", d)
        return "?"

    def ptrbase(f, ln):
        z = State()
        for v in f.params:
            if is_bytes(f.vars[v][1]):
                return ln.read(z, (("v", (), v),), "size_t")
        it = ln.read(z, (("v", (), f.params[0]),), "size_t")
        return ln.read(z, ln.pointee(it) + ("ptr",), "const char *")

    def effect(f, ln, ev, kind, v, s, pos, maxread):
        base = ptrbase(f, ln)
        z = pos.sub(base)          # the turn's position as a value
        if f.name in ("parse_name", "skip_name"):
            if kind == "ret":
                c = v.const() if isinstance(v, L) else None
                if c is not None and c >= bpmin:
                    return ("error",)
                return ("end", rel(ev, v, pos, ln, base), maxread)
            a = z.atom()
            new = ln.read(s, a[1], "size_t") if a is not None and a[0] == "f" else None
            return ("go", rel(ev, new, pos, ln, base), maxread)
        # labels_next
        it = ln.read(State(), (("v", (), f.params[0]),), "size_t")
        new = ln.read(s, ln.pointee(it) + ("pos",), "size_t")
        used = ln.read(s, ln.pointee(it) + ("used",), "size_t")
        if kind == "back":
            return ("go", rel(ev, new, pos, ln, base), maxread)
        if isinstance(v, L) and v.const() == 0:
            return ("stop", rel(ev, used, pos, ln, base), maxread)
        st_, le_ = ("str",), ("len",)
        where = ln.pointee(it) + ("lstr",)
        sv = ln.read(s, where + st_, "const char *")
        lv = ln.read(s, where + le_, "size_t")
        ext = ev.lin(sv.add(lv).sub(pos)) if isinstance(sv, L) and isinstance(lv, L) else None
        beg = ev.lin(sv.sub(pos)) if isinstance(sv, L) else None
        return ("label", rel(ev, new, pos, ln, base), maxread, beg, ext)

    fv, lv, vt = namefn("parse_name")
    nobl = 0
    trouble = set()

    def complain(fn, msg):
        if (fn.name, msg) not in trouble:
            trouble.add((fn.name, msg))
            res.add(fn, fn.line, msg)

    for (l, l2), acts in vt.items():
        nobl += 1
        good = {a for a in acts if a[0] != "error"}
        goes = {a for a in good if a[0] == "go"}
        ends = {a[1] for a in good if a[0] == "end"}
        if l == 0:
            if goes or ("+", 1) not in ends or ends - {("+", 1), "?"}:
                complain(fv, "a name does not end one byte after its zero length byte")
        elif l < 64:
            if ends or {a[1] for a in goes} != {("+", 1 + l)}:
                complain(fv, "a label is not skipped by its own length")
        elif l < 192:
            if good:
                complain(fv, "accepts a label longer than 63 bytes")
        else:
            tgt = ("=", ((l & 63) << 8) | l2)
            if ends or {a[1] for a in goes} != {tgt}:
                complain(fv, "does not continue where a name pointer points")
    for name in ("skip_name", "labels_next"):
        f, ln, tab = namefn(name)
        for (l, l2), acts in tab.items():
            nobl += 1
            if 64 <= l < 192:
                continue
            mr = max([a[2] for a in acts if len(a) > 2] or [0])
            lim = 0 if l < 64 else 1
            if mr > lim:
                complain(f, "reads further than parse_name checked")
            if name == "skip_name":
                want = {("end", ("+", 1))} if l == 0 else {("go", ("+", 1 + l))} if l < 64 else {("end", ("+", 2))}
                if {a[:2] for a in acts} != want:
                    complain(f, "does not advance over a name the way parse_name did")
            else:
                if l == 0:
                    ok = all(a[0] == "stop" for a in acts) and ("+", 1) in {a[1] for a in acts}
                elif l < 64:
                    ok = all(a[0] == "label" and a[1] == ("+", 1 + l) and a[3:] == (1, 1 + l) for a in acts) and acts
                else:
                    ok = all(a[0] == "go" and a[1] == ("=", ((l & 63) << 8) | l2) for a in acts) and acts
                if not ok:
                    complain(f, "does not advance over a name the way parse_name did")
    # the position after the name is the one after its first pointer
    for name in ("labels_next", "parse_name"):
        f, ln, rets = runfn(name)
        outs = paths(ln, rets, f)
        pos = firstpos(f, outs)
        base = ptrbase(f, ln)
        if name == "labels_next":
            it = ln.read(State(), (("v", (), f.params[0]),), "size_t")
            keep = {ln.pointee(it) + ("used",)}
        else:
            keep = set()
            for v, s in rets:
                a = v.atom() if isinstance(v, L) else None
                if a and a[0] == "f" and s.reads:
                    keep.add(a[1])
        for l in keep:
            moved, kept, bad = 0, 0, 0
            for k, v, s in outs:
                if k != "back" or not s.reads:
                    continue
                x = ln.read(s, l, "size_t")
                a = x.atom()
                isptr = any(y[0].sub(pos).const() == 1 for y in s.reads)
                if a is not None and a[0] == "f" and a[1] == l:
                    kept += isptr
                elif isptr and x.sub(pos.sub(base)).const() == 2:
                    moved += 1
                else:
                    bad += 1
            if bad or not moved or not kept:
                complain(f, "the position after a name is not two bytes after its first pointer")
        if not keep:
            complain(f, "does not remember where the name ended before its first pointer")

    # -- records and options ----------------------------------------------------
    def recfn(name, nameat):
        """(start of the fixed part, new position) of each finished turn"""
        f, ln, rets = runfn(name)
        outs = paths(ln, rets, f)
        r = []
        it = None
        if name.endswith("_next"):
            it = ln.read(State(), (("v", (), f.params[0]),), "size_t")
            base = ln.read(State(), ln.pointee(it) + ("ptr",), "const char *")
        elif name == "parse_edns":
            base = ln.read(State(), (("v", (), [v for v in f.params if f.vars[v][1] == "rr_t"][0]), "ptr"), "const char *")
        else:
            base = ptrbase(f, ln)
        for kind, v, s in outs:
            if it is not None:
                if kind != "ret" or isinstance(v, L) and v.const() == 0:
                    continue
                new = ln.read(s, ln.pointee(it) + ("pos",), "size_t")
                old = ln.read(State(), ln.pointee(it) + ("pos",), "size_t")
                seen = ln.read(s, ln.pointee(it) + ("seen",), "size_t")
                seen0 = ln.read(State(), ln.pointee(it) + ("seen",), "size_t")
                if seen.sub(seen0).const() != 1:
                    complain(f, "does not count the record it returns")
                r.append((f, ln, base, old, new, s, v))
            elif kind == "back":
                r.append((f, ln, base, None, None, s, None))
        return f, ln, r

    def namecall(s, who):
        for a in [x for ad, sz, k, fid, i in s.reads for x in ad.t]:
            if a[0] == "call" and a[1] == who:
                return a
        return None

    def loopentry(ln, at):
        """what a loop's position starts with"""
        for e, s in ln.entries:
            for l, v in list(s.env.items()):
                if l[0] not in ("alias", "ver") and isinstance(v, L) and v.atom() == at:
                    return ln.read(e, l, "size_t")
            if at[0] == "f" and ln.read(s, at[1], "size_t").atom() == at:
                return ln.read(e, at[1], "size_t")
        return None

    def check_rr(name, who):
        f, ln, rs = recfn(name, True)
        if not rs:
            complain(f, "never moves to the next record")
        for fn, ln, base, old, new, s, v in rs:
            N = namecall(s, who)
            if N is None:
                complain(f, "does not read the record after its name")
                continue
            n = L(0, {N: 1})
            if new is None:
                # the loop variable that holds the position: argument of parse_name
                k = N[2][-1]
                a = L(k[0], dict(k[1])).atom()
                new = ln.read(s, a[1], "size_t") if a and a[0] == "f" else None
                u0 = ln.read(State(), (("v", (), [v for v in f.params if f.vars[v][1] == "size_t"][-1]),), "size_t")
                if a is None or loopentry(ln, a) != u0:
                    complain(f, "does not start where the previous section ended")
            elif N[2][-1] != old.key():
                complain(f, "the name is not where the previous record ended")
            for hi, lo in ((0, 0), (0, 7), (2, 1), (255, 255)):
                def byte(a):
                    if a[0] == "B":
                        c = L(a[1][0], dict(a[1][1])).sub(base).sub(n).const()
                        return {8: hi, 9: lo}.get(c)
                    return None
                ev = Eval(ln, byte)
                d = ev.lin(new.sub(n)) if isinstance(new, L) else None
                if d != 10 + (hi << 8 | lo):
                    complain(f, "does not advance over the record's data")
            if name == "parse_rr":
                end = ln.read(State(), (("v", (), D.pairs(f)[0][1]),), "size_t")
                if not isinstance(new, L) or not ln.entails(s, new.sub(end)):
                    complain(f, "accepts a record whose data ends after the packet")
            for addr, size, k, fid, i in s.reads:
                c = addr.sub(base).sub(n).const()
                if c is None or c + (size.const() or 1 << 30) > 10 or c < 0:
                    complain(f, "reads outside the record header parse_rr checked")
            if name == "rrs_next":
                it = ln.read(State(), (("v", (), f.params[0]),), "size_t")
                rr = ln.pointee(it) + ("rr",)
                if ln.read(s, rr + ("nameoff",), "size_t") != old:
                    complain(f, "the record's name offset is not where its name is")
                if ln.read(s, rr + ("rdoff",), "size_t").sub(n).const() != 10:
                    complain(f, "the record's data offset is not where its data is")
                def byte2(a):
                    if a[0] == "B":
                        c = L(a[1][0], dict(a[1][1])).sub(base).sub(n).const()
                        return {8: 3, 9: 5}.get(c)
                if Eval(ln, byte2).lin(ln.read(s, rr + ("rdlen",), "uint16_t")) != 773:
                    complain(f, "the record's data length is not the one parse_rr checked")
                if ln.read(s, rr + ("ptr",), "const char *") != base:
                    complain(f, "the record does not point into the packet it came from")
    check_rr("parse_rr", "parse_name")
    check_rr("rrs_next", "skip_name")

    for name in ("parse_edns", "opts_next"):
        f, ln, rs = recfn(name, False)
        if not rs:
            complain(f, "never moves to the next option")
        for fn, ln, base, old, new, s, v in rs:
            reads = [a.sub(base) for a, sz, k, fid, i in s.reads if k == "r"]
            if old is None:
                reads = [r for r in reads if any(a[0] in ("ix",) or (a[0] == "f" and len(a) == 3 and a[2] != 0) for a in r.t)]
                if not reads:
                    complain(f, "does not read the option header")
                    continue
                at = [a for a in reads[0].t if a[0] == "ix" or a[2] != 0][0]
                old = L(0, {at: 1})
                for l, val in s.env.items():
                    if len(l) == 1 and l[0][0] == "v" and isinstance(val, L) and val.sub(old).lin if False else False:
                        pass
                cands = []
                for l, val in s.env.items():
                    if l[0] in ("alias", "ver") or not isinstance(val, L) or len(l) != 1:
                        continue
                    if at in val.t and l[0][0] == "v":
                        cands.append(val)
                vals = set()
                rrp = (("v", (), [v for v in f.params if f.vars[v][1] == "rr_t"][0]),)
                end = ln.read(State(), rrp + ("rdoff",), "size_t").add(ln.read(State(), rrp + ("rdlen",), "uint16_t"))
                first = ln.read(State(), rrp + ("rdoff",), "size_t")
                e0 = loopentry(ln, at)
                if e0 is None or e0 != first:
                    complain(f, "does not start with the first option")
                for l, v2 in s.env.items():
                    if l[0] not in ("alias", "ver") and l[-1] == "optoff" and v2 != first:
                        complain(f, "does not note where the options start")
                for val in cands:
                    def byte(a):
                        if a[0] == "B":
                            c = L(a[1][0], dict(a[1][1])).sub(base).sub(old).const()
                            return {2: 2, 3: 9}.get(c)
                    vals.add(Eval(ln, byte).lin(val.sub(old)))
                    if vals == {4 + 521} and not ln.entails(s, val.sub(end)):
                        complain(f, "accepts an option that ends after its record")
                if 4 + 521 not in vals:
                    complain(f, "does not advance over the option's data")
                cnt = [v2 for l, v2 in s.env.items() if l[0] not in ("alias", "ver") and l[-1] == "optcount"]
                if not cnt or not all(any(k == 1 for k in c.t.values()) and c.c == 1 for c in cnt if isinstance(c, L)):
                    complain(f, "does not count the options it checked")
                continue
            for hi, lo in ((0, 0), (0, 7), (2, 9), (255, 255)):
                def byte(a):
                    if a[0] == "B":
                        c = L(a[1][0], dict(a[1][1])).sub(base).sub(old).const()
                        return {2: hi, 3: lo}.get(c)
                d = Eval(ln, byte).lin(new.sub(old))
                if d != 4 + (hi << 8 | lo):
                    complain(f, "does not advance over the option's data")
            for r in reads:
                c = r.sub(old).const()
                if c is None or not 0 <= c < 4:
                    complain(f, "reads outside the option header parse_edns checked")
    # iterators stop after the number of records that were checked
    for name, cnt in (("rrs_next", "count"), ("opts_next", "count")):
        f, ln, rets = runfn(name)
        it = ln.read(State(), (("v", (), f.params[0]),), "size_t")
        seen0 = ln.read(State(), ln.pointee(it) + ("seen",), "size_t")
        cnt0 = ln.read(State(), ln.pointee(it) + (cnt,), "size_t")
        for v, s in rets:
            if isinstance(v, L) and v.const() == 0:
                continue
            nobl += 1
            d = seen0.sub(cnt0)
            eqk = ("eq", min(d.key(), d.mul(-1).key(), key=repr))
            if not (ln.entails(s, d.add(L(1)), 1) or s.conds.get(eqk) is False):
                complain(f, "returns more records than were counted")
    # an error is handed on, and every error is recognised
    bad_enum = next(e for e in p.enums.values() if "BP_MINVAL" in e)
    for name in ("is_bad_parse", "parse_name", "parse_qstn", "parse_rr", "parse_hdr"):
        f, ln, rets = runfn(name)
        u = [v for v in f.params if f.vars[v][1] == "size_t"][-1]
        ua = ln.read(State(), (("v", (), u),), "size_t").atom()
        for en, val in sorted(bad_enum.items()):
            nobl += 1

            def byte(a):
                return val if a == ua else None
            ev = Eval(ln, byte)
            for v, s in rets:
                if not ev.feasible(s):
                    continue
                r = ev.lin(v) if isinstance(v, L) else None
                if r is None or (r == 0 if name == "is_bad_parse" else r < bpmin):
                    complain(f, "does not recognise %s" % en if name == "is_bad_parse" else "goes on after an error")
    # what the validators note down for the iterators
    for name, off in (("parse_rr", "off"), ("parse_qstn", "off")):
        f, ln, rets = runfn(name)
        rec = ln.read(State(), (("v", (), f.params[0]),), "size_t")
        start = [v for v in f.params if f.vars[v][1] == "size_t"][-1]
        u0 = ln.read(State(), (("v", (), start),), "size_t")
        for v, s in rets:
            c = v.const() if isinstance(v, L) else None
            if c is not None and c >= bpmin:
                continue
            if any(isinstance(k, tuple) and False for k in s.conds):
                continue
            nobl += 1
            o = ln.read(s, ln.pointee(rec) + (off,), "size_t")
            if isinstance(v, L) and v == u0 and o != u0 and (ln.pointee(rec) + (off,)) not in s.env:
                continue     # is_bad_parse(used) handed through
            if isinstance(v, L) and v.atom() and v.atom()[0] == "call":
                continue     # an error of parse_name handed through
            if o != u0:
                complain(f, "does not note where the section starts")
            if name == "parse_rr":
                cv = [x for x in f.params if f.vars[x][1] == "uint16_t"][0]
                if ln.read(s, ln.pointee(rec) + ("count",), "uint16_t") != ln.read(State(), (("v", (), cv),), "uint16_t"):
                    complain(f, "does not note how many records it checked")
    res.stats["name, record and option steps compared"] = nobl


def starts(D, res):
    """an iterator starts where the parser found the record"""
    n = 0
    for f in D.parse:
        ln, rets = D.lins[f.name]
        for (fid, i), xs in ln.callsites.items():
            for fn, node, args, s in xs:
                g = node.get("fn")
                if g not in STARTS or fn is not f:
                    continue
                a = args if g not in ("labels_iter", "rrs_iter", "opts_iter") else args[1:]
                n += 1
                if g == "opts_iter":
                    continue
                pa = a[0].atom() if isinstance(a[0], L) else None
                sa = a[1].atom() if isinstance(a[1], L) else None
                if pa is None or pa[0] != "f":
                    continue
                if len(pa[1]) == 1:
                    continue      # a parameter handed on: judged at the caller
                if pa[1][-1] != "ptr":
                    res.add(fn, node["L"], "%s walks something that is not a parsed packet" % g)
                    break
                base, ver = pa[1][:-1], pa[2]
                if sa is None or sa[0] != "f" or len(sa[1]) == 1:
                    if sa is None:
                        res.add(fn, node["L"], "%s starts at a computed offset" % g)
                        break
                    continue
                ok = False
                for names in STARTS[g]:
                    if sa[1] == base + (names[0],) and sa[2] == ver:
                        ok = True
                        if len(names) > 1:
                            ca = a[2].atom() if isinstance(a[2], L) else None
                            ok = ca is not None and ca[0] == "f" and ca[1] == base + (names[1],)
                    if names[0] == "used" and sa[1][-1] == "used":
                        ok = True
                if f.name in TRUST and sa[1] == base + ("pos",) and sa[2] == ver:
                    ok = True         # an iterator walking on from its own position
                if not ok:
                    res.add(fn, node["L"], "%s does not start where the parser found the record" % g)
                    break
                if sa[1][-1] == "off" and D.is_qstn(f, base) and not D.asked(ln, s, base, ver, 1):
                    res.add(fn, node["L"], "%s reads a name of a question section that may hold none" % g)
                    break
    res.floor("iterator starts checked", n, 8)
    # what the iterators start from
    for name, nxt in (("labels_iter", "labels_next"), ("rrs_iter", "rrs_next"), ("opts_iter", "opts_next")):
        f = D.fs[name]
        ln = Lin(D.p, lambda g: False, 2000)
        ln.run(f, (), State())
        z = State()
        got = 0
        for (fid, i), xs in ln.callsites.items():
            for fn, node, args, s in xs:
                if node.get("fn") != nxt:
                    continue
                got += 1
                it = ln.read(z, (("v", (), f.params[0]),), "size_t")
                here = ln.pointee(it)
                if not isinstance(args[0], L) or args[0] != it:
                    res.add(f, node["L"], "%s does not start the iterator it was given" % name)
                    continue
                ps = [v for v in f.params[1:]]
                if name == "opts_iter":
                    src = [ln.read(z, (("v", (), ps[0]), x), t)
                           for x, t in (("ptr", "const char *"), ("optoff", "size_t"), ("optcount", "size_t"))]
                else:
                    src = [ln.read(z, (("v", (), v),), "size_t") for v in ps]
                want = list(zip(("ptr", "pos", "count"), src)) + [("seen" if name != "labels_iter" else "after_ptr", L(0))]
                for fld, w in want:
                    v = ln.read(s, here + (fld,), "size_t")
                    if not isinstance(v, L) or v != w:
                        res.add(f, node["L"], "%s starts with the wrong %s" % (name, fld))
        if not got:
            res.add(f, f.line, "%s does not start with the first record" % name)


# ---- D02: what is answered ---------------------------------------------------
def holds(ln, s, d):
    """the path knows that a linear form is zero"""
    if any(s.conds.get(("eq", x.key())) is True for x in (d, d.mul(-1))):
        return True
    return ln.entails(s, d) and ln.entails(s, d.mul(-1))


def nonzero(ln, s, d):
    return any(s.conds.get(("eq", x.key())) is False for x in (d, d.mul(-1))) or ln.entails(s, L(1).sub(d)) \
        or ln.entails(s, d.add(L(1)))


def fnname(v):
    a = v.atom() if isinstance(v, L) else None
    return a[1].split("@")[0] if a is not None and a[0] == "fn" else None


def sorted_out(D, res):
    """what sort_pkt has established when it picks a responder"""
    f = D.fs["sort_pkt"]
    ln = Lin(D.p, lambda g: g.name in D.callees and g.name not in TRUST and g.name != "lstr_ieq"
             and g.name not in NAMES, 20000)
    rets = ln.run(f, (), State())
    pk = (("v", (), f.params[0]),)
    nm = ln.read(State(), (("v", (), f.params[1]),), "size_t")
    n = ln.read(State(), (("v", (), f.params[2]),), "size_t")
    asked = handle_asked(D)
    zone = ("com", "splintermail", "user")
    wants = {"respond_root": 3, "respond_user": 4, "respond_acme": 5}
    out = {}
    count = 0
    for v, s in rets:
        who = fnname(v)
        if who is None:
            raise Broken("sort_pkt returns something that is not a responder")
        out.setdefault(who, 0)
        if who == "norespond":
            continue
        count += 1
        out[who] += 1

        def fld(*names, T="uint16_t"):
            return ln.read(s, pk + names, T)
        qd = fld("hdr", "qdcount")
        need = [("a response", holds(ln, s, fld("hdr", "qr", T="unsigned int"))),
                ("a query that is not a standard one", holds(ln, s, fld("hdr", "opcode", T="unsigned int"))),
                ("a packet without exactly one question", asked or holds(ln, s, qd.sub(L(1)))),
                ("a class other than IN", holds(ln, s, fld("qstn", "qclass").sub(L(1)))),
                ("query type 0", nonzero(ln, s, fld("qstn", "qtype")))]
        labels = {}
        known = set()
        for k, pol in s.conds.items():
            if isinstance(k, tuple) and k[0] == "eq" and pol is False:
                for a in atoms_in(k[1], set()):
                    known.add(a)
        for a in known:
            if a[1] != "lstr_ieq" or len(a[2]) != 2:
                continue
            for x, y in (a[2], a[2][::-1]):
                if x[0] == "rec" and y[0] == "rec" and x[1] and isinstance(x[1][-1], tuple) and x[1][-1][0] == "x":
                    at = L(x[1][-1][1][0], dict(x[1][-1][1][1])).const()
                    if len(y) > 3 and x[1][:-1] == ln.pointee(nm):
                        lv = dict(y[3])
                        st_, le = lv.get(("str",)), lv.get(("len",))
                        if st_ and le:
                            t = [z for z in dict(st_[1])]
                            if len(t) == 1 and t[0][0] == "str" and le[0] == len(t[0][1]) and not le[1]:
                                labels[at] = t[0][1].lower()
        need.append(("a name outside our zone", all(labels.get(k) == z for k, z in enumerate(zone))
                     and ln.entails(s, L(3).sub(n))))
        if who in wants:
            need.append(("a name of the wrong depth as %s" % who[8:], holds(ln, s, n.sub(L(wants[who])))))
        if who == "respond_acme":
            need.append(("a name that is no challenge", labels.get(4) == "_acme-challenge"))
        for what, ok in need:
            if not ok:
                res.add(f, f.line, "answers %s" % what)
    res.floor("ways to an answer in sort_pkt", count, 4)
    for w in wants:
        if not out.get(w):
            res.add(f, f.line, "never answers through %s" % w)
    return out


def handle_asked(D):
    """handle_packet sorts only packets with one question"""
    f = D.fs["handle_packet"]
    ln, rets = D.lins["handle_packet"]
    ok = None
    for (fid, i), xs in ln.callsites.items():
        for fn, node, args, s in xs:
            if fn is f and node.get("fn") == "sort_pkt":
                a = args[0]
                base = a.src if not isinstance(a, L) else None
                good = False
                if base:
                    q = ln.read(s, base + ("hdr", "qdcount"), "uint16_t")
                    good = holds(ln, s, q.sub(L(1)))
                ok = good if ok is None else ok and good
    return bool(ok)


def secrets(D, res):
    """what is said about a challenge"""
    f = D.fs["respond_acme"]
    ln = Lin(D.p, lambda g: False, 2000)
    rets = ln.run(f, (), State())
    arg = ln.read(State(), (("v", (), f.params[0]),), "size_t")
    pk = (("v", (), f.params[1]),)
    n = 0
    seen = set()
    for (fid, i), xs in ln.callsites.items():
        for fn, node, args, s in xs:
            g = node.get("fn")
            if g not in ("positive_resp", "negative_resp", "norecord_resp"):
                continue
            n += 1
            sv = ln.read(s, ln.pointee(arg) + ("str",), "const char *")
            q = ln.read(s, pk + ("qstn", "qtype"), "uint16_t")
            unsure = L(0, {("addr", (("g", "C_UNSURE"),)): 1})
            istxt = holds(ln, s, q.sub(L(16)))
            none = holds(ln, s, sv)
            uns = holds(ln, s, sv.sub(unsure))
            if g == "positive_resp":
                seen.add("yes")
                if not (istxt and nonzero(ln, s, sv) and nonzero(ln, s, sv.sub(unsure))):
                    res.add(f, node["L"], "serves a challenge that is not known")
            elif g == "negative_resp" and istxt:
                # an unsure answer must not be a confident or cacheable "no"
                if uns:
                    seen.add("unsure")
                    rc, aa, soa = args[1], args[2], args[3]
                    if rc.const() != 2 or soa.const() != 0:
                        res.add(f, node["L"], "turns an unsure answer into something else than a server failure")
            if g != "positive_resp" and g == "norecord_resp":
                seen.add("no")
                if istxt and not none:
                    res.add(f, node["L"], "denies a challenge it may not know about yet")
    for w in ("yes", "no", "unsure"):
        if w not in seen:
            res.add(f, f.line, "has no answer for the case \"%s\"" % w)
    # where the secret comes from
    f = D.fs["handle_packet"]
    ln = Lin(D.p, lambda g: False, 20000)
    ln.run(f, (), State())
    got = 0
    for (fid, i), xs in ln.callsites.items():
        for fn, node, args, s in xs:
            if "fn" in node or len(args) != 4 or not isinstance(args[0], L):
                continue
            resp = ln.ev(f, (), s.copy(), node["fe"]) if "fe" in node else None
            acme = L(0, {("fn", D.fs["respond_acme"].id): 1})
            is_acme = isinstance(resp, L) and holds(ln, s, resp.sub(acme))
            if not is_acme:
                continue
            got += 1
            a = args[0].atom()
            if a is None or a[0] != "addr":
                res.add(f, node["L"], "does not hand the challenge to respond_acme")
                continue
            sv = ln.read(s, a[1] + ("str",), "const char *")
            lv = ln.read(s, a[1] + ("len",), "size_t")
            ks = [x for x in s.conds if isinstance(x, tuple) and x[0] == "eq"]
            iget = set()
            for k in ks:
                for c in atoms_in(k[1], set()):
                    if c[1] == "?":
                        iget.add(c)
            if not iget:
                res.add(f, node["L"], "answers a challenge query without asking the key-value store")
                continue
            d = L(0, {sorted(iget, key=repr)[0]: 1})
            unv = ln.read(s, (("g", "UNSURE"),), "const dstr_t *")
            if holds(ln, s, d):
                ok = sv.const() == 0
            elif holds(ln, s, d.sub(unv)):
                ok = sv == L(0, {("addr", (("g", "C_UNSURE"),)): 1})
            else:
                ok = sv.atom() is not None and sv.atom()[0] == "f" and sv.atom()[1] == ln.pointee(d) + ("data",) \
                    and lv.atom() is not None and lv.atom()[1] == ln.pointee(d) + ("len",)
            if not ok:
                res.add(f, node["L"], "hands respond_acme something else than what the key-value store said")
    res.floor("challenge answers", n + got, 6)


def headers(D, res):
    """the reply's header"""
    f = D.fs["write_response_hdr"]
    ln = Lin(D.p, lambda g: g.name in D.callees, 20000)
    rets = ln.run(f, (), State())
    h = (("v", (), f.params[0]),)
    by = [v for v in f.params if is_bytes(f.vars[v][1])][0]
    out = ln.read(State(), (("v", (), by),), "size_t")
    used = ln.read(State(), (("v", (), f.params[-1]),), "size_t")
    idv = ln.read(State(), h + ("id",), "uint16_t").atom()
    rdv = ln.read(State(), h + ("rd",), "unsigned int").atom()
    n = 0
    for v, s in rets:
        w = written(ln, s, out, used)
        if not w:
            continue
        n += 1
        for ident in (0, 0x1234, 0xffff):
            for rd in (0, 1):
                def byte(a):
                    return ident if a == idv else rd if a == rdv else 0 if a[0] == "f" and a[2] == 0 else None
                ev = Eval(ln, byte)
                b = [ev.lin(w[k]) if k in w else None for k in range(4)]
                if b[0] is None or b[1] is None or ((b[0] & 255) << 8 | (b[1] & 255)) != ident:
                    res.add(f, f.line, "a reply does not carry the id of its query")
                if b[2] is None or b[2] & 0xf8 != 0x80:
                    res.add(f, f.line, "a reply is not marked as a response")
                elif b[2] & 1 != rd:
                    res.add(f, f.line, "a reply does not copy the recursion-desired bit")
                if b[3] is None or b[3] & 0x80:
                    res.add(f, f.line, "a reply offers recursion")
    res.floor("reply headers", n, 1)


def written(ln, s, out, used):
    """offset from (out+used) -> value of the byte written there"""
    a = out.atom()
    w = {}
    for l, v in s.env.items():
        if l[0] in ("alias", "ver") or l[0][0] != "m" or not isinstance(v, L):
            continue
        if l[:-1] == ln.pointee(out) and isinstance(l[-1], tuple) and l[-1][0] == "x":
            d = L(l[-1][1][0], dict(l[-1][1][1])).sub(used)
            w[d.const() if d.const() is not None else d.key()] = v
    return w


def records(D, res):
    """a record's data is as long as its header says, and a writer reports the
    same length whether or not the record fits"""
    n = 0
    for f in D.fs.values():
        if not f.file.endswith("write.c") or len(f.params) != 5 or f.name not in D.taken and f.name != "write_soa":
            continue
        ln = Lin(D.p, lambda g: g.name in D.callees and g.name not in TRUST, 40000)
        rets = ln.run(f, (), State())
        by = [v for v in f.params if is_bytes(f.vars[v][1])][0]
        out = ln.read(State(), (("v", (), by),), "size_t")
        cap = ln.read(State(), (("v", (), f.params[3]),), "size_t")
        used = ln.read(State(), (("v", (), f.params[4]),), "size_t")
        lens = {v.sub(used).key() for v, s in rets if isinstance(v, L)}
        if len(lens) != 1:
            res.add(f, f.line, "reports different lengths for a record that fits and one that does not")
        for v, s in rets:
            if v is None:
                continue      # LOG_FATAL
            w = written(ln, s, out, used)
            ws = [(a, z) for a, z, k, fid, i in s.reads if k == "w"]
            if not ws:
                continue
            n += 1
            end = v.sub(used)
            # every byte up to the end is written, in order
            p = out.add(used)
            left = list(ws)
            while left:
                nx = [x for x in left if x[0] == p]
                if not nx:
                    break
                p = p.add(nx[0][1])
                left = [x for x in left if x[0] != nx[0][0]]
            if p != out.add(v):
                res.add(f, f.line, "leaves a gap in a record")
            sl = [a for x in [end] for a in x.t]

            def byte(a):
                return 43 if a in sl else None
            ev = Eval(ln, byte)
            e = ev.lin(end)
            ok = False
            flat = {}
            for k, x in w.items():
                kk = k if isinstance(k, int) else ev.key(k)
                if kk is not None:
                    flat[kk] = ev.lin(x)
            # CLASS IN, then ttl, then the length: found by its position before the data
            for k in sorted(flat):
                if e is None or flat[k] is None or flat.get(k + 1) is None:
                    continue
                if k + 2 + (flat[k] << 8 | flat[k + 1]) == e and flat.get(k - 6) == 0 and flat.get(k - 5) == 1:
                    ok = True
            if not ok:
                res.add(f, f.line, "a record's data is not as long as its header says")
    res.floor("records written", n, 7)


def prepared(prog, ix, res):
    D = Dns(prog, ix)
    D.obl = 0
    D.analyse(res)
    return D


def d02(prog, ix, res, tier):
    D = prepared(prog, ix, res)
    sorted_out(D, res)
    secrets(D, res)
    headers(D, res)
    records(D, res)
    validated(D, res)
    # an error is recognised as one; names compare as names
    bad_enum = next(e for e in prog.enums.values() if "BP_MINVAL" in e)
    f = D.fs["is_bad_parse"]
    ln = Lin(prog, lambda g: False, 100)
    rets = ln.run(f, (), State())
    ua = ln.read(State(), (("v", (), f.params[0]),), "size_t").atom()
    for en, val in sorted(bad_enum.items()):
        ev = Eval(ln, lambda a: val if a == ua else None)
        if not any(ev.feasible(s) and ev.lin(v) for v, s in rets if isinstance(v, L)):
            res.add(f, f.line, "does not recognise %s" % en)
    res.floor("parse errors recognised", len(bad_enum), 14)
    f = D.fs["lstr_ieq"]
    ln = Lin(prog, lambda g: g.name in D.callees, 100)
    rets = ln.run(f, (), State())
    A = [ln.read(State(), (("v", (), v), "len"), "size_t").atom() for v in f.params]
    for la, lb, cmp in ((3, 4, 0), (4, 3, 0), (4, 4, 0), (4, 4, 1), (4, 4, -1)):
        def byte(a):
            if a in A:
                return la if a == A[0] else lb
            if a[0] == "call" and a[1] in ("strncasecmp", "strncmp", "memcmp"):
                return cmp
        ev = Eval(ln, byte)
        got = {bool(ev.lin(v)) if ev.lin(v) is not None else None for v, s in rets if ev.feasible(s)}
        if got != {la == lb and cmp == 0}:
            res.add(f, f.line, "does not compare whole labels")
    if not any(n["k"] == "call" and n.get("fn") == "strncasecmp" for n in f.nodes):
        res.add(f, f.line, "does not compare names without regard to case")


# ---- D03: how much and how often ------------------------------------------------
def d03(prog, ix, res, tier):
    D = prepared(prog, ix, res)
    f = D.fs["handle_packet"]
    ln, rets = D.lins["handle_packet"]
    cap0 = ln.read(State(), (("v", (), D.pairs(f)[1][1]),), "size_t")
    n = 0
    for (fid, i), xs in ln.callsites.items():
        for fn, node, args, s in xs:
            if "fn" in node or fn is not f or len(args) != 4 or isinstance(args[1], L):
                continue
            n += 1
            C = args[3]
            base = args[1].src
            if not isinstance(C, L) or not base:
                res.add(f, node["L"], "the space for a reply is not known")
                continue
            found = ln.read(s, base + ("edns", "found"), "bool")
            usz = ln.read(s, base + ("edns", "udp_size"), "uint16_t")
            if not ln.entails(s, C.sub(cap0)):
                res.add(f, node["L"], "a reply may be longer than the reply buffer")
            if not ln.entails(s, L(512).sub(C)):
                res.add(f, node["L"], "a reply may get less than 512 bytes")
            if not ln.entails(s, C.sub(L(512))):
                if not nonzero(ln, s, found):
                    res.add(f, node["L"], "a reply to a query without EDNS may be longer than 512 bytes")
                elif not ln.entails(s, C.sub(usz)):
                    res.add(f, node["L"], "a reply may be longer than the querier said it can receive")
    for v, s in rets:
        a = v.atom() if isinstance(v, L) else None
        if v is None:
            continue
        if not (isinstance(v, L) and v.const() == 0) and not (a is not None and a[0] == "call" and a[1] == "?"):
            res.add(f, f.line, "the reply's length is not what the responder said")
    res.floor("reply spaces decided", n, 3)
    # what a responder says it wrote fits
    m = 0
    for g in D.fs.values():
        if g.name not in D.taken or len(g.params) != 4 or g.vars[g.params[1]][1].replace("const ", "") != "dns_pkt_t":
            continue
        ln = Lin(prog, lambda h: h.file == g.file and h.name in D.callees, 40000)
        st = State()
        C = ln.read(st, (("v", (), g.params[3]),), "size_t")
        st.facts = (L(512).sub(C),)
        for v, s in ln.run(g, (), st):
            m += 1
            if not isinstance(v, L) or not ln.entails(s, v.sub(C)):
                res.add(g, g.line, "may report a reply longer than the space it was given")
    res.floor("reply lengths decided", m, 20)
    rate(D, res)
    sending(D, res)


def rate(D, res):
    """at most eight answers per second and bucket, none once the bucket is full"""
    f = D.fs["rrl_check"]
    ln = Lin(D.p, lambda g: g.file == f.file and g.name != "hash_addr" and g.name != "hash_uint", 2000)
    rets = ln.run(f, (), State())
    now = ln.read(State(), (("v", (), f.params[2]),), "uint64_t").atom()
    rrl = ln.read(State(), (("v", (), f.params[0]),), "size_t")
    nb = ln.read(State(), ln.pointee(rrl) + ("nbuckets",), "size_t").atom()
    bk = ln.read(State(), ln.pointee(rrl) + ("buckets",), "size_t")
    addrs = set()
    for k, xs in ln.acc.items():
        for fn, node, addr, size, s, kind in xs:
            d = addr.sub(bk)
            a = d.atom()
            if a is None or a[0] != "op" or a[1] != "%" or a[2][1] != L(0, {nb: 1}).key():
                res.add(f, node["L"], "a bucket outside the table may be used")
            addrs.add(d.key())
    if len(addrs) != 1:
        res.add(f, f.line, "does not count in the bucket it looked at")
    hashed = any(x[1] == "hash_addr" for d in addrs for x in atoms_in(d, set()))
    if not hashed:
        res.add(f, f.line, "the bucket does not depend on the source address")

    def step(b, t):
        def byte(a):
            if a == now:
                return t
            if a == nb:
                return 1000
            if a[0] == "B":
                return b
            return None
        ev = Eval(ln, byte)
        out = set()
        for v, s in rets:
            if not ev.feasible(s):
                continue
            nb_ = b
            for l, x in s.env.items():
                if l[0] in ("alias", "ver") or l[0][0] != "m" or not isinstance(x, L):
                    continue
                if isinstance(l[-1], tuple) and l[-1][0] == "x":
                    nb_ = ev.lin(x)
                    if nb_ is not None:
                        nb_ &= 255
            r = ev.lin(v) if isinstance(v, L) else None
            out.add((r, nb_))
        return out
    SEC = 1000000000
    n = 0
    for w in range(32):
        for b in range(256):
            n += 1
            o = step(b, w * SEC + 5)
            if len(o) != 1:
                res.add(f, f.line, "the outcome of a rate check is not determined by its bucket")
                return n
            r, nb_ = o.pop()
            full = (b >> 3) == w and b & 7 == 7
            if r is None or nb_ is None:
                raise Broken("rrl_check cannot be evaluated")
            if full and (r or nb_ != b):
                res.add(f, f.line, "answers although the second's quota is used up")
                return n
            if not full and (not r or nb_ >> 3 != w or (nb_ & 7) <= (b & 7 if (b >> 3) == w else -1)):
                res.add(f, f.line, "does not count an answer" if r else "refuses although the quota is not used up")
                return n
    res.stats["rate buckets evaluated"] = n


def sending(D, res):
    f = D.fs["on_recv_dns"]
    ln = Lin(D.p, lambda g: False, 20000)
    ln.run(f, (), State())
    src = ln.read(State(), (("v", (), [v for v in f.params if "sockaddr" in f.vars[v][1]][0]),), "size_t")
    n = 0
    for (fid, i), xs in ln.callsites.items():
        for fn, node, args, s in xs:
            g = node.get("fn") or ""
            if g == "handle_packet" or g.endswith("udp_send"):
                n += 1
                ok = False
                for k, pol in s.conds.items():
                    if pol is False and isinstance(k, tuple) and k[0] == "eq":
                        for a in k[1][1]:
                            if a[0][0] == "call" and a[0][1] == "rrl_check" and len(k[1][1]) == 1 and k[1][0] == 0:
                                ok = src.key() in a[0][2]
                if not ok:
                    res.add(f, node["L"], "%s before the rate limit allowed it" % g)
            if not g.endswith("udp_send"):
                continue
            b = args[2].atom()
            if b is None or b[0] != "addr":
                res.add(f, node["L"], "what is sent is not known")
                continue
            ln_ = ln.read(s, b[1] + ("len",), "size_t")
            bs = ln.read(s, b[1] + ("base",), "char *")
            a = ln_.atom()
            if a is None or a[0] != "call" or a[1] != "handle_packet":
                res.add(f, node["L"], "sends something else than what handle_packet wrote")
            if not nonzero(ln, s, ln_):
                res.add(f, node["L"], "sends an empty reply")
            if not any(h[1].get("fn") == "handle_packet" and h[2][3] == bs for hs in ln.callsites.values() for h in hs):
                res.add(f, node["L"], "sends another buffer than the one handle_packet wrote")
            if args[3].const() != 1 or args[4] != src:
                res.add(f, node["L"], "does not send exactly one reply to the querier")
    res.floor("sends and their conditions", n, 2)


D01_TXT = """Linear value numbering along the control-flow paths of server/dns (checks/lin.py): every byte access of the parser, \
the formatters and the writers is proved to lie in [ptr, ptr+len) or [out, out+cap) by the facts its path has tested; a function \
that cannot prove it alone is inlined into its callers, up to the entry points. The trusting iterators (skip_name, labels_next, \
rrs_next, opts_next) are compared, for every value of the length bytes, with the validator that went before them: same step, no \
read further, same starting point, no more records than were counted; the validators are shown to accept no record or option that \
ends outside, to hand every error on and to have succeeded before anything they filled in is used."""
CHECKS = {
    "D01": dict(check=d01, level="other", technique=D01_TXT,
                assumptions=["size_t sums of offsets below 65536 do not wrap",
                             "a datagram's buffer holds the number of bytes libuv reports"]),
    "D02": dict(check=d02, level="other", technique="""Path facts of sort_pkt, handle_packet and respond_acme (checks/lin.py): every \
path that ends in a responder other than norespond is shown to have tested qr, opcode, the number of questions, class, type and the \
zone labels, and the depth of the name each responder needs; handle_packet uses a packet only when every enumerator of bad_parse_e \
is excluded; an answer about a challenge is positive only for a secret the key-value store gave, "no" only for a confident no, \
SERVFAIL for unsure; the bytes of the reply header and of each record are evaluated symbolically.""",
                assumptions=["strncasecmp compares labels as RFC 4343 wants"]),
    "D03": dict(check=d03, level="other", technique="""Path facts (checks/lin.py): bounds of the space handed to a responder against the \
buffer, 512 and the EDNS size; bounds of every responder's result against that space; rrl_check evaluated for every bucket value and \
window; udp_send reached only after rrl_check said yes, with the length and buffer of handle_packet.""",
                assumptions=["writers return at least the offset they were given",
                             "hash_addr spreads addresses; collisions only make the limit stricter"]),
}
