"""Linear value numbering along the paths of small functions: what offsets a
function touches in a buffer, and which comparisons on that path bound them.

Every value is  c + sum(k * atom);  an atom is an initial value, a byte of a
buffer, the result of a call, ...  A comparison that a path passes becomes a
fact (a linear form that is <= 0).  An access is fine when one of the sums of
at most three facts bounds it whatever the atoms are."""
import itertools

from model import children

BYTES = {"char", "unsigned char", "uint8_t", "const char", "const uint8_t", "const unsigned char", "signed char"}
DEBUG = False
RANGES = {"bool": (0, 1), "_Bool": (0, 1), "uint8_t": (0, 255), "unsigned char": (0, 255), "char": (-128, 127),
          "uint16_t": (0, 65535), "unsigned short": (0, 65535), "uint32_t": (0, (1 << 32) - 1),
          "unsigned int": (0, (1 << 32) - 1), "unsigned": (0, (1 << 32) - 1), "size_t": (0, None),
          "unsigned long": (0, None), "uint64_t": (0, None), "int": (-(1 << 31), (1 << 31) - 1)}


def rng_of(T):
    T = T.replace("const ", "").strip()
    if "*" in T:
        return (0, None)
    if "[" in T or "(" in T:
        return (0, None)
    return RANGES.get(T, (None, None))


def is_bytes(T):
    """pointer or array of single bytes"""
    T = T.strip()
    for suf in (" *const", " *restrict", " *__restrict", " *", "*"):
        if T.endswith(suf):
            return T[:-len(suf)].strip() in BYTES
    if "[" in T:
        return T.split("[")[0].strip() in BYTES and T.count("[") == 1
    return False


class L:
    __slots__ = ("c", "t", "_k")

    def __init__(self, c=0, t=None):
        self.c = c
        self.t = t or {}
        self._k = None

    def key(self):
        if self._k is None:
            self._k = (self.c, frozenset(self.t.items()))
        return self._k

    def add(self, o, m=1):
        t = dict(self.t)
        for a, k in o.t.items():
            v = t.get(a, 0) + m * k
            if v:
                t[a] = v
            else:
                t.pop(a, None)
        return L(self.c + m * o.c, t)

    def sub(self, o):
        return self.add(o, -1)

    def mul(self, k):
        return L(self.c * k, {a: v * k for a, v in self.t.items()} if k else {})

    def const(self):
        return self.c if not self.t else None

    def atom(self):
        if self.c == 0 and len(self.t) == 1:
            (a, k), = self.t.items()
            if k == 1:
                return a
        return None

    def __eq__(self, o):
        return isinstance(o, L) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "%s" % " + ".join(["%s*%s" % (k, short(a)) for a, k in self.t.items()] + [str(self.c)])


def short(a):
    if isinstance(a, tuple):
        return "(" + " ".join(short(x) for x in a) + ")"
    if isinstance(a, frozenset):
        return "{" + ",".join(short(x) for x in a) + "}"
    return str(a)


class Rec:
    """a record value: known leaves, and where the others come from"""

    def __init__(self, leaves, src=None, ver=0):
        self.leaves = leaves
        self.src = src
        self.ver = ver


class State:
    __slots__ = ("env", "facts", "conds", "memo", "unroll", "inloop", "reads", "lines", "seq", "entry")

    def __init__(self):
        self.env = {}
        self.facts = ()
        self.conds = {}
        self.memo = {}
        self.unroll = {}
        self.inloop = {}
        self.reads = ()
        self.lines = ()
        self.seq = 0
        self.entry = {}

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.facts = self.facts
        s.conds = dict(self.conds)
        s.memo = dict(self.memo)
        s.unroll = dict(self.unroll)
        s.inloop = dict(self.inloop)
        s.reads = self.reads
        s.lines = self.lines
        s.seq = self.seq
        s.entry = self.entry
        return s


class Lin:
    def __init__(self, prog, inline, max_paths=20000):
        self.p = prog
        self.inline = inline        # fn -> bool
        self.R = {}
        self.mute = 0
        self.acc = {}               # (fid, node) -> list of (fn, n, addr, size, state, kind)
        self.elem = {}              # element accesses: (fn, node, base, idx, state)
        self.loops = {}
        self.entries = []           # (state before a loop, state at its head)
        self.backs = {}             # (fid, header) -> [State] at the back edges (root frame only)
        self.heads = {}
        self.paths = 0
        self.max_paths = max_paths
        self.inlined = set()
        self.callsites = {}         # (fid, node) -> [(fn, node, args, state)]
        self.truncated = False

    # ---- ranges and entailment ---------------------------------------------
    def rng(self, a):
        return self.R.get(a, (None, None))

    def hi(self, l):
        v = l.c
        for a, k in l.t.items():
            lo, hi = self.rng(a)
            b = hi if k > 0 else lo
            if b is None:
                return None
            v += k * b
        return v

    def lo(self, l):
        h = self.hi(l.mul(-1))
        return None if h is None else -h

    def entails(self, st, g, deep=3):
        """g <= 0 whatever the atoms are, given the facts of the path"""
        h = self.hi(g)
        if h is not None and h <= 0:
            return True
        fs = list(st.facts)
        bound = self.rangefacts(st, g)
        fs = fs + [f for f in bound if f not in fs]
        for n in range(1, deep + 1):
            for c in itertools.combinations(fs, n):
                d = g
                for f in c:
                    d = d.sub(f)
                h = self.hi(d)
                if h is not None and h <= 0:
                    return True
        return False

    def rangefacts(self, st, g):
        return []

    def contradicts(self, st, f):
        """f <= 0 cannot hold here"""
        lo = self.lo(f)
        if lo is not None and lo > 0:
            return True
        for g in st.facts:
            lo = self.lo(f.add(g))
            if lo is not None and lo > 0:
                return True
        return False

    def assume(self, st, facts, key=None, pol=None):
        for f in facts:
            if f.t:
                if self.contradicts(st, f):
                    return False
            elif f.c > 0:
                return False
        for f in facts:
            if f.t and f not in st.facts:
                st.facts = st.facts + (f,)
        if key is not None:
            old = st.conds.get(key)
            if old is not None and old != pol:
                return False
            st.conds[key] = pol
        return True

    # ---- memory --------------------------------------------------------------
    def atomv(self, a, T):
        if a not in self.R:
            self.R[a] = rng_of(T)
        return L(0, {a: 1})

    def read(self, st, loc, T):
        v = st.env.get(loc)
        if v is not None:
            return v
        for n in range(len(loc), 0, -1):
            al = st.env.get(("alias", loc[:n]))
            if al is not None:
                if al[1] == "zero":
                    return L(0)
                if al[1] == "g" and al[0][0][0] == "g":
                    v = self.gread(al[0][0][1], al[0][1:] + loc[n:])
                    if v is not None:
                        return v
                return self.atomv(("f", al[0] + loc[n:], al[1]), T)
        root = loc[:1]
        if root[0][0] == "g":
            v = self.gread(root[0][1], loc[1:])
            if v is not None:
                return v
        return self.atomv(("f", loc, st.env.get(("ver", root), 0)), T)

    def readrec(self, st, loc):
        n = len(loc)
        leaves = {k[n:]: v for k, v in st.env.items() if k[0] not in ("alias", "ver") and k[:n] == loc and len(k) > n}
        for m in range(len(loc), 0, -1):
            al = st.env.get(("alias", loc[:m]))
            if al is not None:
                return Rec(leaves, (al[0] + loc[m:]) if al[1] != "zero" else (), al[1])
        root = loc[:1]
        if root[0][0] == "g":
            return Rec(leaves, loc, "g")
        return Rec(leaves, loc, st.env.get(("ver", root), 0))

    def clear(self, st, loc):
        n = len(loc)
        for k in [k for k in st.env if (k[0] == "alias" and k[1][:n] == loc) or
                  (k[0] not in ("alias", "ver") and k[:n] == loc)]:
            del st.env[k]

    def write(self, st, loc, v):
        self.clear(st, loc)
        if isinstance(v, Rec):
            st.env[("alias", loc)] = (v.src, v.ver)
            for f, x in v.leaves.items():
                st.env[loc + f] = x
        else:
            st.env[loc] = v

    def havoc(self, st, loc, tag):
        root = loc[:1]
        if len(loc) == 1:
            self.clear(st, loc)
            st.env[("ver", root)] = tag
        else:
            self.clear(st, loc)
            st.env[("alias", loc)] = (loc, tag)

    def constant(self, gid, g):
        """declared const, or never written anywhere"""
        if "const" in g["T"]:
            return True
        w = getattr(self.p, "_gwritten", None)
        if w is None:
            w = set()
            for f in self.p.funcs.values():
                for n in f.nodes:
                    x = None
                    if n["k"] == "asg":
                        x = n["l"]
                    elif n["k"] == "un" and n["o"] in ("&", "++", "--", "p++", "p--"):
                        x = n["s"]
                    while x is not None and f.nodes[x]["k"] in ("mem", "idx", "cast"):
                        m = f.nodes[x]
                        if m["k"] == "mem" and m.get("ar"):
                            x = None
                            break
                        x = m["b"] if m["k"] in ("mem", "idx") else m["s"]
                    if x is not None and f.nodes[x]["k"] == "ref" and f.nodes[x]["d"] == "g":
                        w.add(f.nodes[x].get("id") or f.nodes[x]["n"])
            self.p._gwritten = w
        return gid not in w

    def gread(self, gid, path):
        g = self.p.globals.get(gid)
        if not g or g["init"] < 0 or not self.constant(gid, g):
            return None
        i = g["init"]
        nodes = g["nodes"]
        for f in path:
            while nodes[i]["k"] in ("cast", "cl"):
                i = nodes[i]["s"]
            if nodes[i]["k"] != "init":
                return None
            its = nodes[i]["i"]
            if isinstance(f, tuple) and f[0] == "i":
                if "r" in nodes[i] or not 0 <= f[1] < len(its):
                    return None
                i = its[f[1]][1]
            else:
                hit = [b for a, b in its if a == f]
                if not hit:
                    return L(0)
                i = hit[0]
            if i < 0:
                return L(0)
        while nodes[i]["k"] in ("cast", "cl"):
            if "cv" in nodes[i]:
                break
            i = nodes[i]["s"]
        n = nodes[i]
        if "cv" in n:
            return L(n["cv"])
        if n["k"] == "str":
            a = ("str", n.get("s", ""))
            self.R[a] = (1, None)
            return L(0, {a: 1})
        return None

    def pointee(self, v):
        """location a pointer value designates"""
        a = v.atom() if isinstance(v, L) else None
        if a is not None and a[0] == "addr":
            return a[1]
        if isinstance(v, L):
            return (("m", v.key()),)
        return (("m", "?"),)

    # ---- expressions -----------------------------------------------------------
    def loc(self, fn, fr, st, i):
        n = fn.nodes[i]
        k = n["k"]
        if k == "ref":
            if n["d"] in ("l", "p"):
                return (("v", fr, n["v"]),)
            return (("g", n.get("id") or n["n"]),)
        if k == "mem":
            if n.get("ar"):
                return self.pointee(self.ev(fn, fr, st, n["b"])) + (n["f"],)
            b = self.loc(fn, fr, st, n["b"])
            return None if b is None else b + (n["f"],)
        if k == "un" and n["o"] == "*":
            return self.pointee(self.ev(fn, fr, st, n["s"]))
        if k == "idx":
            b = self.ev(fn, fr, st, n["b"])
            ix = self.ev(fn, fr, st, n["i"])
            pl = self.pointee(b)
            if isinstance(ix, L) and ix.const() is not None and pl[0][0] in ("g", "v"):
                return pl + (("i", ix.c),)
            return pl + (("x", ix.key() if isinstance(ix, L) else "?"),)
        if k in ("cast", "cl", "stmtexpr"):
            if k == "cl":
                return (("lit", fr, i),)
            return self.loc(fn, fr, st, n["s"])
        return None

    def deref(self, fn, fr, st, i, n, kind):
        """note an access to memory; returns the byte value for byte reads"""
        T = n.get("T", "")
        if n["k"] == "idx":
            bT = fn.nodes[n["b"]].get("T", "")
            b = self.ev(fn, fr, st, n["b"])
            x = self.ev(fn, fr, st, n["i"])
            if not isinstance(b, L) or not isinstance(x, L):
                return None
            if not is_bytes(bT):
                if not self.mute:
                    self.elem.setdefault((fn.id, i), []).append((fn, n, b, x, st.copy(), kind))
                return None
            addr = b.add(x)
        else:
            if not is_bytes(fn.nodes[n["s"]].get("T", "")):
                return None
            addr = self.ev(fn, fr, st, n["s"])
            if not isinstance(addr, L):
                return None
        self.access(fn, i, n, addr, L(1), st, kind)
        if kind == "r":
            a = ("B", addr.key())
            lo, hi = rng_of(T)
            self.R.setdefault(a, (lo, hi))
            return L(0, {a: 1})
        return None

    def access(self, fn, i, n, addr, size, st, kind):
        st.reads = st.reads + ((addr, size, kind, fn.id, i),)
        if not self.mute:
            self.acc.setdefault((fn.id, i), []).append((fn, n, addr, size, st.copy(), kind))

    def opaque(self, T, *parts):
        a = ("op",) + parts
        return self.atomv(a, T)

    def narrow(self, v, T, st=None):
        if not isinstance(v, L) or "*" in T:
            return v
        lo, hi = rng_of(T)
        if lo is None:
            return v
        vl, vh = self.lo(v), self.hi(v)
        if hi is None:
            return v          # size_t: sums do not wrap (assumption)
        if vl is not None and vh is not None and vl >= lo and vh <= hi:
            return v
        if vl is None and vh is None and hi >= (1 << 31) - 1:
            return v
        if lo < 0:
            return v
        a = ("trunc", hi, v.key())
        self.R[a] = (lo, hi)
        return L(0, {a: 1})

    def ev(self, fn, fr, st, i):
        n = fn.nodes[i]
        if "cv" in n:
            return L(n["cv"])
        m = st.memo.get((fr, i))
        if m is not None:
            return m
        k = n["k"]
        T = n.get("T", "")
        if k == "ref":
            if n["d"] == "f":
                return self.atomv(("fn", n.get("id") or n["n"]), T)
            l = self.loc(fn, fr, st, i)
            if "[" in T:
                return self.atomv(("addr", l), "size_t")
            if self.isrec(T):
                return self.readrec(st, l)
            return self.read(st, l, T)
        if k == "mem":
            l = self.loc(fn, fr, st, i)
            if l is None:
                b = self.ev(fn, fr, st, n["b"])
                if isinstance(b, Rec):
                    return b.leaves.get((n["f"],)) or (
                        L(0) if b.ver == "zero" else self.atomv(("f", (b.src or ()) + (n["f"],), b.ver), T))
                return self.opaque(T, "mem", fr, i)
            if "[" in T:
                return self.atomv(("addr", l), "size_t")
            if self.isrec(T):
                return self.readrec(st, l)
            return self.read(st, l, T)
        if k == "idx" or (k == "un" and n["o"] == "*"):
            v = self.deref(fn, fr, st, i, n, "r")
            if v is not None:
                return v
            l = self.loc(fn, fr, st, i)
            if self.isrec(T):
                return self.readrec(st, l)
            if "[" in T:
                return self.atomv(("addr", l), "size_t")
            return self.read(st, l, T)
        if k == "un":
            o = n["o"]
            if o == "&":
                s = fn.nodes[n["s"]]
                if s["k"] == "idx" and is_bytes(fn.nodes[s["b"]].get("T", "")):
                    b, x = self.ev(fn, fr, st, s["b"]), self.ev(fn, fr, st, s["i"])
                    return b.add(x) if isinstance(b, L) and isinstance(x, L) else self.opaque(T, "&", fr, i)
                l = self.loc(fn, fr, st, n["s"])
                if l is None:
                    return self.opaque(T, "&", fr, i)
                if l[0][0] == "m" and len(l) == 1:
                    return L(l[0][1][0], dict(l[0][1][1]))
                return self.atomv(("addr", l), "size_t")
            if o == "-":
                v = self.ev(fn, fr, st, n["s"])
                return v.mul(-1) if isinstance(v, L) else self.opaque(T, "-", fr, i)
            if o in ("p++", "++", "p--", "--"):
                l = self.loc(fn, fr, st, n["s"])
                ns = fn.nodes[n["s"]]
                old = self.deref(fn, fr, st, n["s"], ns, "r") \
                    if ns["k"] == "idx" or (ns["k"] == "un" and ns["o"] == "*") else None
                if old is None:
                    old = self.read(st, l, ns.get("T", ""))
                else:
                    self.deref(fn, fr, st, n["s"], ns, "w")
                if not isinstance(old, L):
                    return self.opaque(T, o, fr, i)
                new = old.add(L(1 if "+" in o else -1))
                self.write(st, l, new)
                v = old if o[0] == "p" else new
                st.memo[(fr, i)] = v
                return v
            if o == "!":
                t = self.decide(fn, fr, st, n["s"])
                if t is not None:
                    return L(0 if t else 1)
                return self.truth(fn, fr, st, i)
            v = self.ev(fn, fr, st, n["s"])
            if o == "+":
                return v
            return self.opaque(T, o, v.key() if isinstance(v, L) else i)
        if k in ("cast", "stmtexpr", "cl"):
            v = self.ev(fn, fr, st, n["s"])
            if k == "cast" and isinstance(v, L):
                return self.narrow(v, T)
            return v
        if k == "bin":
            return self.binop(fn, fr, st, i, n)
        if k == "asg":
            return self.assign(fn, fr, st, i, n)
        if k == "cond":
            t = self.decide(fn, fr, st, n["c"])
            if t is not None:
                return self.ev(fn, fr, st, n["t"] if t else n["e"])
            return self.opaque(T, "cond", fr, i, st.seq)
        if k == "init":
            if "r" not in n:
                return self.opaque(T, "arr", fr, i)
            leaves = {}
            for f, x in n["i"]:
                if x < 0:
                    continue
                v = self.ev(fn, fr, st, x)
                if isinstance(v, Rec):
                    for kk, y in self.flat(v).items():
                        leaves[(f,) + kk] = y
                else:
                    leaves[(f,)] = v
            return Rec(leaves, (), "zero")
        if k == "str":
            a = ("str", n.get("s", ""))
            self.R[a] = (1, None)
            return L(0, {a: 1})
        if k == "call":
            return self.opaque(T, "call?", fr, i)
        return self.opaque(T, k, fr, i)

    def flat(self, r):
        return r.leaves

    def isrec(self, T):
        T = T.replace("const ", "").replace("struct ", "").strip()
        return "*" not in T and "[" not in T and T in self.p.records

    def binop(self, fn, fr, st, i, n):
        o = n["o"]
        T = n.get("T", "")
        if o in ("&&", "||", "<", ">", "<=", ">=", "==", "!="):
            t = self.decide(fn, fr, st, i)
            if t is not None:
                return L(1 if t else 0)
            return self.truth(fn, fr, st, i)
        if o == ",":
            self.ev(fn, fr, st, n["l"])
            return self.ev(fn, fr, st, n["r"])
        a, b = self.ev(fn, fr, st, n["l"]), self.ev(fn, fr, st, n["r"])
        if not isinstance(a, L) or not isinstance(b, L):
            return self.opaque(T, o, fr, i)
        return self.arith(o, a, b, T)

    def arith(self, o, a, b, T):
        ca, cb = a.const(), b.const()
        if o == "+":
            return a.add(b)
        if o == "-":
            return a.sub(b)
        if o == "*" and (ca is not None or cb is not None):
            return a.mul(cb) if cb is not None else b.mul(ca)
        if o == "<<" and cb is not None and 0 <= cb < 64:
            return a.mul(1 << cb)
        if ca is not None and cb is not None:
            try:
                return L({"&": lambda: ca & cb, "|": lambda: ca | cb, "^": lambda: ca ^ cb, "/": lambda: ca // cb,
                          "%": lambda: ca % cb, ">>": lambda: ca >> cb}[o]())
            except (KeyError, ZeroDivisionError, ValueError):
                pass
        if o in ("|", "+", "^"):
            for x, y in ((a, b), (b, a)):
                # x a multiple of 2^k and 0 <= y < 2^k
                h, lo = self.hi(y), self.lo(y)
                if h is not None and lo is not None and lo >= 0:
                    k = h.bit_length()
                    m = 1 << k
                    if x.c % m == 0 and all(v % m == 0 for v in x.t.values()):
                        return x.add(y)
        if o == "&":
            r = (None, None)
            m = cb if cb is not None else ca
            x = a if cb is not None else b
            h, lo = self.hi(x), self.lo(x)
            if h is not None and lo is not None and lo >= 0:
                bits = (1 << h.bit_length()) - 1
                if m is not None:
                    m &= bits
                    if m == bits:
                        return x
                    r = (0, m)
                else:
                    r = (0, h)
            elif m is not None and m >= 0:
                r = (0, m)
            at = ("op", "&", (m, x.key()) if m is not None else frozenset((a.key(), b.key())))
            self.R.setdefault(at, r)
            return L(0, {at: 1})
        comm = o in ("*", "|", "^", "&")
        at = ("op", o, frozenset((a.key(), b.key())) if comm else (a.key(), b.key()))
        if at not in self.R:
            lo, hi = rng_of(T)
            h = self.hi(a)
            if o == ">>" and h is not None and (self.lo(a) or 0) >= 0 and cb is not None:
                lo, hi = 0, h >> cb
            if o == "%" and cb is not None and cb > 0 and lo == 0:
                hi = cb - 1
            self.R[at] = (lo, hi)
        return L(0, {at: 1})

    def assign(self, fn, fr, st, i, n):
        o = n["o"]
        ln = fn.nodes[n["l"]]
        T = ln.get("T", "")
        v = self.ev(fn, fr, st, n["r"])
        if ln["k"] == "idx" or (ln["k"] == "un" and ln["o"] == "*"):
            self.deref(fn, fr, st, n["l"], ln, "w")
        l = self.loc(fn, fr, st, n["l"])
        if l is None:
            return v
        if o != "=":
            old = self.deref(fn, fr, st, n["l"], ln, "r") \
                if ln["k"] == "idx" or (ln["k"] == "un" and ln["o"] == "*") else None
            if old is None:
                old = self.read(st, l, T)
            if isinstance(old, L) and isinstance(v, L):
                v = self.arith(o[:-1], old, v, T)
            else:
                v = self.opaque(T, o, fr, i, st.seq)
        if isinstance(v, L):
            v = self.narrow(v, T)
        self.write(st, l, v)
        st.memo[(fr, i)] = v
        return v

    # ---- conditions ---------------------------------------------------------
    def cond(self, fn, fr, st, i):
        """(facts if true, facts if false, key) of a leaf condition; key None
        when the facts say it all"""
        n = fn.nodes[i]
        if "cv" in n:
            return ([], [L(1)], None) if n["cv"] else ([L(1)], [], None)
        while n["k"] in ("cast", "stmtexpr"):
            i = n["s"]
            n = fn.nodes[i]
        if n["k"] == "un" and n["o"] == "!":
            t, f, k = self.cond(fn, fr, st, n["s"])
            return f, t, (("not", k) if k is not None else None)
        if n["k"] == "bin" and n["o"] in ("<", ">", "<=", ">=", "==", "!="):
            a, b = self.ev(fn, fr, st, n["l"]), self.ev(fn, fr, st, n["r"])
            if isinstance(a, L) and isinstance(b, L):
                d = a.sub(b)
                o = n["o"]
                one = L(1)
                lt, ge = d.add(one), d.mul(-1)           # a<b: d+1<=0 ; a>=b: -d<=0
                gt, le = d.mul(-1).add(one), d
                if o == "<":
                    return [lt], [ge], None
                if o == ">=":
                    return [ge], [lt], None
                if o == ">":
                    return [gt], [le], None
                if o == "<=":
                    return [le], [gt], None
                eq = [d, d.mul(-1)]
                ne = []
                if self.hi(d) is not None and self.hi(d) <= 0:
                    ne = [lt]
                elif self.lo(d) is not None and self.lo(d) >= 0:
                    ne = [gt]
                key = ("eq", min(d.key(), d.mul(-1).key(), key=repr))
                if o == "==":
                    return eq, ne, key
                return ne, eq, ("not", key)
            return [], [], ("c", fr, i, st.seq)
        if n["k"] == "bin" and n["o"] in ("&&", "||"):
            return [], [], ("log", n["o"], self.ckey(fn, fr, st, n["l"]), self.ckey(fn, fr, st, n["r"]))
        v = self.ev(fn, fr, st, i)
        if isinstance(v, L):
            d = v
            a = d.atom()
            if a is not None and a[:2] == ("op", "c") and len(a) == 4:
                # the stored outcome of a comparison
                return [L(c, dict(x)) for c, x in a[2][0]], [L(c, dict(x)) for c, x in a[3]], a[2][1]
            ne = []
            if self.lo(d) is not None and self.lo(d) >= 0:
                ne = [L(1).sub(d)]
            return ne, [d, d.mul(-1)], ("not", ("eq", min(d.key(), d.mul(-1).key(), key=repr)))
        return [], [], ("c", fr, i, st.seq)

    def truth(self, fn, fr, st, i):
        """the outcome of a condition as a value"""
        t, f, k = self.cond(fn, fr, st, i)
        return self.opaque("bool", "c", (tuple(x.key() for x in t), k), tuple(x.key() for x in f))

    def ckey(self, fn, fr, st, i):
        t, f, k = self.cond(fn, fr, st, i)
        return (tuple(x.key() for x in t), k)

    @staticmethod
    def polar(key, t):
        while isinstance(key, tuple) and key and key[0] == "not":
            key = key[1]
            t = not t
        return key, t

    def decide(self, fn, fr, st, i):
        n = fn.nodes[i]
        if n["k"] == "bin" and n["o"] in ("&&", "||"):
            a = self.decide(fn, fr, st, n["l"])
            b = self.decide(fn, fr, st, n["r"])
            if n["o"] == "&&":
                return False if a is False or b is False else (True if a and b else None)
            return True if a or b else (False if a is False and b is False else None)
        t, f, k = self.cond(fn, fr, st, i)
        for facts, r in ((t, False), (f, True)):
            for x in facts:
                if (not x.t and x.c > 0) or (x.t and self.contradicts(st, x)):
                    return r
        if k is not None:
            kk, tt = self.polar(k, True)
            if kk in st.conds:
                return st.conds[kk] == tt
        if t and all(self.entails(st, x, 1) for x in t):
            return True
        if f and all(self.entails(st, x, 1) for x in f):
            return False
        return None

    # ---- calls ------------------------------------------------------------
    def call(self, fn, fr, st, i, n, depth):
        """[(value, state)]"""
        args = [self.ev(fn, fr, st, a) for a in n["a"]]
        T = n.get("T", "")
        if not self.mute:
            self.callsites.setdefault((fn.id, i), []).append((fn, n, args, st.copy()))
        name = n.get("fn", "?")
        g = self.p.funcs.get(n.get("f"))
        if g is not None and depth < 8 and self.inline(g):
            self.inlined.add(g.id)
            nf = fr + (i,)
            for pv, a in zip(g.params, args):
                self.write(st, (("v", nf, pv),), a)
            return [(r if r is not None else L(0), s) for r, s in self.run(g, nf, st, depth + 1)]
        if name in ("memcpy", "memmove", "__memcpy_chk", "__memmove_chk", "__builtin_memcpy", "__builtin___memcpy_chk"):
            if all(isinstance(a, L) for a in args[:3]):
                self.access(fn, i, n, args[0], args[2], st, "w")
                self.access(fn, i, n, args[1], args[2], st, "r")
            return [(args[0], st)]
        if name == "__builtin_expect":
            return [(args[0], st)]
        impure = False
        keys = []
        for a, an in zip(args, n["a"]):
            Ta = fn.nodes[an].get("T", "")
            if isinstance(a, L):
                at = a.atom()
                ptr = "*" in Ta
                if ptr and not Ta.startswith("const ") and not is_bytes(Ta) or (at is not None and at[0] == "addr"):
                    impure = True
                    self.havoc(st, self.pointee(a), ("c", fr, i, st.seq))
                    if "const" in Ta and not (at is not None and at[0] == "addr"):
                        keys.append(a.key())
                    else:
                        keys.append("&")
                else:
                    keys.append(a.key())
            else:
                keys.append(("rec", a.src, a.ver, tuple(sorted(((k, v.key()) for k, v in a.leaves.items()), key=repr))))
        if impure or g is None:
            st.seq += 1
            at = ("call", name, tuple(keys), st.seq)
        else:
            at = ("call", name, tuple(keys), 0)
        if self.isrec(T):
            return [(Rec({}, (at,), 0), st)]
        self.R.setdefault(at, rng_of(T))
        return [(L(0, {at: 1}), st)]

    # ---- control flow -------------------------------------------------------
    def loopinfo(self, fn):
        c = self.loops.get(fn.id)
        if c is None:
            from util import loops_of
            c = self.loops[fn.id] = loops_of(fn)
        return c

    def modified(self, fn, fr, st, body):
        """locations some path through the loop changes"""
        out = []
        seen = set()
        todo = []
        for b in body:
            todo += fn.blocks[b].elems

        def visit(i):
            if i in seen:
                return
            seen.add(i)
            n = fn.nodes[i]
            k = n["k"]
            if k == "asg" or (k == "un" and n["o"] in ("++", "--", "p++", "p--")):
                x = n["l"] if k == "asg" else n["s"]
                # element and byte stores only touch memory we do not follow
                l = self.loc(fn, fr, st, x) if fn.nodes[x]["k"] != "idx" else None
                if l is not None and l not in out:
                    out.append(l)
            elif k == "decls":
                for v, init in n["d"]:
                    l = (("v", fr, v),)
                    if l not in out:
                        out.append(l)
            elif k == "call":
                g = self.p.funcs.get(n.get("f"))
                for a in n["a"]:
                    an = fn.nodes[a]
                    T = an.get("T", "")
                    if "*" in T and not is_bytes(T) and not T.startswith("const "):
                        v = self.ev(fn, fr, st, a)
                        if isinstance(v, L):
                            l = self.pointee(v)
                            if l not in out:
                                out.append(l)
            for c in children(n):
                visit(c)
        self.mute += 1
        sc = st.copy()
        st2, st = st, sc
        for i in todo:
            visit(i)
        self.mute -= 1
        return out

    def run(self, fn, fr, st, depth=0):
        """all paths of one activation: [(return value, state)]"""
        res = []
        self.walk(fn, fr, [(fn.entry, -1, st)], depth, None, res, None)
        return res

    def walk(self, fn, fr, work, depth, region, res, backs):
        """region: stay inside this loop (set, header); backs collects the
        states that reach the header again"""
        loops = self.loopinfo(fn)
        work = [(b, frm, st, 0) for b, frm, st in work]
        while work:
            bid, frm, st, ei = work.pop()
            B = fn.blocks[bid]
            self.paths += 1
            if self.paths > self.max_paths:
                self.truncated = True
                return
            if ei == 0:
                if region is not None:
                    if bid == region[1] and frm is not None and frm != -2:
                        backs.append(st)
                        continue
                    if bid not in region[0]:
                        continue
                if bid in loops and frm != -2:
                    back = frm in loops[bid]
                    if not (back and (fr, bid) in st.inloop):
                        nxt = self.enter_loop(fn, fr, st, bid, loops[bid], depth)
                        if nxt is not None:
                            work.append((bid, -2, nxt, 0))
                            continue
                    else:
                        self.backs.setdefault((fn.id, bid), []).append(st)
                        continue
            stop = False
            while ei < len(B.elems):
                i = B.elems[ei]
                n = fn.nodes[i]
                ei += 1
                if n["k"] == "call":
                    rs = self.call(fn, fr, st, i, n, depth)
                    if len(rs) == 1:
                        v, st = rs[0]
                        st.memo[(fr, i)] = v
                    else:
                        for v, s in rs:
                            s = s.copy()
                            s.memo[(fr, i)] = v
                            work.append((bid, frm, s, ei))
                        stop = True
                        break
                    continue
                if n["k"] == "ret":
                    v = self.ev(fn, fr, st, n["s"]) if n["s"] >= 0 else None
                    if isinstance(v, L):
                        v = self.narrow(v, fn.ret)
                    if region is None:
                        res.append((v, st))
                    stop = True
                    break
                if n["k"] == "decls":
                    for v, init in n["d"]:
                        l = (("v", fr, v),)
                        if init >= 0:
                            x = self.ev(fn, fr, st, init)
                            if isinstance(x, L):
                                x = self.narrow(x, fn.vars[v][1])
                            self.write(st, l, x)
                        else:
                            self.havoc(st, l, ("decl", fr, v))
                    continue
                if n["k"] in ("ref", "mem", "int", "str") or n["k"] == "cond" and False:
                    if n["k"] in ("ref", "mem") and fn.parent[i] >= 0:
                        # an lvalue: its value is read by the parent
                        continue
                if n["k"] == "idx" or (n["k"] == "un" and n["o"] == "*"):
                    # only written to, or only its address is taken
                    up = fn.nodes[fn.parent[i]] if fn.parent[i] >= 0 else None
                    if up is not None and ((up["k"] == "asg" and up["l"] == i and up["o"] == "=") or
                                           (up["k"] == "un" and up["o"] == "&") or
                                           up["k"] in ("mem", "idx") and not is_bytes(fn.nodes[n["b"] if n["k"] == "idx" else n["s"]].get("T", ""))):
                        continue
                st.memo.pop((fr, i), None)
                v = self.ev(fn, fr, st, i)
                if v is not None:
                    st.memo[(fr, i)] = v
            if stop:
                continue
            succs = [s for s in B.succs]
            if not succs:
                if region is None and bid == fn.exit:
                    res.append((None, st))
                continue
            if len(succs) == 2 and B.cond is not None and B.term in ("if", "loop", "log", "cond"):
                t, f, k = self.cond(fn, fr, st, B.cond)
                for s, facts, pol in ((succs[0], t, True), (succs[1], f, False)):
                    if s < 0:
                        continue
                    x = st.copy()
                    kk, pp = self.polar(k, pol) if k is not None else (None, None)
                    if not self.assume(x, facts, kk, pp):
                        continue
                    x.lines = x.lines + (B.tline or 0,)
                    il = x.inloop.get((fr, bid))
                    if il and not self.assume(x, il[0] if s in loops.get(bid, ()) else il[1]):
                        continue
                    work.append((s, bid, x, 0))
                continue
            if B.term == "switch" and B.cond is not None:
                v = self.ev(fn, fr, st, B.cond)
                cs = [(s, fn.blocks[s]) for s in succs if s >= 0]
                for s, X in cs:
                    x = st.copy()
                    if X.case is not None and X.case2 is None and isinstance(v, L):
                        d = v.sub(L(X.case))
                        if not self.assume(x, [d, d.mul(-1)], ("eq", min(d.key(), d.mul(-1).key(), key=repr)), True):
                            continue
                    work.append((s, bid, x, 0))
                continue
            for s in succs:
                if s >= 0:
                    work.append((s, bid, st.copy() if len(succs) > 1 else st, 0))

    def condvars(self, fn, i):
        from util import walk
        return {m["v"] for _, m in walk(fn, i) if m["k"] == "ref" and m["d"] in ("l", "p")}

    def enter_loop(self, fn, fr, st, h, body, depth):
        B = fn.blocks[h]
        mods = self.modified(fn, fr, st, body)
        modv = {l[0][2] for l in mods if l[0][0] == "v" and l[0][1] == fr}
        # a loop whose exit test is decided by constants is simply executed
        if B.cond is not None and len(B.succs) == 2:
            cv = self.condvars(fn, B.cond)
            if cv & modv and st.unroll.get((fr, h), 0) < 64:
                self.mute += 1
                s2 = st.copy()
                for i in B.elems:
                    if fn.nodes[i]["k"] not in ("call", "ret", "decls", "ref", "mem"):
                        self.ev(fn, fr, s2, i)
                t = None
                if not any(fn.nodes[i]["k"] in ("call", "decls") for i in B.elems):
                    tt, ff, k = self.cond(fn, fr, s2, B.cond)
                    if tt and not any(x.t for x in tt) and not any(x.t for x in ff):
                        t = True
                self.mute -= 1
                if t:
                    s = st.copy()
                    s.unroll[(fr, h)] = s.unroll.get((fr, h), 0) + 1
                    return s
        tag = ("h", fn.id, h, fr)
        entry = st
        # 1. one silent turn to learn how the loop moves
        s1 = st.copy()
        s1.reads = ()
        for l in mods:
            self.havoc(s1, l, tag)
        s1.inloop[(fr, h)] = ([], [])
        backs = []
        self.mute += 1
        self.walk(fn, fr, [(h, -2, s1)], depth, (body, h), [], backs)
        self.mute -= 1
        desc = None
        if B.cond is not None and backs:
            cv = sorted(self.condvars(fn, B.cond) & modv)
            parts = []
            for v in cv:
                l = (("v", fr, v),)
                e0 = self.read(entry, l, fn.vars[v][1])
                nx = {self.norm(self.read(b, l, fn.vars[v][1]).key(), tag) if isinstance(self.read(b, l, fn.vars[v][1]), L) else None
                      for b in backs}
                if not isinstance(e0, L) or len(nx) != 1 or None in nx:
                    parts = None
                    break
                parts.append((self.norm(e0.key(), tag), nx.pop()))
            if parts:
                tt, ff, k = self.cond(fn, fr, s1, B.cond)
                desc = ("it", tuple(parts), tuple(self.norm(x.key(), tag) for x in tt), self.norm(k, tag))
        # 2. the real walk
        s = st.copy()
        s.reads = ()
        tag2 = desc if desc is not None else tag
        cvl = {(("v", fr, v),) for v in (self.condvars(fn, B.cond) & modv if B.cond is not None else ())}
        for l in mods:
            self.havoc(s, l, tag2 if l in cvl else tag)
        turn, done = [], []
        ren = {}
        for l in cvl:
            o = self.read(s1, l, fn.vars[l[0][2]][1]).atom() if isinstance(self.read(s1, l, fn.vars[l[0][2]][1]), L) else None
            nw = self.read(s, l, fn.vars[l[0][2]][1]).atom() if o is not None else None
            if o is not None and nw is not None and desc is not None:
                # the iteration's own name does not depend on which loop it is
                a = ("ix", desc, sorted(x[0][2] for x in cvl).index(l[0][2]))
                self.R[a] = self.rng(o)
                s.env[l] = L(0, {a: 1})
                ren[o] = a
        for l in mods:
            if len(l) != 1 or l[0][0] != "v":
                if not (l[0][0] == "m" or len(l) > 1):
                    continue
            T = self.typeof(fn, l)
            if T is None or self.isrec(T) or "*" in T:
                continue
            h0 = self.read(s1, l, T)
            v0 = self.read(entry, l, T)
            if not isinstance(h0, L) or h0.atom() is None or not isinstance(v0, L):
                continue
            ds = set()
            for b in backs:
                nv = self.read(b, l, T)
                ds.add(self.rename(nv.sub(h0), ren) if isinstance(nv, L) else None)
            hv = self.read(s, l, T)
            if DEBUG:
                print("loop", fn.name, h, l, ds, desc is not None)
            if len(ds) == 1 and None not in ds and desc is not None:
                D = ds.pop()
                bad = any(self.mentions(a, tag) for a in D.t)
                if not bad and (self.lo(D) or 0) >= 0 and self.lo(D) is not None:
                    D0 = D
                    sm = ("sum", desc, D0.key())
                    self.R[sm] = (0, None)
                    tot = v0.add(L(0, {sm: 1}))
                    f1 = hv.add(D0).sub(tot)            # this turn still fits in the total
                    f2 = v0.sub(hv)
                    s.facts = s.facts + (f2,)
                    turn.append(f1)
                    done += [hv.sub(tot), tot.sub(hv)]
                    continue
            if ds and None not in ds and all((self.lo(d) is not None and self.lo(d) >= 0) for d in ds):
                s.facts = s.facts + (v0.sub(hv),)
        s.inloop[(fr, h)] = (turn, done)
        if not self.mute:
            self.entries.append((entry, s.copy()))
        return s

    def typeof(self, fn, l):
        if len(l) == 1 and l[0][0] == "v":
            return fn.vars[l[0][2]][1]
        if len(l) == 1:
            return None
        return "size_t" if not isinstance(l[-1], tuple) else None

    def mentions(self, a, tag):
        if a == tag:
            return True
        if isinstance(a, (tuple, frozenset)):
            return any(self.mentions(x, tag) for x in a)
        return False

    def norm(self, k, tag):
        if k == tag:
            return "self"
        if isinstance(k, tuple):
            if len(k) == 4 and k[0] == "call":
                return ("call", k[1], self.norm(k[2], tag), 0)
            if len(k) == 2 and k[0] == "addr":
                return "&"
            if len(k) == 3 and k[0] == "v" and isinstance(k[1], tuple):
                return "var"
            return tuple(self.norm(x, tag) for x in k)
        if isinstance(k, frozenset):
            return frozenset(self.norm(x, tag) for x in k)
        return k

    def rename(self, l, ren):
        def r(a):
            if a in ren:
                return ren[a]
            if isinstance(a, tuple):
                return tuple(r(x) for x in a)
            if isinstance(a, frozenset):
                return frozenset(r(x) for x in a)
            return a
        if not ren:
            return l
        t = {}
        for a, k in l.t.items():
            b = r(a)
            if b not in self.R and a in self.R:
                self.R[b] = self.R[a]
            t[b] = t.get(b, 0) + k
        return L(l.c, t)
