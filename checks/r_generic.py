"""E02-E05, E07: whole-program rules about formatting, key tables, allocation
failures, local resources and initialisation."""
import collections
import re

from util import Strings, strip, walk, calls, var_defs, addr_args, root_var, block_of, guards_of, same, dominates
from r_crypto import shipped

# ---------------------------------------------------------------- E02


def ptypes(T):
    """parameter types of a function type string 'ret (a, b)' / 'ret (*)(a)'"""
    if not T or not T.endswith(")"):
        return []
    d = 0
    for k in range(len(T) - 1, -1, -1):
        if T[k] == ")":
            d += 1
        elif T[k] == "(":
            d -= 1
            if d == 0:
                break
    out, cur, d = [], "", 0
    for c in T[k + 1:-1]:
        if c == "(":
            d += 1
        elif c == ")":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    out.append(cur.strip())
    return out


def triple(types):
    """position of (const char *, const fmt_i **, size_t) in a type list"""
    for k in range(len(types) - 2):
        if types[k] == "const char *" and types[k + 1] == "const fmt_i **" and types[k + 2] == "size_t":
            return k
    return -1


def nplace(s):
    """placeholders libdstr's formatter expands in s"""
    k = cnt = 0
    while k < len(s):
        if s[k] != "%":
            k += 1
            continue
        if s[k + 1:k + 2] == "x":
            cnt += 1
        k += 2
    return cnt


def fparams(prog, fn, n):
    f = prog.funcs.get(n.get("f"))
    if f is not None:
        return [f.vars[v][1] for v in f.params]
    e = prog.externs.get(n.get("f"))
    if e is not None:
        return e[1]
    if "fe" in n:
        return ptypes(fn.nodes[strip(fn, n["fe"])].get("T", ""))
    return []


class Formats:
    """every string a format expression can denote, or the reason it is not
    a constant"""

    def __init__(self, prog, ix):
        self.p = prog
        self.ix = ix

    def of(self, fn, i, seen):
        i = strip(fn, i)
        n = fn.nodes[i]
        k = n["k"]
        if k == "str":
            return [("s", n.get("s", ""), fn, n["L"])]
        if k == "cond":
            return self.of(fn, n["t"], seen) + self.of(fn, n["e"], seen)
        if k == "bin" and n["o"] == ",":
            return self.of(fn, n["r"], seen)
        if k == "ref" and n["d"] in ("l", "p"):
            return self.var(fn, n["v"], seen)
        if k == "ref" and n["d"] == "g":
            return self.glob(fn, i, n)
        if k == "call" and n.get("f") in self.p.funcs:
            g = self.p.funcs[n["f"]]
            if (g.id, "ret") in seen:
                return []
            seen = seen | {(g.id, "ret")}
            return [y for m in g.nodes if m["k"] == "ret" and m["s"] >= 0 for y in self.of(g, m["s"], seen)]
        if k == "mem" and n["f"] == "data" and not n["ar"]:
            b = fn.nodes[strip(fn, n["b"])]
            if b["k"] == "ref" and b["d"] == "g" and self.frozen(b.get("id")):
                return self.text(fn, b.get("id"), n["L"])
        if k == "un" and n["o"] == "*" or k == "idx":
            # element of a constant table
            b = fn.nodes[strip(fn, n["b"] if k == "idx" else n["s"])]
            if b["k"] == "ref" and b["d"] == "g" and "const" in b.get("T", ""):
                return self.glob(fn, i, b)
        return [("x", k, fn, n["L"])]

    def frozen(self, gid):
        """every mention of a static dstr_t only reads it"""
        g = self.p.globals.get(gid)
        if g is None or g["init"] < 0:
            return False
        if "const" in g["T"]:
            return True
        for fn in self.p.funcs.values():
            for i, n in enumerate(fn.nodes):
                if n["k"] == "ref" and n.get("id") == gid:
                    x, p = i, fn.parent[i]
                    while p >= 0 and fn.nodes[p]["k"] == "mem":
                        x, p = p, fn.parent[p]
                    m = fn.nodes[p] if p >= 0 else {"k": ""}
                    if m["k"] == "asg" and m["l"] == x:
                        return False
                    if m["k"] == "un" and m["o"] in ("++", "--", "p++", "p--"):
                        return False
                    if m["k"] == "un" and m["o"] == "&":
                        q = fn.parent[p]
                        if q < 0 or fn.nodes[q]["k"] != "call":
                            return False
                        pos = fn.nodes[q]["a"].index(p) if p in fn.nodes[q]["a"] else -1
                        ts = fparams(self.p, fn, fn.nodes[q])
                        if not (0 <= pos < len(ts) and ts[pos].startswith("const ")):
                            return False
        return True

    def text(self, fn, gid, line):
        out = []
        g = self.p.globals[gid]
        for m in g["nodes"]:
            if m["k"] == "str":
                out.append(("s", m.get("s", ""), fn, line))
            elif m["k"] == "ref" and m["d"] == "g":
                b = self.p.globals.get(m.get("id"))
                if b:
                    out += [("s", y.get("s", ""), fn, line) for y in b["nodes"] if y["k"] == "str"]
        return out or [("x", "table", fn, line)]

    def glob(self, fn, i, n):
        g = self.p.globals.get(n.get("id") or n["n"])
        if g and g["init"] >= 0 and "const" in g["T"]:
            return [("s", m.get("s", ""), fn, n["L"]) for m in g["nodes"] if m["k"] == "str"]
        return [("x", "variable " + str(n["n"]), fn, n["L"])]

    def var(self, fn, v, seen):
        if (fn.id, v) in seen:
            return []
        seen = seen | {(fn.id, v)}
        out = []
        name, T = fn.vars[v][0], fn.vars[v][1]
        if "char *" not in T or addr_args(fn, v):
            return [("x", "variable " + name, fn, fn.line)]
        for d in var_defs(fn, v):
            out += self.of(fn, d, seen)
        for n in fn.nodes:      # pointer arithmetic through ++ or +=
            if n["k"] == "un" and n["o"] in ("++", "--", "p++", "p--") or n["k"] == "asg" and n["o"] != "=":
                r = root_var(fn, n["s"] if n["k"] == "un" else n["l"])
                if r and r[0] == v:
                    out.append(("x", "variable " + name, fn, n["L"]))
        if v in fn.params:
            pi = fn.params.index(v)
            cs = self.ix.calls.get(fn.id, ())
            if not cs or fn.id in self.ix.addr_taken:
                if fn.id in self.ix.addr_taken:
                    out.append(("x", "parameter " + name, fn, fn.line))
            for g, ci in cs:
                a = g.nodes[ci]["a"]
                if pi < len(a):
                    out += self.of(g, a[pi], seen)
        return out


def arr_len(fn, i):
    """number of arguments the array expression passes, or None"""
    i = strip(fn, i)
    n = fn.nodes[i]
    off = 0
    if n["k"] == "un" and n["o"] == "&":
        m = fn.nodes[strip(fn, n["s"])]
        if m["k"] != "idx" or "cv" not in fn.nodes[m["i"]]:
            return None
        off = fn.nodes[m["i"]]["cv"]
        i = strip(fn, m["b"])
        n = fn.nodes[i]
    while n["k"] in ("cl", "cast"):
        i = n["s"]
        n = fn.nodes[i]
    if n["k"] == "ref" and n["d"] == "l":
        ds = var_defs(fn, n["v"])
        if len(ds) != 1 or not fn.vars[n["v"]][1].endswith("]"):
            return None
        i = strip(fn, ds[0])
        n = fn.nodes[i]
    if n["k"] != "init":
        return None
    m = re.search(r"\[(\d+)\]$", n.get("T", ""))
    return (int(m.group(1)) if m else len(n["i"])) - off


def in_test(f):
    return f.file.startswith("test/")


def e02(prog, ix, res, tier):
    F = Formats(prog, ix)
    sites = passthru = nfmt = 0
    carriers = {r for r, fs in prog.records.items() if triple(list(fs.values())) >= 0}
    for fn in prog.funcs.values():
        if in_test(fn):
            continue
        for i, n in enumerate(fn.nodes):
            if n["k"] == "call":
                k = triple(fparams(prog, fn, n))
                if k < 0 or k + 2 >= len(n["a"]):
                    continue
                fs, ar, na = n["a"][k:k + 3]
            elif n["k"] == "init" and n.get("r") in carriers:
                names = list(prog.records[n["r"]])
                k = triple(list(prog.records[n["r"]].values()))
                d = dict(n["i"])
                if names[k + 1] not in d:
                    continue
                fs, ar, na = (d.get(x) for x in names[k:k + 3])
                if fs is None or na is None:
                    res.add(fn, n["L"], "formatting request without a format or count")
                    continue
            else:
                continue
            res.functions.add(fn.id)
            # a wrapper handing on its own three parameters (or the fields of
            # a carrier) unchanged; its callers carry the obligation
            if forwards(prog, fn, (fs, ar, na), carriers):
                passthru += 1
                continue
            if single(fn, (fs, ar, na)):
                passthru += 1
                continue
            sites += 1
            want = arr_len(fn, ar)
            got = fn.nodes[strip(fn, na)].get("cv")
            if want is None or got is None:
                res.add(fn, n["L"], "formatting call whose argument list is not a fixed array")
                continue
            if want != got:
                res.add(fn, n["L"], "argument count %d passed for an array of %d arguments" % (got, want))
            for kind, s, g, line in F.of(fn, fs, frozenset()):
                if kind == "x":
                    res.add(fn, n["L"], "format is not a constant string (%s in %s)" % (s, g.name))
                    continue
                nfmt += 1
                c = nplace(s)
                if c != got:
                    res.add(fn, n["L"], "format %r has %d placeholders for %d arguments" % (s[:60], c, got))
            if len(res.samples) < 12:
                res.samples.append("%s:%d %s" % (fn.file, n["L"], fn.name))
    pairs(prog, F, res)
    printf(prog, F, res)
    res.floor("formatting call sites", sites, 1500)
    res.floor("format strings resolved", nfmt, 1500)
    res.floor("forwarding wrappers", passthru, 6)


def pair(types):
    """position of (const char *, const fmt_i *): a format with at most one
    argument, none when it is NULL"""
    for k in range(len(types) - 1):
        if types[k] == "const char *" and types[k + 1] in ("const fmt_i *", "fmt_i *"):
            return k
    return -1


def single(fn, ops):
    """an (fstr, arg) wrapper: args is {arg} and the count is !!arg"""
    k = pair([fn.vars[v][1] for v in fn.params])
    if k < 0:
        return False
    f, a = fn.params[k], fn.params[k + 1]
    if var_defs(fn, f) or var_defs(fn, a):
        return False
    n = fn.nodes[strip(fn, ops[0])]
    if not (n["k"] == "ref" and n.get("v") == f):
        return False
    i = strip(fn, ops[1])
    for _ in range(4):
        m = fn.nodes[i]
        if m["k"] == "ref" and m["d"] == "l" and len(var_defs(fn, m["v"])) == 1:
            i = strip(fn, var_defs(fn, m["v"])[0])
        elif m["k"] in ("cl", "cast"):
            i = m["s"]
    m = fn.nodes[i]
    if m["k"] == "un" and m["o"] == "&" and fn.nodes[strip(fn, m["s"])].get("v") == a:
        pass
    elif not (m["k"] == "init" and len(m["i"]) == 1 and fn.nodes[strip(fn, m["i"][0][1])].get("v") == a):
        return False
    i = strip(fn, ops[2])
    m = fn.nodes[i]
    if m["k"] == "ref" and m["d"] == "l" and len(var_defs(fn, m["v"])) == 1:
        i = strip(fn, var_defs(fn, m["v"])[0])
        m = fn.nodes[i]
    if m["k"] == "cond":
        return fn.nodes[strip(fn, m["c"])].get("v") == a and fn.nodes[strip(fn, m["t"])].get("cv") == 1 \
            and fn.nodes[strip(fn, m["e"])].get("cv") == 0
    if m["k"] == "bin" and m["o"] == "!=":
        return fn.nodes[strip(fn, m["l"])].get("v") == a
    if m["k"] == "un" and m["o"] == "!":
        m = fn.nodes[strip(fn, m["s"])]
        if m["k"] == "un" and m["o"] == "!":
            return fn.nodes[strip(fn, m["s"])].get("v") == a
    return False


def pairs(prog, F, res):
    cnt = 0
    for fn in prog.funcs.values():
        if in_test(fn):
            continue
        for i, n in enumerate(fn.nodes):
            if n["k"] != "call":
                continue
            ts = fparams(prog, fn, n)
            k = pair(ts)
            if k < 0 or k + 1 >= len(n["a"]) or triple(ts) >= 0:
                continue
            cnt += 1
            m = fn.nodes[strip(fn, n["a"][k + 1])]
            want = 0 if m.get("cv") == 0 else 1
            for kind, s, g, line in F.of(fn, n["a"][k], frozenset()):
                if kind == "x":
                    res.add(fn, n["L"], "format is not a constant string (%s in %s)" % (s, g.name))
                elif nplace(s) != want:
                    res.add(fn, n["L"], "format %r has %d placeholders for %d arguments" % (s[:60], nplace(s), want))
    res.stats["single-argument formatting calls"] = cnt


def forwards(prog, fn, ops, carriers):
    ns = [fn.nodes[strip(fn, x)] for x in ops]
    if all(m["k"] == "ref" and m["d"] == "p" for m in ns):
        vs = [m["v"] for m in ns]
        if any(v not in fn.params for v in vs):
            return False
        ps = [fn.params.index(v) for v in vs]
        ok = ps[1] == ps[0] + 1 and ps[2] == ps[1] + 1 and triple([fn.vars[v][1] for v in fn.params]) == ps[0]
        return ok and not any(var_defs(fn, v) for v in vs)
    if all(m["k"] == "mem" and m.get("r") in carriers for m in ns):
        r = ns[0]["r"]
        names = list(prog.records[r])
        k = triple(list(prog.records[r].values()))
        return [m["f"] for m in ns] == names[k:k + 3] and same(fn, ns[0]["b"], ns[1]["b"]) and same(fn, ns[1]["b"], ns[2]["b"])
    return False


# stdio-style formatters: position of the format
STDIO = {"printf": 0, "fprintf": 1, "sprintf": 1, "snprintf": 2, "dprintf": 1, "syslog": 1,
         "__printf_chk": 1, "__fprintf_chk": 2, "__builtin___snprintf_chk": 4, "__snprintf_chk": 4,
         "__builtin___sprintf_chk": 3, "__sprintf_chk": 3, "__dprintf_chk": 2, "__syslog_chk": 2,
         "__vfprintf_chk": 2, "__builtin___vsnprintf_chk": 4, "__vsnprintf_chk": 4,
         "vprintf": 0, "vfprintf": 1, "vsnprintf": 2, "BIO_printf": 1, "scanf": 0, "sscanf": 1, "fscanf": 1}


def printf(prog, F, res):
    cnt = 0
    for name, pos in STDIO.items():
        for fn, i, n in calls(prog, name):
            if in_test(fn) or len(n["a"]) <= pos:
                continue
            cnt += 1
            for kind, s, g, line in F.of(fn, n["a"][pos], frozenset()):
                if kind == "x":
                    res.add(fn, n["L"], "%s format is not a constant string" % name)
                    continue
                if name.replace("_builtin", "").lstrip("_").startswith("v"):
                    continue
                want = 0
                for m in re.finditer(r"%(%|[-+ #0]*(\*|\d+)?(?:\.(\*|\d+))?(?:hh|h|ll|l|z|j|t|L)?([a-zA-Z]))", s):
                    if m.group(1) == "%":
                        continue
                    want += 1 + (m.group(2) == "*") + (m.group(3) == "*")
                have = len(n["a"]) - pos - 1
                if want != have:
                    res.add(fn, n["L"], "%s format %r takes %d arguments but %d are given" % (name, s[:60], want, have))
    res.stats["stdio formatting calls"] = cnt


# ---------------------------------------------------------------- E03


def unwrap(fn, i):
    i = strip(fn, i)
    n = fn.nodes[i]
    while n["k"] in ("cl", "cast"):
        i = n["s"]
        n = fn.nodes[i]
    return i, n


def jtables(prog):
    """(fn, init node, node, count, [(index, key init)]) of every object spec"""
    for fn in prog.funcs.values():
        if in_test(fn) or "/test_" in fn.file:
            continue
        for i, n in enumerate(fn.nodes):
            if n["k"] == "init" and n.get("r") == "jspec_object_t":
                yield fn, i, n


def jkeys(fn, n):
    """(count, length of the array, [(key text or None, key init dict, line)]) or None"""
    d = dict(n["i"])
    if "keys" not in d:
        return None
    cnt = fn.nodes[strip(fn, d["nkeys"])].get("cv") if "nkeys" in d else 0
    i = strip(fn, d["keys"])
    m = fn.nodes[i]
    off = 0
    if m["k"] == "un" and m["o"] == "&":
        x = fn.nodes[strip(fn, m["s"])]
        if x["k"] != "idx" or "cv" not in fn.nodes[x["i"]]:
            return None
        off = fn.nodes[x["i"]]["cv"]
        i = x["b"]
    i, m = unwrap(fn, i)
    if m["k"] == "ref" and m["d"] == "l" and len(var_defs(fn, m["v"])) == 1:
        i, m = unwrap(fn, var_defs(fn, m["v"])[0])
    if m["k"] != "init":
        return None
    out = []
    for f, c in m["i"][off:]:
        c, k = unwrap(fn, c)
        if k["k"] != "init":
            out.append((None, {}, k["L"]))
            continue
        kd = dict(k["i"])
        text = None
        if "key" in kd:
            x, ki = unwrap(fn, kd["key"])
            if ki["k"] == "init":
                dd = dict(ki["i"])
                t = fn.nodes[strip(fn, dd.get("data", -1))] if "data" in dd else None
                ln = fn.nodes[strip(fn, dd["len"])].get("cv") if "len" in dd else None
                if t is not None and t["k"] == "str" and ln is not None:
                    text = t.get("s", "")[:ln]
        out.append((text, kd, k["L"]))
    return cnt, len(out), out


def e03(prog, ix, res, tier):
    tables = keys = 0
    for fn, i, n in jtables(prog):
        res.functions.add(fn.id)
        tables += 1
        r = jkeys(fn, n)
        if r is None:
            res.add(fn, n["L"], "object specification whose key table is not a fixed array")
            continue
        cnt, ln, ks = r
        if cnt != ln:
            res.add(fn, n["L"], "object specification says %s keys but lists %d" % (cnt, ln))
        prev = None
        outs = []
        for text, kd, line in ks:
            keys += 1
            if text is None:
                res.add(fn, line, "key of an object specification is not a constant string")
                continue
            if not text:
                res.add(fn, line, "empty key in an object specification")
            if "value" not in kd or fn.nodes[strip(fn, kd["value"])].get("cv") == 0:
                res.add(fn, line, "key %r has no decoder" % text)
            if prev is not None and not prev.encode() < text.encode():
                res.add(fn, line, "key %r follows %r: the table is not strictly sorted" % (text, prev))
            prev = text
            for o in outputs(fn, kd):
                for t2, o2 in outs:
                    if t2 != text and same(fn, o, o2):
                        res.add(fn, line, "keys %r and %r are decoded into the same place" % (t2, text))
                outs.append((text, o))
        if len(res.samples) < 20:
            res.samples.append("%s:%d %s: %s" % (fn.file, n["L"], fn.name, ", ".join(str(k[0]) for k in ks)))
    # the lookup itself: a search over the whole table with the order the
    # tables are sorted by
    lookups = 0
    for fn, i, n in calls(prog, "bsearch"):
        if in_test(fn):
            continue
        a = n["a"]
        if not any(m["k"] == "mem" and m.get("r") == "jspec_object_t" for x in a for _, m in walk(fn, x)):
            continue
        lookups += 1
        if list(prog.records["_jkey_t"])[0] != "key":
            res.add(fn, n["L"], "keys are searched by text but the text is not the first member of a key")
        nk = fn.nodes[strip(fn, a[2])]
        if not (nk["k"] == "mem" and nk["f"] == "nkeys"):
            res.add(fn, n["L"], "key lookup does not search the whole table")
        cmpf = fn.nodes[strip(fn, a[4])]
        g = prog.funcs.get(cmpf.get("id"))
        if g is None or not ordered_compare(prog, g):
            res.add(fn, n["L"], "key lookup does not compare in the order the tables are sorted by")
    res.floor("object specifications", tables, 20)
    res.floor("keys", keys, 50)
    if not lookups:
        fs = [f for f in prog.funcs.values() if f.name == "jspec_object_read"]
        if not fs:
            res.floor("key lookups", 0, 1)
    res.stats["binary searches over key tables"] = lookups


def ordered_compare(prog, g):
    """g(a, b) is the byte-wise comparison of the two texts in that order"""
    cs = [(i, n) for i, n in enumerate(g.nodes) if n["k"] == "call" and "fn" in n]
    for i, n in cs:
        if n["fn"] in ("dstr_cmp", "dstr_cmp2"):
            vs = [provar(g, x) for x in n["a"]]
            return vs == [0, 1]
    return False


def provar(g, i):
    """parameter position an argument derives from"""
    for _ in range(4):
        r = root_var(g, i)
        if r is None:
            return None
        if r[0] in g.params:
            return g.params.index(r[0])
        ds = var_defs(g, r[0])
        if len(ds) != 1:
            return None
        i = ds[0]
    return None


def outputs(fn, kd):
    """output lvalues of the decoder of one key (not of nested objects)"""
    if "present" in kd:
        yield kd["present"]
    st = [kd["value"]] if "value" in kd else []
    while st:
        x = st.pop()
        n = fn.nodes[x]
        if n["k"] == "init" and str(n.get("r", "")).startswith("jspec_") and n["r"] != "jspec_t":
            d = dict(n["i"])
            for f in ("out", "ptr", "nonnull"):
                if f in d:
                    yield d[f]
            if "subspec" in d:
                st.append(d["subspec"])
            continue
        if n["k"] == "call":
            continue
        from model import children
        st += children(n)


CHECKS = {
    "E02": dict(check=e02, level="other",
                technique="whole-program format/argument agreement over the type-checked syntax tree: every call "
                          "through a (const char *, const fmt_i **, size_t) interface must use a constant format whose "
                          "placeholder count equals the constant argument count of its argument array",
                assumptions=["formats are followed through locals, constant tables, helper results and the callers "
                             "of every forwarding wrapper; anything else is reported as non-constant"]),
    "E03": dict(check=e03, level="other",
                technique="every object-specification initialiser in the type-checked syntax tree: constant keys, "
                          "strictly increasing in the byte order the decoder's search uses, count equal to the array "
                          "length, a decoder and distinct outputs for each key; and the lookup searches the whole table",
                assumptions=["dstr_cmp/dstr_cmp2 order texts byte-wise (libdstr/common.c)"]),
}
