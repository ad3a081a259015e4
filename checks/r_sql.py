"""The account database: statements, transactions, authentication, ownership."""
import ast
import os
import re

import front
import sql
from front import Broken
from prims import success
from r_crypto import shipped
from r_alloc import ASim
from r_init import LSim
from r_wake import Base
from sim import Rule, Sim, NZ, truth
from util import strip, walk, calls, var_defs, addr_args, loops_of, same
import util


def root_var(f, i):
    r = util.root_var(f, i)
    return r[0] if r is not None else None


# ---------------------------------------------------------------- S01

QUERY = {"mysql_real_query": 1, "mysql_query": 1, "mysql_send_query": 1, "mysql_stmt_prepare": 1}
# migration scripts are whole files written by the operator, not statements with data
SCRIPTS = ("server/migmysql.c",)


def fn_type(fn, n):
    """declared parameter types of a direct callee"""
    for m in fn.nodes:
        if m["k"] == "ref" and m["d"] == "f" and m.get("id") == n.get("f"):
            t = m["T"]
            return [x.strip() for x in t[t.index("(") + 1:t.rindex(")")].split(",")]
    return []


class Const:
    """is an expression a constant text?"""

    def __init__(self, prog, ix):
        self.p, self.ix = prog, ix
        self.gmut = {}
        for f in prog.funcs.values():
            for i, n in enumerate(f.nodes):
                if n["k"] == "asg":
                    g = self.groot(f, n["l"])
                    if g:
                        self.gmut.setdefault(g, (f, n["L"]))
                elif n["k"] == "un" and n["o"] in ("++", "--", "p++", "p--"):
                    g = self.groot(f, n["s"])
                    if g:
                        self.gmut.setdefault(g, (f, n["L"]))
                elif n["k"] == "call":
                    ts = None
                    for k, a in enumerate(n["a"]):
                        m = f.nodes[strip(f, a)]
                        if m["k"] == "un" and m["o"] == "&":
                            g = self.groot(f, m["s"])
                            if g and f.nodes[strip(f, m["s"])].get("T", "").replace("const ", "") == "dstr_t":
                                if ts is None:
                                    ts = fn_type(f, n)
                                if k >= len(ts) or "const" not in ts[k]:
                                    self.gmut.setdefault(g, (f, n["L"]))

    def groot(self, f, i):
        while True:
            i = strip(f, i)
            n = f.nodes[i]
            if n["k"] in ("mem",):
                i = n["b"]
            elif n["k"] == "idx":
                i = n["b"]
            elif n["k"] == "ref":
                return (n.get("id") or n["n"]) if n["d"] == "g" else None
            else:
                return None

    def of(self, f, i, seen=frozenset()):
        """("const", None), ("param", index) or ("data", why)"""
        i = strip(f, i)
        n = f.nodes[i]
        k = n["k"]
        if k == "str":
            return ("const", None)
        if "cv" in n:
            return ("const", None)
        if k == "cl":
            return self.of(f, n["s"], seen)
        if k == "un" and n["o"] in ("&", "*"):
            return self.of(f, n["s"], seen)
        if k == "mem" and n.get("r") == "dstr_t":
            return self.of(f, n["b"], seen)
        if k == "init":
            for fld, c in n["i"]:
                if fld in ("data", "len", "size"):
                    r = self.of(f, c, seen) if fld == "data" else ("const", None)
                    if r[0] != "const":
                        return r
            return ("const", None)
        if k == "cond":
            a = self.of(f, n["t"], seen)
            return a if a[0] != "const" else self.of(f, n["e"], seen)
        if k == "ref" and n["d"] == "g":
            g = n.get("id") or n["n"]
            if g in self.gmut:
                h, L = self.gmut[g]
                return ("data", "'%s' is modified in %s:%s" % (n["n"], h.name, L))
            gl = self.p.globals.get(g)
            if gl is None:
                return ("data", "'%s' has no constant value" % n["n"])
            for m in gl["nodes"]:
                if m["k"] == "ref" and m["d"] == "g" and (m.get("id") or m["n"]) in self.gmut:
                    return ("data", "'%s' is modified" % m["n"])
            return ("const", None)
        if k == "ref" and n["d"] in ("l", "p"):
            v = n["v"]
            if v in seen:
                return ("const", None)
            seen = seen | {v}
            for ci, ai in addr_args(f, v):
                c = f.nodes[ci]
                ts = fn_type(f, c)
                if ai >= len(ts) or "const" not in ts[ai]:
                    return ("data", "'%s' is written by %s" % (n["n"], c.get("fn")))
            ds = var_defs(f, v)
            for d in ds:
                r = self.of(f, d, seen)
                if r[0] != "const":
                    return r
            if v in f.params:
                return ("param", f.params.index(v))
            if not ds:
                return ("data", "'%s' has no value" % n["n"])
            return ("const", None)
        return ("data", "it is computed at run time")


def split_top(s):
    out, d, cur, q = [], 0, "", None
    for c in s:
        if q:
            q = None if c == q else q
        elif c in "'\"`":
            q = c
        elif c == "(":
            d += 1
        elif c == ")":
            d -= 1
        if c == "," and d == 0 and not q:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    out.append(cur.strip())
    return out


def norm(q):
    q = re.sub(r"--[^\n]*", " ", q)
    return re.sub(r"\s+", " ", q).strip().rstrip(";").strip()


def unquoted(q):
    return re.sub(r"'[^']*'|\"[^\"]*\"", "''", q)


def columns(q):
    """selected expressions of a statement; [] if it selects nothing"""
    q = norm(q)
    if not re.match(r"\(?\s*select\b", q, re.I):
        return []
    d, quote = 0, None
    start = re.match(r"\(?\s*select\b", q, re.I).end()
    k = start
    end = len(q)
    while k < len(q):
        c = q[k]
        if quote:
            quote = None if c == quote else quote
        elif c in "'\"`":
            quote = c
        elif c == "(":
            d += 1
        elif c == ")":
            d -= 1
        elif d == 0 and re.match(r"\bfrom\b", q[k:], re.I) and not (q[k - 1].isalnum() or q[k - 1] == "_"):
            end = k
            break
        k += 1
    return split_top(q[start:end])


def params(q):
    """[(context, column, operator)] of each parameter marker"""
    q = norm(q)
    out = []
    m = re.match(r"(?:insert|replace) into (\w+) ?\(([^)]*)\) ?values ?\((.*)\)", q, re.I)
    if m:
        cols = [c.strip() for c in m.group(2).split(",")]
        vals = split_top(m.group(3))
        if len(cols) == len(vals):
            return [("insert", c, "=") for c, v in zip(cols, vals) for _ in range(unquoted(v).count("?"))]
    w = re.search(r"\bwhere\b", q, re.I)
    for m in re.finditer(r"\?", unquoted(q)):
        pass
    u = unquoted(q)
    for m in re.finditer(r"\?", u):
        before = u[:m.start()]
        c = re.search(r"([\w.`]+)\s*(<=|>=|<>|!=|=|<|>|like)\s*$", before, re.I)
        ctx = "where" if re.search(r"\bwhere\b", before, re.I) else ("set" if re.search(r"\bset\b", before, re.I) else "expr")
        out.append((ctx, c.group(1).split(".")[-1].strip("`") if c else None, c.group(2) if c else None))
    return out


def verb(q):
    return norm(q).lstrip("( ").split(" ")[0].upper()


def tables(q):
    q = norm(q)
    return [t.lower() for t in re.findall(r"\b(?:from|into|update|join)\s+`?(\w+)`?", q, re.I) if t.lower() != "select"]


class Schema:
    """columns of the account database as the migrations leave them"""

    def __init__(self, repo):
        self.null = {}
        self.type = {}
        d = os.path.join(repo, "server", "migrations")
        for name in sorted(os.listdir(d)):
            if ".up" not in name:
                continue
            text = open(os.path.join(d, name), errors="replace").read()
            text = re.sub(r"--[^\n]*", " ", text)
            for m in re.finditer(r"create\s+table\s+(\w+)\s*\((.*?)\n?\)\s*;", text, re.S | re.I):
                for c in split_top(re.sub(r"\s+", " ", m.group(2))):
                    self.col(m.group(1), c)
            for m in re.finditer(r"alter\s+table\s+(\w+)\s+(?:add|modify)\s+(?:column\s+)?(?!constraint|primary|unique|foreign|key|index)([^;]*);", text, re.S | re.I):
                self.col(m.group(1), re.sub(r"\s+", " ", m.group(2)))

    def col(self, t, c):
        w = c.split()
        if len(w) < 2 or w[0].lower() in ("primary", "unique", "key", "constraint", "foreign", "index"):
            return
        key = (t.lower(), w[0].strip("`").lower())
        self.type[key] = w[1].lower()
        self.null[key] = not re.search(r"not null|auto_increment|primary key|default", c, re.I)

    def left_null(self, queries):
        """nullable columns that some statement leaves or makes NULL"""
        out = set()
        for q in queries:
            u = norm(q)
            ci = sql.columns_of_insert(u)
            if ci:
                out |= {(t, c) for (t, c), nul in self.null.items() if nul and t == ci[0].lower()
                        and c not in [x.lower() for x in ci[1]]}
            if verb(u) == "UPDATE":
                for t in tables(u):
                    for c in re.findall(r"(\w+)\s*=\s*NULL\b", u, re.I):
                        out.add((t, c.lower()))
        return out


BYTES = {"char", "varchar", "binary", "varbinary", "blob", "text", "longblob", "tinyblob", "mediumblob"}


def family(bind):
    b = re.sub(r"_bind_(in|out)(_ex)?$", "", bind)
    return "bytes" if b in ("string", "blob") else b


def fits(fam, t):
    base = re.match(r"\w+", t).group(0)
    if base in BYTES:
        return fam == "bytes"
    if base == "bit":
        return fam == "bool"
    if base == "bigint":
        return fam in ("int64", "uint64")
    if base in ("int", "smallint", "tinyint", "mediumint"):
        return fam in ("int", "uint", "int64", "uint64")
    return True


def s01(prog, ix, res, tier):
    C = Const(prog, ix)
    entry = {}
    work = [(k, v) for k, v in QUERY.items()]
    seen = set()
    n_const = 0
    while work:
        name, arg = work.pop()
        if (name, arg) in seen:
            continue
        seen.add((name, arg))
        for f, i, n in calls(prog, name):
            if f.file.startswith(("test/", "server/smphp/")) or "/test_" in f.file or arg >= len(n["a"]):
                continue
            kind, x = C.of(f, n["a"][arg])
            res.functions.add(f.id)
            if kind == "const":
                n_const += 1
            elif kind == "param":
                work.append((f.name, x))
            elif not f.file.startswith(SCRIPTS):
                res.add(f, n["L"], "the text of an SQL statement is not constant: %s" % x)
    res.floor("calls with a constant statement", n_const, 70)
    res.floor("functions that execute a statement", len(seen), 8)

    sites = [s for s in sql.sites(prog, ix) if not s.fn.file.startswith("test/")]
    res.floor("statements with bound data", len(sites), 65)
    schema = Schema(front.REPO)
    res.floor("columns known from the migrations", len(schema.type), 40)
    nulls = schema.left_null([q for s in sites for q in s.queries])
    res.stats["columns a statement may leave NULL"] = len(nulls)
    nb = 0
    for s in sites:
        for q in s.queries:
            need, cols = params(q), columns(q)
            names = [b[0] for b in s.binds]
            nb += len(names)
            if len(names) != len(need) + len(cols):
                res.add(s.fn, s.n["L"], "the statement has %d parameters and selects %d columns, but %d values are bound"
                        % (len(need), len(cols), len(names)))
                continue
            if (s.kind == "_sql_norow_query") != (not cols):
                res.add(s.fn, s.n["L"], "the statement selects %d columns but is run by %s" % (len(cols), s.kind))
            tabs = tables(q)
            for k, (b, node, m) in enumerate(s.binds):
                if b == "?" or "_bind_" not in b:
                    res.add(s.fn, s.n["L"], "value %d is not bound by a bind function" % (k + 1))
                    continue
                out = "_bind_out" in b
                if k < len(need) and out and family(b) != "bytes":
                    res.add(s.fn, m["L"], "parameter %d of the statement is bound as a result" % (k + 1))
                if k >= len(need) and not out:
                    res.add(s.fn, m["L"], "column %d of the statement is bound as a parameter" % (k + 1 - len(need)))
                col = need[k][1] if k < len(need) else cols[k - len(need)]
                col = (col or "").lower().strip("`")
                ts = {schema.type[(t, col)] for t in tabs if (t, col) in schema.type}
                if len(ts) == 1 and not fits(family(b), list(ts)[0]):
                    res.add(s.fn, m["L"], "column %s is of type %s but is bound with %s" % (col, list(ts)[0], b))
                if k >= len(need) and not b.endswith("_ex"):
                    agg = re.match(r"(sum|min|max|avg)\s*\(", col)
                    nul = any((t, col) in nulls for t in tabs)
                    if agg:
                        res.add(s.fn, m["L"], "%s(...) is NULL when no row matches, which leaves the bound result untouched" % agg.group(1))
                    elif nul and not re.search(r"\b%s is not null\b" % re.escape(col), norm(q), re.I):
                        res.add(s.fn, m["L"], "column %s can be NULL but its result has no NULL indicator" % col)
    res.floor("bound values", nb, 150)
    # a NULL indicator decides whether the result is used
    ind = 0
    for s in sites:
        for b, node, m in s.binds:
            if not b.endswith("_out_ex"):
                continue
            a = s.fn.nodes[strip(s.fn, m["a"][1])]
            v = s.fn.nodes[strip(s.fn, a["s"])].get("v") if a["k"] == "un" and a["o"] == "&" else None
            if v is None:
                continue
            ind += 1
            reads = [i for i, n in enumerate(s.fn.nodes) if n["k"] == "ref" and n.get("v") == v and n["d"] == "l"]
            taken = {strip(s.fn, s.fn.nodes[strip(s.fn, m["a"][1])]["s"])}
            if not [r for r in reads if s.fn.nodes[r]["L"] != m["L"] and r not in taken]:
                res.add(s.fn, m["L"], "the NULL indicator of a result is never read")
    res.floor("NULL indicators", ind, 1)


# ---------------------------------------------------------------- S02

TXN = ("sql_txn_start", "sql_txn_commit", "sql_txn_rollback", "sql_txn_abort")
RUN = ("_sql_norow_query", "_sql_onerow_query", "_sql_multirow_stmt", "sql_stmt_fetch", "sql_query", "sql_exec_multi")


class Txn(Rule):
    """q: (state, writes outside a transaction); state: "n" none, "o" open,
    "f" open and a statement failed, "c" committed, "a" rolled back"""
    ptr_types = ()

    def __init__(self, ix, byq):
        super().__init__(ix)
        self.byq = byq

    def is_event(self, fn, i, n):
        return n["k"] == "call" and (n.get("fn") in TXN or n.get("fn") in RUN)

    def on_call(self, sim, fn, i, n, q, args, env):
        name = n.get("fn")
        st, w = q
        if name not in TXN and name not in RUN:
            return None
        self.count[name] += 1
        if name in RUN and st == "a":
            self.report(sim, fn, i, "uses the connection after sql_txn_abort, which may have closed it")
        if name == "sql_txn_start":
            if st in ("o", "f") or isinstance(st, tuple):
                self.report(sim, fn, i, "starts a transaction inside another one, which commits the first")
            if w:
                self.report(sim, fn, i, "a change made before the transaction starts is not part of it")
            return [(0, ("o", w)), (NZ, ("a" if st == "a" else "n", w))]
        if name == "sql_txn_commit":
            if st == "f" or isinstance(st, tuple):
                self.report(sim, fn, i, "commits a transaction in which a statement failed")
            elif st != "o":
                self.report(sim, fn, i, "commits without an open transaction")
            return [(0, ("c", w)), (NZ, ("c", w))]
        if name in ("sql_txn_rollback", "sql_txn_abort"):
            if st not in ("o", "f") and not isinstance(st, tuple):
                self.report(sim, fn, i, "rolls back without an open transaction")
            return [(0, ("a" if name == "sql_txn_abort" else "n", w))] if name == "sql_txn_abort" else \
                [(0, ("n", w)), (NZ, ("n", w))]
        # statements
        op = st in ("o", "f") or isinstance(st, tuple)
        bad = ("f" if op else st, w)
        good = ("o" if st == ("d", fn.id, i) else st, w)
        qs = self.byq.get((fn.id, i), ())
        wr = any(verb(x) in ("INSERT", "UPDATE", "DELETE", "REPLACE") for x in qs)
        lock = any(re.search(r"\bfor update$", norm(x), re.I) for x in qs)
        if lock and not op:
            self.report(sim, fn, i, "SELECT ... FOR UPDATE outside of a transaction locks nothing")
        if wr and not op:
            if w >= 1 and not (fn.file, fn.name) in INDEPENDENT:
                self.report(sim, fn, i, "a second change outside of a transaction: a failure or crash leaves only the first")
            good = (st, min(w + 1, 2))
        if name in ("_sql_onerow_query", "sql_stmt_fetch"):
            k = 2 if name == "_sql_onerow_query" else 1
            c = args[k][1] if isinstance(args[k], tuple) and args[k][0] == "&" else None
            if c is not None:
                e1, e0 = dict(env), dict(env)
                e1[c] = 1
                e0[c] = 0
                return [(0, good, e1), (0, good, e0), (("S", "E_SQL"), bad)]
            return [(0, good), (("S", "E_SQL"), bad)]
        dup = ("S", "E_SQL_DUP")
        if wr and op and st != "f":
            # a duplicate-key error undoes only its own statement; the caller may go on
            return [(0, good), (("S", "E_SQL"), bad), (dup, (("d", fn.id, i), w))]
        return [(0, good), (("S", "E_SQL"), bad)] + ([(dup, good[:1] + (w,))] if wr else [])

    def on_exit(self, sim, fn, q, ret, env):
        st, w = q
        if st in ("o", "f") or isinstance(st, tuple):
            self.report(sim, fn, -1, "returns with the transaction still open")
        if st in ("a", "n") and success(ret) and self.opened(fn):
            if st == "a":
                self.report(sim, fn, -1, "reports success although the transaction was rolled back")

    def opened(self, fn):
        return any(n["k"] == "call" and n.get("fn") == "sql_txn_start" for n in fn.nodes)


# independent clean-ups: each statement is complete on its own
INDEPENDENT = {("server/libsmsql.c", "gc_sessions_and_csrf")}


def public_fns(prog):
    out = [f for f in prog.funcs.values() if f.file == "server/libsmsql.c" and not f.static and f.nodes]
    return sorted(out, key=lambda f: f.id)


def s02(prog, ix, res, tier):
    byq = {(s.fn.id, s.call): s.queries for s in sql.sites(prog, ix)}
    rule = Txn(ix, byq)
    s = Sim(rule)
    runs = ix.reach_up({f.id for f in prog.funcs.values() if f.name in RUN})
    roots = [f for f in public_fns(prog) if f.id in runs]
    s.run([(f.id, ("n", 0), ()) for f in roots])
    res.add_sim(s, "database functions")
    res.floor("database functions", len(roots), 40)
    res.floor("transactions started", sum(1 for f in roots for n in f.nodes if n["k"] == "call" and n.get("fn") == "sql_txn_start"), 10)
    res.floor("commits met", rule.count["sql_txn_commit"], 10)
    res.floor("rollbacks met", rule.count["sql_txn_abort"], 10)
    # every opener is one of the roots, and the helpers really run what they say
    for f, i, n in calls(prog, "sql_txn_start"):
        if f.file.startswith("test/"):
            continue
        if f.id not in s.fns:
            res.add(f, n["L"], "a transaction is started outside of the analysed functions")
    want = {"sql_txn_start": "START TRANSACTION", "sql_txn_commit": "COMMIT", "sql_txn_rollback": "ROLLBACK", "sql_txn_abort": "ROLLBACK"}
    from util import Strings
    st = Strings(ix)
    for name, text in want.items():
        g = prog.funcs.get(name)
        if g is None:
            raise Broken("no " + name)
        got = {t.upper() for i, n in enumerate(g.nodes) if n["k"] == "call" and n.get("fn") == "sql_query"
               for t in st.of(g, n["a"][1])}
        if got != {text}:
            res.add(g, g.line, "%s runs %s" % (name, sorted(got)))


# ---------------------------------------------------------------- S03

COMPARE = re.compile(r"^_?(dstr_eq|dstr_eq2|dstr_cmp|dstr_cmp2|dstr_ieq|dstr_ieq2|dstr_icmp|dstr_icmp2|dstr_beginswith2?|dstr_endswith2?|"
                     r"dstr_ibeginswith2?|dstr_find|dstr_count2?|dstr_contains|memcmp|bcmp|strcmp|strncmp|strcasecmp|strncasecmp|lstr_eq|lstr_ieq)$")
PASSES = {"dstr_append": (0, (1,)), "dstr_append_quiet": (0, (1,)), "dstr_copy": (1, (0,)), "bin2b64": (1, (0,)), "b642bin": (1, (0,)),
          "bin2hex": (1, (0,)), "hex2bin": (1, (0,)), "dstr_split": (2, (0,)), "dstr_split_soft": (2, (0,)),
          "dstr_split2": (3, (0,)), "dstr_split2_soft": (3, (0,))}


class Secrets:
    """variables (function, var) that may hold a stored or computed secret"""

    def __init__(self, prog, ix):
        self.p, self.ix = prog, ix
        self.vars = {}
        self.given = set()
        for s in sql.sites(prog, ix):
            if s.fn.file.startswith("test/"):
                continue
            for q in s.queries:
                cols, need = columns(q), params(q)
                if len(s.binds) != len(cols) + len(need):
                    continue
                for k, (b, node, m) in enumerate(s.binds[len(need):]):
                    if cols[k].lower() in ("secret", "password", "csrf_id"):
                        v = root_var(s.fn, node)
                        if v is not None:
                            self.mark(s.fn, v, "the stored %s" % cols[k])
        for name, arg, what in (("hmac", 2, "a computed signature"), ("hash_password", 3, "a password hash")):
            for f, i, n in calls(prog, name):
                if f.file.startswith("server/") and "/test_" not in f.file:
                    v = root_var(f, n["a"][arg])
                    if v is not None:
                        self.mark(f, v, what)
        self.grow()

    def mark(self, f, v, what, given=False):
        """given: handed in by a caller, not stored by the function itself"""
        if given and (f.id, v) not in self.vars:
            self.given.add((f.id, v))
        if not given:
            self.given.discard((f.id, v))
        if (f.id, v) not in self.vars:
            self.vars[(f.id, v)] = what
            return True
        return False

    def grow(self):
        ch = True
        while ch:
            ch = False
            for (fid, v), what in list(self.vars.items()):
                f = self.p.funcs[fid]
                for i, n in enumerate(f.nodes):
                    if n["k"] == "call":
                        hit = [k for k, a in enumerate(n["a"]) if root_var(f, a) == v]
                        if not hit:
                            continue
                        name = n.get("fn")
                        if name in PASSES:
                            o, ins = PASSES[name]
                            if set(hit) & set(ins):
                                ov = root_var(f, n["a"][o])
                                if ov is not None:
                                    ch |= self.mark(f, ov, what)
                        g = self.p.funcs.get(n.get("f"))
                        if g is not None and name not in PASSES and "_bind_" not in name and g.file.startswith("server/"):
                            for k in hit:
                                # signatures are computed from secrets, not equal to them
                                if k < len(g.params) and name not in ("hmac",):
                                    ch |= self.mark(g, g.params[k], what, True)
                    elif n["k"] == "asg":
                        l = root_var(f, n["l"])
                        if l is not None and any(m["k"] == "ref" and m.get("v") == v for _, m in walk(f, n["r"])) and "dstr_t" in f.vars[l][1]:
                            ch |= self.mark(f, l, what)
                    elif n["k"] == "decls":
                        for dv, di in n["d"]:
                            if di < 0 or "dstr_t" not in f.vars[dv][1]:
                                continue
                            if any(m["k"] == "ref" and m.get("v") == v for _, m in walk(f, di)):
                                ch |= self.mark(f, dv, what)
                # a secret output parameter makes the caller's variable secret
                if v in f.params and "*" in f.vars[v][1] and (fid, v) not in self.given:
                    pi = f.params.index(v)
                    for g, ci in self.ix.calls.get(fid, ()):
                        if not g.file.startswith("server/") or pi >= len(g.nodes[ci]["a"]) or "/test_" in g.file:
                            continue
                        ov = root_var(g, g.nodes[ci]["a"][pi])
                        if ov is not None and self.writes(f, v):
                            ch |= self.mark(g, ov, what)

    def writes(self, f, v):
        return "const" not in f.vars[v][1]


def ct_ok(prog, ix, res):
    """dstr_eq_consttime: no early exit, no work that depends on the secret"""
    f = prog.funcs.get("dstr_eq_consttime")
    if f is None:
        raise Broken("no dstr_eq_consttime")
    loops = loops_of(f)
    res.floor("loops of dstr_eq_consttime", len(loops), 1)
    for n in f.nodes:
        if n["k"] == "call":
            res.add(f, n["L"], "the constant-time comparison calls %s" % n.get("fn"))
    inl = set()
    for l in loops.values():
        inl |= set(l)
    rets = [b for b in f.blocks.values() if any(f.nodes[e]["k"] == "ret" for e in b.elems)]
    if len(rets) != 1:
        res.add(f, f.line, "the constant-time comparison has an early return")
    if len(f.params) != 2:
        raise Broken("dstr_eq_consttime takes %d arguments" % len(f.params))
    secret = f.params[1]
    other = {secret}
    tainted = set()             # variables that hold something of the contents

    def content(x):
        for _, m in walk(f, x):
            if m["k"] == "idx" or m["k"] == "un" and m["o"] == "*":
                r = root_var(f, m["b"] if m["k"] == "idx" else m["s"])
                if r is None or r in other:
                    return True
            if m["k"] == "ref" and m.get("v") in tainted:
                return True
        return False

    for _ in range(4):
        for v in range(len(f.vars)):
            for d in var_defs(f, v):
                # the outcome of comparing lengths is no secret content
                if "*" in f.vars[v][1] and any(m["k"] == "ref" and m.get("v") in other for _, m in walk(f, d)):
                    other.add(v)
        for n in f.nodes:
            if n["k"] == "asg" and content(n["r"]):
                m = f.nodes[strip(f, n["l"])]
                if m["k"] == "ref" and "v" in m:
                    tainted.add(m["v"])
            for v, x in n["d"] if n["k"] == "decls" else ():
                if x >= 0 and content(x) and "*" not in f.vars[v][1]:
                    tainted.add(v)
    heads = set(loops)
    for bi, b in f.blocks.items():
        if b.cond is None or len([s for s in b.succs if s >= 0]) < 2:
            continue
        if bi in inl and content(b.cond):
            res.add(f, b.tline or f.nodes[b.cond]["L"], "the constant-time comparison branches on the secret's contents")
        if bi in heads:
            for x, m in walk(f, b.cond):
                if m["k"] == "ref" and m.get("v") == secret:
                    res.add(f, m["L"], "the number of steps depends on the secret's length")
        if bi in inl and bi not in heads:
            for s in b.succs:
                if s >= 0 and s not in inl:
                    res.add(f, b.tline or f.line, "the constant-time comparison can leave its loop early")
    # what it decides
    for a, b, differ, want in ((3, 5, 0, 0), (5, 3, 0, 0), (0, 3, 0, 0), (3, 0, 0, 0), (2, 2, 1, 0), (1, 1, 1, 0), (0, 0, 0, 1)):
        r = CtRule(ix)
        s = CtSim(r)
        s.differ = differ
        s.run([(f.id, (), ((("v", f.params[0]), ("&", ("d", 0))), (("v", f.params[1]), ("&", ("d", 1))),
                           (("d", 0, "len"), a), (("d", 1, "len"), b)))])
        res.obligations += 1
        if want == 0 and any(x != 0 for x in r.out):
            res.add(f, f.line, "the comparison may accept %s" % (
                "a value of length %d for a secret of length %d" % (a, b) if a != b else "a value that differs from the secret"))
        if want and all(x == 0 for x in r.out):
            res.add(f, f.line, "the comparison never accepts")


class CtRule(Base):
    def track(self, fn, c, v):
        return True

    def on_exit(self, sim, fn, q, ret, env):
        self.out.append(ret)


class CtSim(ASim):
    """lengths are known; the first bytes differ if `differ`"""
    differ = 0

    def put(self, env, c, v):
        LSim.put(self, env, c, v)

    def setx(self, fn, i, v, env):
        return LSim.setx(self, fn, i, v, env)

    def ev(self, fn, i, env):
        n = fn.nodes[strip(fn, i)]
        if n["k"] == "idx":
            r = root_var(fn, n["b"])
            p = env.get(("v", r)) if r is not None else None
            if self.differ and isinstance(p, tuple) and len(p[1]) > 1 and self.ev(fn, n["i"], env) == 0:
                return 1 + p[1][1]
            return None
        return ASim.ev(self, fn, i, env)


def s03(prog, ix, res, tier):
    S = Secrets(prog, ix)
    res.floor("variables that hold secrets", len(S.vars), 15)
    ct_ok(prog, ix, res)
    ct = 0
    looked = 0
    for (fid, v), what in sorted(S.vars.items()):
        f = prog.funcs[fid]
        if f.name == "dstr_eq_consttime" or not f.file.startswith("server/"):
            continue
        res.functions.add(fid)
        for i, n in enumerate(f.nodes):
            if n["k"] != "call":
                continue
            for a in n["a"]:
                if root_var(f, a) != v:
                    continue
                looked += 1
                if n.get("fn") == "dstr_eq_consttime":
                    ct += 1
                elif COMPARE.match(n.get("fn") or "") and not literal(prog, f, n, a):
                    res.add(f, n["L"], "%s is compared by %s, whose duration depends on where it differs" % (what, n["fn"]))
        for i, n in enumerate(f.nodes):
            if n["k"] == "bin" and n["o"] in ("==", "!=", "<", ">"):
                for s in (n["l"], n["r"]):
                    m = f.nodes[strip(f, s)]
                    if m["k"] == "idx" and root_var(f, m["b"]) == v:
                        o = f.nodes[strip(f, n["r"] if s == n["l"] else n["l"])]
                        if "cv" not in o:
                            res.add(f, n["L"], "%s is compared byte by byte" % what)
    res.floor("constant-time comparisons of secrets", ct, 3)
    res.stats["uses of secrets as arguments examined"] = looked


def literal(prog, f, n, a):
    """the other operand is a constant: a format check, not a comparison with input"""
    for b in n["a"]:
        if b == a:
            continue
        m = f.nodes[strip(f, b)]
        if any(x["k"] == "str" for _, x in walk(f, b)):
            return True
        for _, x in walk(f, b):
            if x["k"] == "ref" and x["d"] == "g" and "dstr_t" in x.get("T", ""):
                g = prog.globals.get(x.get("id") or x["n"])
                if g and g["init"] >= 0:
                    return True
    return False


# ---------------------------------------------------------------- S04

NOW = 10 ** 9
OLD = 500


class Case:
    """one ordering of the values an authentication decision depends on"""

    def __init__(self, label, accept, rows, match=None, bind=None, need=(), need_fail=()):
        self.label, self.accept = label, accept
        self.rows = rows            # table -> list of {column: value}
        self.match = match          # outcome of the secret comparison
        self.bind = bind or {}      # parameter name -> value
        self.need = need            # statements an accepting path has committed
        self.need_fail = need_fail  # statements a rejecting path has committed


def auth_cases():
    def nonces(t):
        row = {"nonce": OLD}
        upd = (("UPDATE", t, "nonce"),)
        return [
            Case("the token is unknown", False, {t: []}, True, {"nonce": OLD + 1}),
            Case("the signature is wrong", False, {t: [row]}, False, {"nonce": OLD + 1}),
            Case("the nonce is older than the last one", False, {t: [row]}, True, {"nonce": OLD - 1}),
            Case("the nonce was used before", False, {t: [row]}, True, {"nonce": OLD}),
            Case("the token, signature and nonce are good", True, {t: [row]}, True, {"nonce": OLD + 1}, upd),
        ]

    def sess(*rows):
        return {"sessions": [dict(zip(("login", "last_seen", "void", "server_id"), r)) for r in rows]}

    live = (NOW, NOW, 0, 1)
    other = (NOW, NOW, 0, 2)
    void = (NOW, NOW, 1, 1)
    voido = (NOW, NOW, 1, 2)
    sid = {"server_id": 1}
    seen = (("*", "sessions", "last_seen"),)
    mark = (("*", "sessions", "void"),)
    return {
        "validate_token_auth": nonces("tokens"),
        "validate_installation_auth": nonces("installations"),
        "validate_session_auth": [
            Case("the session does not exist", False, sess(), None, sid),
            Case("the session was ended", False, sess(void), None, sid),
            Case("the session was ended on another server", False, sess(live, voido), None, sid),
            Case("the session was ended here and used elsewhere since", False, sess(void, other), None, sid),
            Case("the session was ended elsewhere before", False, sess(voido, live), None, sid),
            Case("the session is too old", False, sess((0, NOW, 0, 1)), None, sid, (), mark),
            Case("the session was idle for too long", False, sess((NOW, 0, 0, 1)), None, sid, (), mark),
            Case("the session was idle for too long on another server", False, sess((NOW, 0, 0, 2)), None, sid, (), mark),
            Case("the session is live", True, sess(live), None, sid, seen),
            Case("the session is live on another server", True, sess(other), None, sid, seen),
            Case("the session was used elsewhere since", True, sess((NOW, 0, 0, 1), other), None, sid, seen),
        ],
        "validate_csrf": [
            Case("the token is unknown", False, {"csrf": []}),
            Case("the token has expired", False, {"csrf": [{"created": 0}]}),
            Case("the token is live", True, {"csrf": [{"created": NOW}]}),
        ],
        "validate_user_password": [
            Case("the password is wrong", False, {"accounts": [{}]}, False),
            Case("the password is right", True, {"accounts": [{}]}, True),
        ],
        "validate_login": [
            Case("the account is unknown", False, {"accounts": []}, True),
            Case("the password is wrong", False, {"accounts": [{}]}, False),
            Case("the password is right", True, {"accounts": [{}]}, True),
        ],
    }


class Auth(Rule):
    """q: (pending row, statements run, statements committed, locked)"""
    keep_err_types = True
    any_int = True

    def __init__(self, ix, byq, case, root):
        super().__init__(ix)
        self.byq, self.case, self.root = byq, case, root
        self.accepted = 0
        self.compared = set()
        self.blind = False

    def is_event(self, fn, i, n):
        return n["k"] == "call" and (n.get("fn") in TXN or n.get("fn") in RUN or n.get("fn") in ("dstr_eq_consttime", "dtime"))

    def store(self, sim, fn, site, q, row, env):
        """env after the columns of a row arrived in the bound results"""
        cols, need = columns(q), params(q)
        e = dict(env)
        for c, (b, node, m) in zip(cols, site.binds[len(need):]):
            v = sim.ev(fn, node, env)
            cell = v[1] if isinstance(v, tuple) and v[0] == "&" else None
            if cell is None:
                continue
            if c.lower() in row:
                e[cell] = row[c.lower()]
            else:
                e.pop(cell, None)
        return e

    def on_call(self, sim, fn, i, n, q, args, env):
        name = n.get("fn")
        if not self.is_event(fn, i, n):
            return None
        pend, ran, com, lock = q
        if name == "dtime":
            e = dict(env)
            if isinstance(args[0], tuple) and args[0][0] == "&":
                e[args[0][1]] = NOW
            return [(0, q, e), (NZ, q)]
        if name == "dstr_eq_consttime":
            self.compared.add((fn.id, i))
            if self.case.match is None:
                return [(0, q), (1, q)]
            return [(int(self.case.match), q)]
        if name == "sql_txn_commit":
            return [(0, (pend, frozenset(), com | ran, lock)), (NZ, q)]
        if name in ("sql_txn_abort", "sql_txn_rollback"):
            return [(0, (pend, frozenset(), com, lock))]
        if name == "sql_txn_start":
            return [(0, (pend, frozenset([("txn",)]), com, lock)), (NZ, q)]
        if name == "sql_stmt_fetch":
            c = args[1][1] if isinstance(args[1], tuple) and args[1][0] == "&" else None
            if pend is None or c is None or pend[0] != fn.id:
                self.blind = True
                return None
            site = self.byq[(pend[0], pend[1])]
            rows = self.case.rows.get(pend[2], [])
            if pend[3] < len(rows):
                e = self.store(sim, fn, site, min(site.queries), rows[pend[3]], env)
                e[c] = 1
                return [(0, (pend[:3] + (pend[3] + 1,), ran, com, lock), e), (NZ, q)]
            e = dict(env)
            e[c] = 0
            return [(0, q, e), (NZ, q)]
        site = self.byq.get((fn.id, i))
        if site is None or len(site.queries) != 1:
            return None
        t = min(site.queries)
        vb, tabs = verb(t), tables(t)
        lk = lock or bool(re.search(r"\bfor update$", norm(t), re.I))
        if vb == "SELECT":
            tab = tabs[0]
            if name == "_sql_multirow_stmt":
                return [(0, ((fn.id, i, tab, 0), ran, com, lk)), (NZ, q)]
            rows = self.case.rows.get(tab)
            if rows is None:
                return None
            c = args[2][1] if isinstance(args[2], tuple) and args[2][0] == "&" else None
            if rows:
                e = self.store(sim, fn, site, t, rows[0], env)
                if c:
                    e[c] = 1
                return [(0, (pend, ran, com, lk), e), (NZ, q)]
            if args[2] == 0:
                return [(("S", "E_INTERNAL"), q)]
            e = dict(env)
            if c:
                e[c] = 0
            return [(0, (pend, ran, com, lk), e), (NZ, q)]
        cols = set(x.lower() for x in (sql.columns_of_insert(norm(t)) or (0, (), 0))[1])
        if vb == "UPDATE":
            m = re.search(r"\bset\b(.*?)(\bwhere\b|$)", norm(t), re.I)
            cols = {c.split("=")[0].strip().lower() for c in split_top(m.group(1))}
        add = {(vb, tabs[0], c) for c in cols} | {("*", tabs[0], c) for c in cols}
        if ("txn",) in ran:
            return [(0, (pend, ran | add, com, lock)), (NZ, q)]
        return [(0, (pend, ran, com | add, lock)), (NZ, q)]

    def on_exit(self, sim, fn, q, ret, env):
        pend, ran, com, lock = q
        ok = success(ret)
        good = ok
        if fn.ret_flag is not None:
            v = env.get(("d", fn.ret_flag))
            good = ok and truth(v) is not False
        c = self.case
        if good:
            self.accepted += 1
            if not c.accept:
                if not self.blind:
                    self.report(sim, fn, -1, "accepts although %s" % c.label)
                return
            for need in c.need:
                if need not in com:
                    self.report(sim, fn, -1, "accepts without having committed the new %s" % need[2])
            if c.need and not lock:
                self.report(sim, fn, -1, "the row is not locked between being checked and being updated")
        elif c.need_fail and isinstance(ret, tuple) and ret[1] == "E_USERMSG" and not self.blind:
            for need in c.need_fail:
                if need not in com:
                    self.report(sim, fn, -1, "rejects because %s, but the decision is not recorded in the database" % c.label)


class Root:
    """a function together with the output that carries its verdict"""

    def __init__(self, f, flag):
        self.f, self.ret_flag = f, flag

    def __getattr__(self, k):
        return getattr(self.f, k)


def deps(f, v, sites, seen=None):
    """parameters and columns the contents of a local may depend on"""
    seen = set() if seen is None else seen
    if v in seen:
        return set()
    seen.add(v)
    out = set()
    if v in f.params and "*" not in f.vars[v][1]:
        out.add(("param", v))
    for s in sites:
        for q in s.queries:
            need, cols = params(q), columns(q)
            if len(s.binds) == len(need) + len(cols):
                for c, (b, node, m) in zip(cols, s.binds[len(need):]):
                    if root_var(f, node) == v:
                        out.add(("column", c.lower()))
    for d in var_defs(f, v):
        for _, m in walk(f, d):
            if m["k"] == "ref" and m["d"] in ("l", "p"):
                out |= deps(f, m["v"], sites, seen)
    for i, n in enumerate(f.nodes):
        if n["k"] != "call" or n.get("fn") in RUN or "_bind_" in n.get("fn", "") or n.get("fn") in COMPARE_ALL:
            continue
        outs = []
        for a in n["a"]:
            m = f.nodes[strip(f, a)]
            if m["k"] == "un" and m["o"] == "&" and root_var(f, a) == v:
                outs.append(a)
        if not outs:
            continue
        for a in n["a"]:
            if a in outs:
                continue
            for _, m in walk(f, a):
                if m["k"] == "ref" and m["d"] in ("l", "p") and m["v"] != v:
                    if "derr_t" not in f.vars[m["v"]][1] and "MYSQL" not in f.vars[m["v"]][1]:
                        out |= deps(f, m["v"], sites, seen)
    return out


COMPARE_ALL = {"dstr_eq_consttime", "pvt_prop", "pvt_prop_var", "pvt_orig"}


def s04(prog, ix, res, tier):
    allsites = sql.sites(prog, ix)
    byq = {(s.fn.id, s.call): s for s in allsites}
    compared = set()
    ncase = acc = 0
    for name, cases in sorted(auth_cases().items()):
        f = prog.funcs.get(name)
        if f is None:
            raise Broken("no function " + name)
        flag = None
        for v in f.params:
            if f.vars[v][1] == "bool *":
                flag = v
        ok = 0
        for c in cases:
            rule = Auth(ix, byq, c, f)
            rule.on_exit = (lambda r, fl: lambda sim, fn, q, ret, env: Auth.on_exit(r, sim, Root(fn, fl), q, ret, env))(rule, flag)
            bind = []
            for pn, val in c.bind.items():
                for v in f.params:
                    if f.vars[v][0] == pn or (pn == "nonce" and "uint64" in f.vars[v][1]) or (pn == "server_id" and f.vars[v][1] == "int"):
                        bind.append((("v", v), val))
                        break
            s = Sim(rule)
            s.run([(f.id, (None, frozenset(), frozenset(), False), tuple(sorted(set(bind), key=str)))])
            res.functions |= s.fns
            for v in rule.found.values():
                res.violations.append(v)
            res.stats["abstract block states"] = res.stats.get("abstract block states", 0) + s.steps
            ncase += 1
            compared |= rule.compared
            if c.accept:
                ok += rule.accepted
        if ok:
            acc += 1
    res.floor("orderings analysed", ncase, 27)
    res.floor("functions with an accepting path", acc, 6)

    # what the secret comparison compares
    n = 0
    for fid, i in sorted(compared):
        f = prog.funcs[fid]
        sites = [s for s in allsites if s.fn.id == fid]
        call = f.nodes[i]
        d = [deps(f, root_var(f, a), sites) if root_var(f, a) is not None else set() for a in call["a"][:2]]
        given = {("param", v) for v in f.params if f.vars[v][1].replace("const ", "") == "dstr_t"}
        n += 1
        both = d[0] | d[1]
        if d[0] == d[1] or not (d[0] - d[1] or d[1] - d[0]):
            res.add(f, call["L"], "compares a value with itself")
        for g in sorted(given - both):
            res.add(f, call["L"], "the comparison does not depend on '%s'" % f.vars[g[1]][0])
        cols = {c for s in sites for q in s.queries for c in columns(q) if c.lower() == "secret"}
        if cols and ("column", "secret") not in both:
            res.add(f, call["L"], "the comparison does not depend on the stored secret")
    res.floor("secret comparisons examined", n, 3)

    # the lookups are keyed by what was presented
    keys = {"tokens": {"token"}, "installations": {"token"}, "sessions": {"session_id"}, "csrf": {"csrf_id", "session_id"}}
    look = 0
    for name in ("validate_token_auth", "validate_installation_auth", "validate_session_auth", "validate_csrf"):
        down = util.reach_down(prog, prog.funcs[name].id)
        for s in allsites:
            if s.fn.id not in down:
                continue
            for q in s.queries:
                for t in tables(q):
                    if t not in keys or verb(q) == "INSERT":
                        continue
                    look += 1
                    have = {c.lower() for ctx, c, o in params(q) if ctx == "where" and o == "=" and c}
                    if not keys[t] <= have or re.search(r"\bor\b", norm(q).lower().split(" where ")[-1]):
                        res.add(s.fn, s.n["L"], "the statement on %s is not selected by %s" % (t, ", ".join(sorted(keys[t] - have)) or "its key alone"))
    res.floor("lookups keyed by the presented credential", look, 8)


# ---------------------------------------------------------------- S05

OWNED = {"accounts", "aliases", "devices", "tokens", "installations"}
INST_KEY = {"inst_uuid", "token", "subdomain"}


class Canon:
    """what a variable stands for: a parameter of a public function, or a local"""

    def __init__(self, prog, ix):
        self.p, self.ix = prog, ix

    def of(self, f, v, depth=0):
        if v is None:
            return None
        if v in f.params:
            if f.static and depth < 8 and not (f.name.startswith("py_")):
                k = f.params.index(v)
                up = {self.arg(g, g.nodes[c]["a"][k], depth + 1) for g, c in self.ix.calls.get(f.id, ()) if k < len(g.nodes[c]["a"])}
                if len(up) == 1:
                    return up.pop()
                if up:
                    return ("many", frozenset(up))
            return ("P", f.id, v)
        ds = var_defs(f, v)
        if len(ds) == 1 and "dstr_t" in f.vars[v][1]:
            m = f.nodes[strip(f, ds[0])]
            if m["k"] == "ref" and m["d"] in ("l", "p"):
                return self.of(f, m["v"], depth + 1)
            if m["k"] == "un" and m["o"] == "*":
                return self.of(f, root_var(f, ds[0]), depth + 1)
        return ("L", f.id, v)

    def arg(self, f, i, depth=0):
        r = util.root_var(f, i)
        if r is None:
            return None
        c = self.of(f, r[0], depth)
        return c if not r[1] else ("F", c, tuple(r[1]) if not isinstance(r[1], str) else r[1])


def identities(c):
    return c[1] if c and c[0] == "many" else {c}


def is_identity(prog, c):
    """the first dstr_t a public database function takes by value"""
    for x in identities(c):
        if not x or x[0] != "P":
            return False
        f = prog.funcs[x[1]]
        ds = [v for v in f.params if f.vars[v][1].replace("const ", "") == "dstr_t"]
        if not ds or ds[0] != x[2]:
            return False
    return True


class Owner(Rule):
    """q: values known to belong to the caller's account"""
    any_int = False

    def __init__(self, ix, byq, canon, res):
        super().__init__(ix)
        self.byq, self.canon, self.res = byq, canon, res

    def is_event(self, fn, i, n):
        return n["k"] == "call" and ((fn.id, i) in self.byq or n.get("fn") == "list_aliases")

    def on_call(self, sim, fn, i, n, q, args, env):
        if n.get("fn") == "list_aliases":
            if is_identity(self.p, self.canon.arg(fn, n["a"][1])):
                return [(0, q | {("list", self.canon.arg(fn, n["a"][2]))}), (NZ, q)]
            return [(0, q), (NZ, q)]
        s = self.byq.get((fn.id, i))
        if s is None:
            return None
        for t in s.queries:
            need, cols = params(t), columns(t)
            if len(s.binds) != len(need) + len(cols):
                continue
            vb, tabs = verb(t), set(tables(t))
            where = [(c.lower(), b[1]) for (ctx, c, o), b in zip(need, s.binds) if ctx == "where" and o == "=" and c]
            mine = any(c == "user_uuid" and is_identity(self.p, self.canon.arg(fn, nd)) for c, nd in where)
            if vb == "SELECT" and mine:
                add = {self.canon.arg(fn, nd) for c, nd in where if c in ("alias", "email")}
                for c, b in zip(cols, s.binds[len(need):]):
                    if c.lower() in ("email", "alias"):
                        add.add(self.canon.arg(fn, b[1]))
                k = 2 if s.kind == "_sql_onerow_query" else None
                if k is None:
                    return None
                c = args[k][1] if isinstance(args[k], tuple) and args[k][0] == "&" else None
                if c is None:
                    return [(0, q | add), (NZ, q)]
                e1, e0 = dict(env), dict(env)
                e1[c], e0[c] = 1, 0
                return [(0, q | add, e1), (0, q, e0), (NZ, q)]
            if vb == "DELETE" and tabs & {"aliases", "emails"} and not mine:
                col = "alias" if "aliases" in tabs else "email"
                self.count["deletes"] += 1
                vals = [nd for c, nd in where if c == col]
                if not vals:
                    self.report(sim, fn, i, "deletes from %s without saying which %s" % ("/".join(sorted(tabs)), col))
                for nd in vals:
                    c = self.canon.arg(fn, nd)
                    if c in q or self.listed(fn, nd, q):
                        continue
                    self.report(sim, fn, i, "deletes an %s from %s that has not been shown to belong to the account" % (col, "/".join(sorted(tabs))))
        if s.kind == "_sql_onerow_query":
            c = args[2][1] if isinstance(args[2], tuple) and args[2][0] == "&" else None
            if c is not None:
                e1, e0 = dict(env), dict(env)
                e1[c], e0[c] = 1, 0
                return [(0, q, e1), (0, q, e0), (NZ, q)]
        return [(0, q), (NZ, q)]

    def listed(self, fn, nd, q):
        r = util.root_var(fn, nd)
        if r is None or "smsql_alias_t" not in fn.vars[r[0]][1]:
            # a copy of the element's address
            return False
        if not any(x[0] == "list" for x in q if x):
            return False
        return True


def s05(prog, ix, res, tier):
    canon = Canon(prog, ix)
    allsites = [s for s in sql.sites(prog, ix) if s.fn.file.startswith("server/") and "/test_" not in s.fn.file
                and not s.fn.file.startswith("server/smphp/")]
    scoped = exempt = 0
    for s in allsites:
        res.functions.add(s.fn.id)
        for t in s.queries:
            need, cols = params(t), columns(t)
            if len(s.binds) < len(need):
                continue
            vb, tabs = verb(t), tables(t)
            own = [x for x in tabs if x in OWNED]
            if not own:
                continue
            low = norm(t).lower()
            ids = [(c or "").lower() for ctx, c, o in need if o == "=" and ctx in ("where", "insert")]
            bound = [(ctx, (c or "").lower(), o, b[1], b[2]) for (ctx, c, o), b in zip(need, s.binds)]
            for ctx, c, o, nd, m in bound:
                if c == "user_uuid" and "accounts" != (own[0] if vb == "INSERT" else "") and not is_identity(prog, canon.arg(s.fn, nd)):
                    res.add(s.fn, m["L"], "user_uuid is not the account the function acts for")
                if c == "inst_uuid" and vb != "INSERT" and not is_identity(prog, canon.arg(s.fn, nd)):
                    res.add(s.fn, m["L"], "inst_uuid is not the installation the function acts for")
            n_user = sum(1 for ctx, c, o, nd, m in bound if c == "user_uuid" and o == "=")
            if n_user >= len(own) and not re.search(r"\bor\b", unquoted(low)):
                scoped += 1
                continue
            exempt += 1
            where = {c for ctx, c, o, nd, m in bound if ctx == "where" and o == "="}
            ok = False
            if vb == "SELECT":
                ok = ok or (own == ["accounts"] and where == {"email"} and {c.lower() for c in cols} <= {"user_uuid"})
                ok = ok or (own == ["installations"] and where and where <= INST_KEY)
                ok = ok or (own == ["tokens"] and where == {"token"})
                # the lists for the other servers and for the administrator
                ok = ok or (own == ["installations"] and not need and {c.lower() for c in cols} == {"subdomain", "challenge"})
                ok = ok or (own == ["accounts"] and not need and {c.lower() for c in cols} == {"email"})
            elif vb == "UPDATE":
                sets = {c for ctx, c, o, nd, m in bound if ctx == "set"}
                ok = (own[0] in ("tokens", "installations") and where == {"token"} and sets == {"nonce"}) or \
                    (own == ["installations"] and where == {"inst_uuid"} and sets <= {"challenge"})
            elif vb == "DELETE":
                ok = (own == ["installations"] and where == {"inst_uuid"}) or (own == ["aliases"] and where == {"alias"})
            elif vb == "INSERT":
                ok = False
            if not ok:
                res.add(s.fn, s.n["L"], "a statement on %s is not limited to one account: %s" % ("/".join(own), norm(t)[:80]))
    res.floor("statements limited to the acting account", scoped, 25)
    res.floor("statements selected by another credential", exempt, 10)

    byq = {(s.fn.id, s.call): s for s in allsites if s.fn.file == "server/libsmsql.c"}
    rule = Owner(ix, byq, canon, res)
    s = Sim(rule)
    up = ix.reach_up({k[0] for k in byq})
    roots = [f for f in public_fns(prog) if f.id in up]
    s.run([(f.id, frozenset(), ()) for f in roots])
    res.add_sim(s, "ownership before deletion")
    res.floor("deletions by address", rule.count["deletes"], 5)

    # the python bindings hand every argument to the parameter of that name
    nfn = narg = 0
    pub = {f.id for f in public_fns(prog)}
    for f in sorted(prog.funcs.values(), key=lambda f: f.id):
        if not f.file.startswith("server/pysm/"):
            continue
        spec = {}
        for i, n in enumerate(f.nodes):
            if n["k"] == "init" and (n.get("r") or "").startswith("_pyarg_"):
                name = out = None
                for fld, c in n["i"]:
                    if fld == "out":
                        out = root_var(f, c)
                    if fld == "iface":
                        for _, m in walk(f, c):
                            if m["k"] == "str" and name is None:
                                name = m["s"]
                if name and out is not None:
                    spec[out] = name
        if not spec:
            continue
        names = set(spec.values())
        for i, n in enumerate(f.nodes):
            if n["k"] != "call" or n.get("f") not in pub:
                continue
            g = prog.funcs[n["f"]]
            pn = [g.vars[v][0] for v in g.params]
            nfn += 1
            res.functions.add(f.id)
            for k, a in enumerate(n["a"]):
                v = root_var(f, a)
                if v not in spec or k >= len(pn):
                    continue
                narg += 1
                have, want = spec[v], pn[k]
                if have != want and (have in pn or want in names):
                    res.add(f, n["L"], "argument '%s' is passed as parameter '%s' of %s" % (have, want, g.name))
                # arguments that name an account are never taken for anything else
                c = ("P", g.id, g.params[k])
                if "uuid" in have and "uuid" not in want and not is_identity(prog, c):
                    res.add(f, n["L"], "argument '%s' is passed as parameter '%s' of %s" % (have, want, g.name))
    res.floor("calls from python", nfn, 30)
    res.floor("arguments from python", narg, 50)



CHECKS = {
    "S01": dict(check=s01, level="other", technique="Closure of constant texts over every call that runs SQL (a value that is not a constant and not a caller's parameter is reported), and a parse of every statement against its bind list and the schema built from the migrations: marker and column counts, direction and type of each bind, and a NULL indicator for every column or aggregate that can be NULL.",
                assumptions=['the migrations in server/migrations describe the deployed schema', 'migmysql runs migration scripts, whose text is not constant, by design']),
    "S02": dict(check=s02, level="other", technique="Interprocedural typestate of the connection's transaction on every path of every database function: opened once, committed only if no statement failed, rolled back otherwise, never used after an abort, no second change and no locking read outside of a transaction.",
                assumptions=['a failed statement leaves the transaction open until it is rolled back', 'gc_sessions_and_csrf makes two independent deletions, by design']),
    "S03": dict(check=s03, level="other", technique='Taint of stored secrets, computed signatures and hashes through variables, parameters and copies; every comparison that receives one must be dstr_eq_consttime, whose own body is checked for early exits and branches on contents.',
                assumptions=['credentials that select a row (session and anti-forgery tokens) are matched by the database, not compared in C']),
    "S04": dict(check=s04, level="other", technique='Abstract execution of each validation under every ordering of the values it depends on (unknown, revoked here or elsewhere, expired, idle, replayed, wrongly signed, good): accepts exactly the good ones, with the new nonce or last use committed under a row lock, and expiry recorded; plus the data dependencies of the secret comparison and the key columns of every lookup.',
                assumptions=['rows of a session arrive in any order; two rows are enough to distinguish them', 'hmac and hash_password are the intended functions (C04-C06)']),
    "S05": dict(check=s05, level="other", technique="Every statement on an account-owned table is parsed and its user_uuid parameter traced through helpers to the identity the public function was called for; deletions by address must be preceded on every path by proof that the address is the account's; the Python bindings hand each argument to the parameter of its name.",
                assumptions=['the identity a database function acts for is the first dstr_t it takes by value (S06 decides what the gateway passes)']),
}
