"""The HTTP gateway (server/rest/*.py): who may call what.

The source is parsed with Python's own parser and every path of a handler is
enumerated over the syntax tree: locals are replaced by the expressions they
were assigned, helpers of the same module are followed, and a condition on a
path is recorded with the outcome it had.  Nothing is executed."""
import ast
import copy
import os

import front
from front import Broken

PURE = {"get", "int", "len", "isinstance", "decode", "startswith", "find", "str", "encode"}
LIMIT = 4000


class Loc:
    """what Result.add wants to know about a function"""
    static = False

    def __init__(self, file, name):
        self.file, self.name = file, name


class Module:
    def __init__(self, rel):
        self.rel = rel
        path = os.path.join(front.REPO, rel)
        try:
            self.tree = ast.parse(open(path).read())
        except (OSError, SyntaxError) as e:
            raise Broken("%s: %s" % (rel, e))
        self.defs = {}
        self.classes = {}
        self.assigns = {}
        self.writes = {}
        for n in self.tree.body:
            if isinstance(n, ast.FunctionDef):
                if n.name in self.defs:
                    raise Broken("%s: two definitions of %s" % (rel, n.name))
                self.defs[n.name] = n
            elif isinstance(n, ast.ClassDef):
                self.classes[n.name] = n
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.assigns.setdefault(n.targets[0].id, []).append(n.value)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.assigns.setdefault(n.target.id, []).append(n.value)

    def bases(self, c):
        out = {c}
        d = self.classes.get(c)
        for b in d.bases if d else ():
            if isinstance(b, ast.Name):
                out |= self.bases(b.id)
        return out

    def init(self, c):
        d = self.classes.get(c)
        if d is None:
            return None
        for n in d.body:
            if isinstance(n, ast.FunctionDef) and n.name == "__init__":
                return n
        for b in d.bases:
            if isinstance(b, ast.Name) and self.init(b.id) is not None:
                return self.init(b.id)
        return None


def text(e):
    return ast.unparse(e)


class State:
    __slots__ = ("env", "ev")

    def __init__(self, env, ev):
        self.env, self.ev = env, ev

    def add(self, *e):
        return State(self.env, self.ev + (e,))

    def bind(self, name, val):
        env = dict(self.env)
        env[name] = val
        return State(env, self.ev)


class Paths:
    """every path of a function: [(state, outcome, value)]"""

    def __init__(self, mod, opaque=()):
        self.m, self.opaque = mod, set(opaque)
        self.n = 0
        self.depth = 0

    # -- expressions: yields (state, expr | None when it raised) ------------
    def ev(self, e, st):
        self.n += 1
        if self.n > 400000:
            raise Broken("too many paths in %s" % self.m.rel)
        if isinstance(e, ast.Name):
            yield st, st.env.get(e.id, e)
            return
        if isinstance(e, (ast.Constant, ast.Lambda)):
            yield st, e
            return
        if isinstance(e, ast.BoolOp):
            yield from self.boolop(e.op, e.values, st)
            return
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            for s, v in self.ev(e.operand, st):
                yield s, (None if v is None else ast.UnaryOp(ast.Not(), v))
            return
        if isinstance(e, ast.IfExp):
            for s, t in self.cond(e.test, st):
                if t is None:
                    yield s, None
                else:
                    yield from self.ev(e.body if t else e.orelse, s)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.JoinedStr)):
            x = Subst(st.env).visit(copy.deepcopy(e))
            yield st, x
            return
        if isinstance(e, ast.Call):
            yield from self.call(e, st)
            return
        # generic: evaluate the children in order
        fields = [(f, v) for f, v in ast.iter_fields(e) if isinstance(v, (ast.expr, list))]
        yield from self.children(e, fields, 0, {}, st)

    def children(self, e, fields, k, got, st):
        if k == len(fields):
            x = copy.copy(e)
            for f, v in got.items():
                setattr(x, f, v)
            yield st, self.simplify(x)
            return
        f, v = fields[k]
        if isinstance(v, list):
            for s, vs in self.many(v, st):
                if vs is None:
                    yield s, None
                else:
                    yield from self.children(e, fields, k + 1, dict(got, **{f: vs}), s)
        else:
            for s, x in self.ev(v, st):
                if x is None:
                    yield s, None
                else:
                    yield from self.children(e, fields, k + 1, dict(got, **{f: x}), s)

    def many(self, es, st):
        if not es:
            yield st, []
            return
        h = es[0]
        if not isinstance(h, ast.expr):
            for s, r in self.many(es[1:], st):
                yield s, (None if r is None else [h] + r)
            return
        for s, v in self.ev(h, st):
            if v is None:
                yield s, None
                continue
            for s2, r in self.many(es[1:], s):
                yield s2, (None if r is None else [v] + r)

    def boolop(self, op, vals, st):
        isand = isinstance(op, ast.And)
        for s, t in self.cond(vals[0], st):
            if t is None:
                yield s, None
            elif len(vals) == 1 or t != isand:
                yield s, ast.Constant(t)
            else:
                yield from self.boolop(op, vals[1:], s)

    def simplify(self, x):
        """attributes of objects of this module's classes"""
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and \
                x.value.func.id in self.m.classes:
            init = self.m.init(x.value.func.id)
            if init is None:
                return x
            args = bindargs(init, [ast.Name("self", ast.Load())] + x.value.args, x.value.keywords)
            val = None
            for n in init.body:
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and \
                        text(n.targets[0]) == "self." + x.attr:
                    val = Subst(args).visit(copy.deepcopy(n.value))
            return val if val is not None else x
        return x

    def call(self, e, st):
        for s, f in self.ev(e.func, st):
            if f is None:
                yield s, None
                continue
            for s2, a in self.many(e.args, s):
                if a is None:
                    yield s2, None
                    continue
                for s3, kv in self.many([k.value for k in e.keywords], s2):
                    if kv is None:
                        yield s3, None
                        continue
                    x = ast.Call(f, a, [ast.keyword(k.arg, v) for k, v in zip(e.keywords, kv)])
                    ast.copy_location(x, e)
                    yield from self.apply(x, s3)

    def apply(self, x, st):
        f = x.func
        if isinstance(f, ast.Name):
            if f.id == "isinstance" and len(x.args) == 2 and isinstance(x.args[0], ast.Call) and \
                    isinstance(x.args[0].func, ast.Name) and x.args[0].func.id in self.m.classes and isinstance(x.args[1], ast.Name):
                yield st, ast.Constant(x.args[1].id in self.m.bases(x.args[0].func.id))
                return
            if f.id in self.m.classes:
                yield st, x
                return
            d = self.m.defs.get(f.id)
            if d is not None and f.id not in self.opaque and self.depth < 8:
                if any(isinstance(n, ast.FunctionDef) for n in d.body):
                    yield st.add("call", x), x
                    return
                args = bindargs(d, x.args, x.keywords)
                self.depth += 1
                outs = list(self.block(d.body, State(args, st.ev)))
                self.depth -= 1
                for s, how, v in outs:
                    s2 = State(st.env, s.ev)
                    if how == "raise":
                        yield s2, None
                    else:
                        yield s2, v if v is not None else ast.Constant(None)
                return
        name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
        t = text(x)
        res = x
        if name not in PURE:
            k = sum(1 for e in st.ev if e[0] == "call" and text(e[1]) == t)
            if k:
                res = ast.Name("%s#%d" % (t, k + 1), ast.Load())
        yield st.add("call", x), res
        if name not in ("get", "len", "isinstance", "startswith", "find", "info", "error", "exception"):
            yield st.add("threw", x), None

    # -- conditions: yields (state, True | False | None when it raised) -----
    def cond(self, e, st):
        for s, v in self.ev(e, st):
            if v is None:
                yield s, None
                continue
            pol = True
            while True:
                if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not):
                    v, pol = v.operand, not pol
                elif isinstance(v, ast.Compare) and len(v.ops) == 1 and isinstance(v.ops[0], (ast.NotEq, ast.IsNot, ast.NotIn)):
                    o = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In}[type(v.ops[0])]()
                    v, pol = ast.Compare(v.left, [o], v.comparators), not pol
                else:
                    break
            k = self.known(v, s)
            for t in (True, False):
                if k is None or k == t:
                    yield (s if k is not None else s.add("cond", v, t)), t == pol

    def known(self, v, st):
        if isinstance(v, ast.Constant):
            return bool(v.value)
        if isinstance(v, ast.Compare) and len(v.ops) == 1 and isinstance(v.left, ast.Constant) and \
                isinstance(v.comparators[0], ast.Constant) and isinstance(v.ops[0], (ast.Eq, ast.Is)):
            return v.left.value == v.comparators[0].value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in self.m.classes:
            return True
        t = text(v)
        for e in st.ev:
            if e[0] == "cond" and text(e[1]) == t and "#" not in t:
                return e[2]
        return None

    # -- statements: yields (state, "next"|"return"|"raise"|"break"|"continue", value)
    def block(self, body, st):
        if not body:
            yield st, "next", None
            return
        for s, how, v in self.stmt(body[0], st):
            if how == "next":
                yield from self.block(body[1:], s)
            else:
                yield s, how, v

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            return st.bind(t.id, v)
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                for a, b in zip(t.elts, v.elts):
                    st = self.assign(a, b, st)
            else:
                for k, a in enumerate(t.elts):
                    st = self.assign(a, ast.Subscript(v, ast.Constant(k), ast.Load()), st)
            return st
        return st.add("store", t, v)

    def stmt(self, n, st):
        if isinstance(n, (ast.Assign, ast.AnnAssign, ast.Expr, ast.Return)):
            if n.value is None:
                yield st, ("return" if isinstance(n, ast.Return) else "next"), None
                return
            for s, v in self.ev(n.value, st):
                if v is None:
                    yield s, "raise", None
                elif isinstance(n, ast.Return):
                    yield s, "return", v
                elif isinstance(n, ast.Expr):
                    yield s, "next", None
                else:
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        s = self.assign(t, v, s)
                    yield s, "next", None
        elif isinstance(n, ast.If):
            for s, t in self.cond(n.test, st):
                if t is None:
                    yield s, "raise", None
                else:
                    yield from self.block(n.body if t else n.orelse, s)
        elif isinstance(n, ast.Assert):
            for s, t in self.cond(n.test, st):
                yield s, ("next" if t else "raise"), None
        elif isinstance(n, ast.Try):
            for s, how, v in self.block(n.body, st):
                if how == "raise":
                    always = False
                    for h in n.handlers:
                        yield from self.final(n, self.block(h.body, State(s.env, s.ev).bind(h.name or "_", ast.Name("exception", ast.Load()))))
                        if h.type is None or text(h.type) in ("Exception", "BaseException"):
                            always = True
                    if not always:
                        yield from self.final(n, [(s, "raise", None)])
                elif how == "next":
                    yield from self.final(n, self.block(n.orelse, s))
                else:
                    yield from self.final(n, [(s, how, v)])
        elif isinstance(n, ast.With):
            sts = [st]
            for it in n.items:
                nxt = []
                for s in sts:
                    for s2, v in self.ev(it.context_expr, s):
                        if v is None:
                            yield s2, "raise", None
                        else:
                            nxt.append(self.assign(it.optional_vars, v, s2) if it.optional_vars is not None else s2)
                sts = nxt
            for s in sts:
                yield from self.block(n.body, s)
        elif isinstance(n, (ast.For, ast.While)):
            yield st, "next", None
            s0 = st
            if isinstance(n, ast.For):
                for s, v in self.ev(n.iter, st):
                    if v is None:
                        yield s, "raise", None
                    else:
                        s0 = self.assign(n.target, ast.Subscript(v, ast.Name("i", ast.Load()), ast.Load()), s)
            for s, how, v in self.block(n.body, s0):
                yield s, ("next" if how in ("break", "continue", "next") else how), v
        elif isinstance(n, ast.Raise):
            yield st, "raise", None
        elif isinstance(n, (ast.Break, ast.Continue)):
            yield st, ("break" if isinstance(n, ast.Break) else "continue"), None
        elif isinstance(n, ast.AugAssign):
            for s, v in self.ev(n.value, st):
                if v is None:
                    yield s, "raise", None
                else:
                    yield self.assign(n.target, ast.BinOp(Subst(s.env).visit(copy.deepcopy(n.target)), n.op, v), s), "next", None
        elif isinstance(n, (ast.Pass, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom, ast.FunctionDef)):
            yield st, "next", None
        else:
            raise Broken("%s:%d: cannot follow %s" % (self.m.rel, n.lineno, type(n).__name__))

    def final(self, n, outs):
        if not n.finalbody:
            yield from outs
            return
        for s, how, v in outs:
            for s2, h2, v2 in self.block(n.finalbody, s):
                yield s2, (how if h2 == "next" else h2), (v if h2 == "next" else v2)

    def of(self, d, env=None):
        if env is None:
            env = {}
        return list(self.block(d.body, State(dict(env), ())))


class Subst(ast.NodeTransformer):
    def __init__(self, env):
        self.env = env

    def visit_Name(self, n):
        return copy.deepcopy(self.env[n.id]) if n.id in self.env else n


def bindargs(d, args, kws):
    out = {}
    names = [a.arg for a in d.args.args]
    for a, v in zip(names, args):
        out[a] = v
    for k in kws:
        if k.arg:
            out[k.arg] = k.value
    defs = d.args.defaults
    for a, v in zip(names[len(names) - len(defs):], defs):
        out.setdefault(a, v)
    return out


# the identity each validation vouches for, and what it must have been asked
INSTALLATION = {"delete_installation_by_token", "set_challenge", "delete_challenge"}
PASSWORD = {"add_device", "add_token", "add_installation", "change_password", "delete_account", "delete_all_aliases"}


def s06(prog, ix, res, tier):
    app, api = Module("server/rest/app.py"), Module("server/rest/api.py")

    def bad(mod, name, line, msg):
        res.add(Loc(mod.rel, name), line, msg)
        res.functions.add(mod.rel + ":" + name)

    # the routes
    r = app.assigns.get("ROUTES")
    if not r or len(r) != 1 or not isinstance(r[0], ast.Dict):
        raise Broken("server/rest/app.py: ROUTES is not one dictionary")
    for n in ast.walk(app.tree):
        t = None
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            for x in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                if isinstance(x, ast.Subscript) and text(x.value) == "ROUTES":
                    t = x
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and text(n.func.value) == "ROUTES" and n.func.attr not in ("get", "keys", "items", "__contains__"):
            t = n
        if t is not None:
            bad(app, "ROUTES", n.lineno, "the routes are changed after they were listed")

    def resolve(e, depth=0):
        while isinstance(e, ast.Name) and len(app.assigns.get(e.id, ())) == 1 and depth < 8:
            e, depth = app.assigns[e.id][0], depth + 1
        return e

    wrappers = {}
    routes = 0
    for k, v in zip(r[0].keys, r[0].values):
        routes += 1
        v = resolve(v)
        name = k.value if isinstance(k, ast.Constant) else text(k)
        if not (isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and len(v.args) == 1 and v.func.id in app.defs):
            bad(app, "ROUTES", k.lineno, "%s is not wrapped by an authentication check" % name)
            continue
        t = resolve(v.args[0])
        if not (isinstance(t, ast.Attribute) and text(t.value) == "api" and t.attr in api.defs):
            bad(app, "ROUTES", k.lineno, "%s does not lead to a function of api.py" % name)
            continue
        wrappers.setdefault(v.func.id, []).append((name, t.attr, k.lineno))
    res.floor("routes", routes, 15)

    # what the wrappers accept
    kinds = {}
    npath = nauth = 0
    for w in sorted(wrappers):
        d = app.defs[w]
        inner = [n for n in d.body if isinstance(n, ast.FunctionDef)]
        rets = [n for n in d.body if isinstance(n, ast.Return)]
        if len(inner) != 1 or len(rets) != 1 or text(rets[0].value) != inner[0].name or len(inner[0].args.args) < 3:
            bad(app, w, d.lineno, "the wrapper does not return the handler it defines")
            continue
        fnp = d.args.args[0].arg
        au = inner[0].args.args[0].arg
        P = Paths(app)
        outs = P.of(inner[0])
        npath += len(outs)
        got = set()
        for st, how, v in outs:
            for pos, e in enumerate(st.ev):
                if e[0] != "call" or text(e[1].func) != fnp:
                    continue
                nauth += 1
                before = st.ev[:pos]
                why, kind = judge(e[1], before, au)
                if why:
                    bad(app, w, e[1].lineno if hasattr(e[1], "lineno") else d.lineno, "calls the API function although " + why)
                else:
                    got.add(kind)
        if not got:
            bad(app, w, d.lineno, "never calls the API function for an authenticated request")
        kinds[w] = got
    res.floor("paths of the wrappers", npath, 20)
    res.floor("calls of an API function examined", nauth, 5)
    res.stats["what each wrapper accepts"] = ", ".join("%s: %s" % (w, "/".join(sorted(k))) for w, k in sorted(kinds.items()))

    # what the API functions do with the identity
    nuse = 0
    for w, rs in sorted(wrappers.items()):
        for path, fn, line in rs:
            d = api.defs[fn]
            idp, argp, dbp = [a.arg for a in d.args.args[:3]]
            used = set()
            for st, how, v in Paths(api).of(d):
                for e in st.ev:
                    if e[0] not in ("call", "threw"):
                        continue
                    f = e[1].func
                    if isinstance(f, ast.Attribute) and text(f.value) in (dbp, "pysm"):
                        if f.attr.startswith("valid_") or f.attr == "UserError":
                            continue
                        used.add(f.attr)
                        if not e[1].args or text(e[1].args[0]) != idp:
                            bad(api, fn, d.lineno, "%s is not called with the authenticated identity" % f.attr)
            # also what an early return hides
            for n in ast.walk(d):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and text(n.func.value) == dbp:
                    used.add(n.func.attr)
            nuse += len(used)
            k = kinds.get(w, set())
            if used & INSTALLATION:
                if k != {"installation"}:
                    bad(app, "ROUTES", line, "%s acts for an installation but is reached with %s" % (path, "/".join(sorted(k))))
            elif "installation" in k:
                bad(app, "ROUTES", line, "%s acts for an account but is reached with an installation token" % path)
            if used & PASSWORD and k != {"password"}:
                bad(app, "ROUTES", line, "%s must require the password but is reached with %s" % (path, "/".join(sorted(k))))
    res.floor("database functions called by the API", nuse, 15)

    # what the handlers are given
    d = app.defs.get("app")
    if d is None:
        raise Broken("server/rest/app.py: no app()")
    ncall = 0
    shapes = set()
    for st, how, v in Paths(app, opaque=set(wrappers)).of(d):
        for e in st.ev:
            if e[0] != "call" or not text(e[1].func).startswith("ROUTES"):
                continue
            f = e[1].func
            if isinstance(f, ast.Attribute) and f.attr == "get" and text(f.value) == "ROUTES":
                continue
            if isinstance(f, ast.Call) and f.args:
                looked = text(f.args[0])
            elif isinstance(f, ast.Subscript):
                looked = text(f.slice)
            else:
                bad(app, "app", d.lineno, "a handler is found by %s" % text(f)[:60])
                continue
            ncall += 1
            a = e[1].args[0] if e[1].args else None
            if not (isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id in app.classes):
                bad(app, "app", d.lineno, "the handler is not given the credentials of the request")
                continue
            S = Paths(app)
            fld = {x: text(S.simplify(ast.Attribute(a, x, ast.Load()))) for x in ("path", "payload", "body", "token", "sig", "basic_auth", "session")}
            if fld["path"] != looked:
                bad(app, "app", d.lineno, "the path that is authenticated is not the path that is called")
            y = fld["payload"]
            bodies = {"json.loads(%s.decode('utf8'))" % y, "json.loads(base64.b64decode(%s).decode('utf8'))" % y, "{}",
                      "json.loads(%s)" % y, "json.loads(base64.b64decode(%s))" % y}
            strip = lambda s: s.split("#")[0]
            if strip(fld["body"]) not in {strip(b) for b in bodies}:
                bad(app, "app", d.lineno, "the body is not parsed from the payload that is signed: %s" % fld["body"][:80])
            for x, key in (("token", "HTTP_X_AUTH_TOKEN"), ("sig", "HTTP_X_AUTH_SIGNATURE"), ("basic_auth", "HTTP_AUTHORIZATION")):
                if key not in fld[x]:
                    bad(app, "app", d.lineno, "%s is not taken from %s" % (x, key))
            arg = text(e[1].args[1]) if len(e[1].args) > 1 else ""
            if arg not in ("%s.get('arg')" % fld["body"], "%s['arg']" % fld["body"]):
                bad(app, "app", d.lineno, "the argument is not taken from the body that is signed")
            shapes.add((looked, y))
    res.floor("dispatches examined", ncall, 2)
    res.functions.add("server/rest/app.py:app")


def judge(call, before, au):
    """(why the call is wrong, None) or (None, kind of credential)"""
    if not call.args:
        return "no identity is passed", None
    u = call.args[0]
    done = {text(e[1]) for e in before if e[0] == "call"}
    conds = {text(e[1]): e[2] for e in before if e[0] == "cond"}
    t = text(u)
    if not (isinstance(u, ast.Call) and isinstance(u.func, ast.Attribute)):
        return "the identity is %s, not the result of a validation" % t[:60], None
    if t not in done:
        return "the validation did not succeed", None
    f = u.func.attr
    args = [text(a) for a in u.args] + [text(k.value) for k in u.keywords]
    if f == "validate_login":
        for a in args:
            if au + ".basic_auth" not in a:
                return "the login and password are not those of the request", None
        if len(args) != 2 or args[0] == args[1]:
            return "the login and password are not those of the request", None
        return None, "password"
    if f == "validate_session_auth":
        if len(args) != 2 or args[1] != au + ".session":
            return "the session is not that of the request", None
        ok = False
        for e in before:
            if e[0] == "call" and isinstance(e[1].func, ast.Attribute) and e[1].func.attr == "validate_csrf":
                a = [text(x) for x in e[1].args] + [text(k.value) for k in e[1].keywords]
                ok = ok or (len(a) == 2 and a[0] == args[1] and a[1].startswith(au + ".body"))
        if not ok:
            return "the anti-forgery token of the session was not validated", None
        return None, "session"
    if f in ("validate_token_auth", "validate_installation_auth"):
        if len(args) != 4:
            return "the validation is not given token, nonce, payload and signature", None
        if au + ".token" not in args[0]:
            return "the token is not that of the request", None
        if au + ".body" not in args[1] or "nonce" not in args[1]:
            return "the nonce is not taken from the signed body", None
        if args[2] != au + ".payload":
            return "the signature is not checked against the payload", None
        if au + ".sig" not in args[3]:
            return "the signature is not that of the request", None
        body, path = au + ".body", au + ".path"
        if not any(v and "==" in c and path in c and body in c and "'path'" in c for c, v in conds.items()):
            return "the path in the signed body was not compared with the path of the request", None
        return None, "installation" if f == "validate_installation_auth" else "token"
    return "the identity comes from %s" % f, None


CHECKS = {
    "S06": dict(check=s06, level="other", technique="Enumeration of every path of the gateway's handlers over the Python syntax tree (locals replaced by their "
                "definitions, helpers followed, exceptions at every call): the API function is only called with an identity returned by a validation that "
                "succeeded on that path and was given this request's credential (and, for a session, after its anti-forgery token; for a signed "
                "request, after the signed path was compared); every route is wrapped by a check of the kind its database functions require.",
                assumptions=["pysm.* raises when a validation fails (S04 decides the C side)", "apache/gunicorn set environ as documented"]),
}
