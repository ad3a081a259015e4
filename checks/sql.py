"""Every SQL statement of the program with its bind arguments."""
import re

from util import Strings, strip, walk, calls

ENTRY = {"_sql_norow_query": (1, 3), "_sql_onerow_query": (1, 3), "_sql_multirow_stmt": (2, 3)}


def elems(fn, i):
    """elements of the &(T[]){dummy, a, b, ...}[1] idiom"""
    for x, n in walk(fn, i):
        if n["k"] == "init" and n["i"] and isinstance(n["i"][0][0], int):
            return [c for f, c in n["i"][1:]]
    return None


class Site:
    __slots__ = ("fn", "call", "n", "kind", "queries", "binds")

    def __repr__(self):
        return "<%s:%s %s>" % (self.fn.name, self.n["L"], sorted(self.queries))


def sites(prog, ix):
    st = Strings(ix)
    out = []
    for name, (qa, ba) in ENTRY.items():
        for f, i, n in calls(prog, name):
            s = Site()
            s.fn, s.call, s.n, s.kind = f, i, n, name
            s.queries = {q for q in st.of(f, n["a"][qa], params=True) if re.search(r"[A-Za-z]{3}", q)}
            s.binds = []
            for c in elems(f, n["a"][ba]) or []:
                m = f.nodes[strip(f, c)]
                s.binds.append((m.get("fn", "?"), m["a"][0] if m["k"] == "call" and m["a"] else c, m))
            out.append(s)
    return out


def columns_of_insert(q):
    m = re.match(r"\s*(?:INSERT|REPLACE)\s+INTO\s+(\w+)\s*\(([^)]*)\)\s*(?:VALUES\s*\(([^)]*)\))?", q, re.S | re.I)
    if not m:
        return None
    cols = [c.strip() for c in m.group(2).split(",")]
    vals = [v.strip() for v in m.group(3).split(",")] if m.group(3) else None
    return m.group(1), cols, vals
