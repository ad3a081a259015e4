"""Contracts of the I/O wrappers the rules rely on: a wrapper may report
success only after the system call it wraps succeeded."""
from sim import Rule, Sim, NZ, truth, is_derr


class Step(Rule):
    """automaton driven by a table: name -> f(sim, fn, i, n, q, args, env)
    returning [(ret, q')], or None"""

    def __init__(self, ix, table, bad_exit=None, follow_fp=False):
        super().__init__(ix)
        self.table = table
        self.bad_exit = bad_exit
        self.follow_fp = follow_fp

    def is_event(self, fn, i, n):
        return n["k"] == "call" and n.get("fn") in self.table

    def on_call(self, sim, fn, i, n, q, args, env):
        f = self.table.get(n.get("fn"))
        if f is None:
            return None
        self.count[n["fn"]] += 1
        return f(sim, fn, i, n, q, args, env)

    def on_exit(self, sim, fn, q, ret, env):
        if self.bad_exit:
            m = self.bad_exit(fn, q, ret, env)
            if m:
                self.report(sim, fn, -1, m)


def sysc(ok_q, ok=0, bad=-1, need=None):
    def f(sim, fn, i, n, q, args, env):
        return [(ok, ok_q if need is None or q in need else q), (bad, q)]
    return f


def success(ret):
    return truth(ret) is not True


CONTRACTS = {
    # wrapper: (table, states that may report success, description)
    "dffsync": ({"fflush": sysc(1), "fsync": sysc(2, need=(1, 2)), "fdatasync": sysc(2, need=(1, 2))}, (2,),
                "flushing and syncing the file"),
    "dfsync": ({"fsync": sysc(2), "fdatasync": sysc(2)}, (2,), "syncing the file"),
    "drename": ({"rename": sysc(1)}, (1,), "renaming the file"),
    "drename_path": ({"rename": sysc(1)}, (1,), "renaming the file"),
    "drename_atomic": ({"rename": sysc(1)}, (1,), "renaming the file"),
    "drename_atomic_path": ({"rename": sysc(1)}, (1,), "renaming the file"),
    "dremove": ({"remove": sysc(1), "unlink": sysc(1)}, (1,), "removing the file"),
    "remove_path": ({"remove": sysc(1), "unlink": sysc(1)}, (1,), "removing the file"),
    "dunlink": ({"remove": sysc(1), "unlink": sysc(1)}, (1,), "removing the file"),
    "dunlink_path": ({"remove": sysc(1), "unlink": sysc(1)}, (1,), "removing the file"),
    "touch": ({"open": sysc(1, ok=NZ)}, (1,), "creating the file"),
    "touch_path": ({"open": sysc(1, ok=NZ)}, (1,), "creating the file"),
}


def check_prims(ix, res, names, label):
    n = 0
    for name in names:
        fn = ix.one(name)
        if fn is None:
            continue
        table, okq, what = CONTRACTS[name]
        rule = Step(ix, table, lambda f, q, ret, env: None if not success(ret) or q in okq else
                    "%s can report success without %s" % (name, what))
        s = Sim(rule)
        s.run([(fn.id, 0, ())])
        res.functions |= s.fns
        res.violations += list(rule.found.values())
        n += 1
    res.floor(label + ": I/O wrappers checked against their contract", n, max(1, len(names) - 2))
