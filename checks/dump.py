import sys
import front
from model import children
p = front.build_model()
for f in [x for x in p.funcs.values() if x.name == sys.argv[1]]:
    print(f.id, [v[:3] for v in f.vars], "params", f.params)

    def show(i, ind=0):
        n = f.nodes[i]
        print(" " * ind, i, {k: v for k, v in n.items() if k not in ("M", "MI")})
        for c in children(n):
            show(c, ind + 2)
    for r in [i for i in range(len(f.nodes)) if f.parent[i] < 0][:int(sys.argv[2]) if len(sys.argv) > 2 else 9999]:
        show(r)
    for b in f.blocks.values():
        print("B", b.id, b.elems, b.term, b.cond, b.succs, b.label)
