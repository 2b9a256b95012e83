#!/usr/bin/env python3
"""Writes src/paths.rs: the combinations of leaf, adaptors and evaluator the world exprs is compiled with.
Each shape and leaf meets PER combinations; adaptors and evaluators are dealt from shuffled decks."""
import random, sys
PER = int(sys.argv[1]) if len(sys.argv) > 1 else 10
r = random.Random(7)
class Deck:
    def __init__(s, items): s.items, s.d = items, []
    def draw(s, ok):
        for _ in range(2):
            for i, x in enumerate(s.d):
                if ok(x): return s.d.pop(i)
            n = s.items[:]; r.shuffle(n); s.d += n
        raise SystemExit("no item")
shapes = [(7, "DynRank"), (2, "Rank<2>"), (1, "Rank<1>"), (3, "Rank<3>"), (11, "(Const<2>, Const<3>)"), (8, "(mdarray::Dyn, Const<3>)"), (0, "()")]
leaves = [(sid, k, s) for sid, s in shapes for k in range(18)]
leaves += [(7, 18, "DynRank"), (1, 19, "DynRank"), (1, 20, "DynRank"), (1, 21, "DynRank"), (2, 22, "DynRank")]
leaves += [(11, k, "DynRank") for k in range(23, 27)]
a1, a2, ev = Deck(list(range(14)) + [0, 1]), Deck([0, 0, 0, 1, 2, 3, 4]), Deck(list(range(18)) + [0, 0, 5])
out = []
for sid, k, s in leaves:
    for _ in range(PER):
        rep, enum = k not in (6, 7, 8, 16, 23), k == 15
        x = a1.draw(lambda x: x != 8 or (rep and not enum))
        rep, enum = rep and x not in (10, 13), enum or x == 5
        y = a2.draw(lambda y: y != 4 or (rep and not enum))
        z = ev.draw(lambda z: z != 12 or (rep and not enum))
        out.append(f"    ({sid}, {k}, {s}, A1<{x}, A2<{y}, Ev<{z}>>>),")
r.shuffle(out)
open("src/paths.rs", "w").write("paths! {\n" + "\n".join(out) + "\n}\n")
print(len(out))
