P = dict(
 title="A BitSet is exactly the set of indices added and not removed",
 statement="""After any sequence of add, remove, ranges, union, intersection, difference, assignment and copy, has, popcount, each, rank, has_inter, has_missing and equality answer exactly as for the mathematical set of indices, wherever the members lie relative to byte and word boundaries and whatever the sizes of the two operands.
 Nothing outside the operands' storage is read.""",
 over=["inputs", "histories"], quant="every subset of a universe of boundary indices, every pair of subsets, every range, every position",
 why="Errors hide at the edges of bytes and words and when one operand's storage is shorter than the other; tests use a couple of hand-picked sets.",
 files=["lib/BitSet.fu"],
 mech=[("byte storage, trimming, popcount", "lib/BitSet.fu: add, remove, add_range, popcount"), ("binary operations", "lib/BitSet.fu: has_inter, has_missing, add, sub, comparison")],
 observe=["has for every index", "popcount, each order, equality, truth value", "ASan"])
C = dict(cmd="drv.py C07", technique="exhaustive enumeration of all sets, pairs of sets and ranges over a boundary universe, on the real code against a set model",
 note="Exhaustive over subsets of a universe of indices around byte and word boundaries; indices beyond it are not covered. ASan build included.")
