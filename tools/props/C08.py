P = dict(
 title="Sorted flat sets, maps and counted sets keep order and membership exactly",
 statement="""After any history of add, remove, update, get, ref, if, set, clear, union, intersection, difference, has_inter, misses_some, incr, try_decr and remove, a flat Set, Map or CountedSet holds exactly the keys, values and counts a mathematical set, map or multiset would, in ascending order without duplicates.
 Values and counts stay attached to their own key, and copies taken before an edit keep what they held.""",
 over=["inputs", "histories"], quant="every set and pair of sets over N ordered keys (int and string), every key, every operation, and every counted-set history up to a length",
 why="Binary search, merge loops and parallel value arrays fail only for particular relative positions of the elements of two sets; the tests build one or two sets.",
 files=["src/flat.fu"],
 mech=[("binary search", "src/flat.fu: find, add, remove"), ("merge loops", "src/flat.fu: union, inter, diff, has_inter, misses_some"), ("parallel values and counts", "src/flat.fu: Map, CountedSet")],
 observe=["contents in order", "values per key", "reported results"])
C = dict(cmd="drv.py C08", technique="exhaustive enumeration of all sets, pairs and operations over N ordered keys and of all counted-set histories, on the real code against a set model",
 note="Exhaustive for 7 keys (9 in thorough); the code only compares keys, so order type is what matters. ASan build included.")
