P = dict(
 title="Search, split, join, replace, slice, compare and sort follow their definitions",
 statement="""For every haystack, needle, range and separator, find, has, starts, ends, split, join, replace, slice, left/right, compare and the other prelude sequence functions return exactly what their definition over the items says, for strings and for arrays.
 sort returns an ordered permutation of its input.""",
 over=["inputs"], quant="every string up to a length over a small alphabet as haystack, every needle, every start/end, every array up to a length to be sorted under every order pattern",
 why="Overlapping partial matches, empty needles and range edges are exactly what a fixed handful of examples misses.",
 files=["src/prelude.fu", "include/fu/vec/LEGACY_find.h", "include/fu/vec/LEGACY_cmp.h", "include/fu/vec/LEGACY_slice.h"],
 mech=[("search", "src/prelude.fu: find, has, starts, ends; LEGACY_find.h"), ("split, join, replace", "src/prelude.fu"), ("comparison", "LEGACY_cmp.h"), ("sort", "src/prelude.fu: sort"), ("slice", "LEGACY_slice.h")],
 observe=["returned values"])
C = dict(cmd="drv.py C10", technique="exhaustive enumeration of inputs up to a bound on the real compiled functions against definitional oracles",
 note="Exhaustive over small alphabets: haystacks to 12, needles to 6, arrays to 7. Items are opaque to the code, so a small alphabet covers all equality patterns of that length.")
