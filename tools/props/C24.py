P = dict(
 title="Paths, number codecs, digests, edit distance and shuffle are exact",
 statement="""normalize, join and relative yield paths that lead to the same place as their inputs, in reduced form; dirname, filename and ext cut where the path says.
 Varints, digests, decimal and literal parsing and test records come back as the value put in, with overflow reported exactly when it happens; edit distance is minimal and shuffle is a permutation.""",
 over=["inputs"], quant="every path of up to N segments over a set of segment kinds, every pair of them, every value around every power of two, every pair of words up to a length",
 why="Each function is used by the tests only on the few paths and values the compiler meets; parent steps at the start, an empty segment or a value at a width boundary take other branches.",
 files=["lib/path.fu", "src/helpers.fu", "src/levenshtein.fu", "lib/tea.fu", "lib/shuffle.fu", "src/intlit.fu", "src/test_output.fu"],
 mech=[("path algebra", "lib/path.fu"), ("varint, decimal, trim, pad", "src/helpers.fu"), ("integer literals", "src/intlit.fu"), ("digests", "lib/tea.fu"), ("edit distance", "src/levenshtein.fu")],
 observe=["returned values"])
C = dict(cmd="drv.py C24", technique="exhaustive enumeration of inputs up to a bound on the real code against definitional oracles",
 note="Paths of up to 4 (5) segments over 8 kinds, all pairs of up to 3 segments, values in blocks around every width, words of up to 3 (4) letters over 3. lib/decstr.fu and noext of a path without extension are dead code and left out.")
