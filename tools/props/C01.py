P = dict(
 title="Arrays and strings are values: an operation changes only the array it names",
 statement="""After any history of array operations (create, copy, move, append, concatenate, splice, insert, push, pop, shrink, grow, resize, reserve, clear, element assignment, including operations whose source is the array itself or shares its storage), every array holds exactly the contents an independent list would hold, and changing one array never changes another.
 Every element is created and destroyed exactly once, no storage is touched after it was freed or outside its bounds, and nothing is leaked once the last array is gone.""",
 over=["histories"], quant="every operation history up to the bound over 3 arrays that may share storage, for 8 element types, from unshared, shared and moved-from starting points, in the debug and retail runtime",
 why="The language tests exercise single operations on fresh arrays; the growth path taken depends on the combination of capacity, sharing, alias and position left behind by previous operations, which only an enumeration of histories reaches.",
 files=["include/fu/vec.h", "include/fu/view.h", "include/fu/mem/arc.h", "include/fu/vec/concat.h", "include/fu/vec/concat_one.h"],
 mech=[("copy-on-write with shared reference-counted storage, in-place growth when unique", "include/fu/vec.h: UNSAFE__splice, reserve, shrink, mut"), ("self-alias handling", "include/fu/vec.h: splice_copy, append_copy"), ("reference count", "include/fu/mem/arc.h")],
 observe=["array contents and length after each operation", "element constructor/destructor balance", "allocator balance and redzones"])
C = dict(cmd="c01_c02.py C01", technique="stateless exhaustive enumeration of operation histories on the real array runtime against a list model, with state merging",
 note="Exhaustive within the stated depth (2 operations over the full alphabet, 3 over a reduced one; more in thorough) on the real headers; trusts the C++ compiler, the checked heap and value-renaming symmetry.")
