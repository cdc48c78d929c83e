P = dict(
 title="Arguments outside an array never touch anything outside of it",
 statement="""Whatever numbers a program passes as positions and counts, an array, window, view or literal never reads or writes outside its own elements: an element access outside stops the program in debug and release builds, and a slice or an edit (insert, splice, append, pop, shift, shrink, grow, resize) with arguments outside either stops before it changed anything or acts as if the arguments had been clamped to the array.
 Arguments inside never stop the program and give exactly the elements, slice or edit they name, at every edge and for every element type and build mode.""",
 over=["inputs"], quant="every access, slice and edit of every array-like type, for sizes around 0 and the small-array limit, whole or as a window with neighbours, shared or not, with every argument (pair) from inside, at and beyond both edges and at the ends of the integer range, for 8 element types and 3 build modes",
 why="Tests use arguments inside the array, in debug builds where asserts would stop a bad one; the arithmetic that guards release builds matters only for overflowing or negative arguments at specific sizes.",
 files=["include/fu/vec.h", "include/fu/vec_range.h", "include/fu/view.h", "include/fu/str.h", "include/fu/vec/LEGACY_slice.h"],
 mech=[("checked element access that traps in release builds", "include/fu/vec.h: operator[], mutref; include/fu/view.h; include/fu/vec_range.h"), ("clamping of edits and slices", "include/fu/vec.h: _AtMost, _ClampDel...; include/fu/view.h: get_view*; include/fu/vec_range.h: get_range*")],
 observe=["whether the program was stopped, and at which address", "array contents after the call", "element and allocator balance"])
C = dict(cmd="c26.py", technique="stateless exhaustive enumeration of calls and their arguments on the real array runtime against a clamped list model",
 note="Exhaustive over the stated argument grid on the real headers in debug, release and retail builds; element access in retail builds is unchecked by design and not judged.")
