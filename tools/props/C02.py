P = dict(
 title="A window into an array edits exactly that range of the array",
 statement="""For every window (start, end) of an array and every edit made through the window (append, insert, splice, push, pop, shrink, grow, resize, element write, clear), the array afterwards equals its old contents with the window's range replaced by the window's new contents: everything before and after the window is untouched and in order.
 Other arrays that shared storage with it do not change, and no element is lost, duplicated, or destroyed twice.""",
 over=["histories", "inputs"], quant="every window of every array of up to 3 elements, every edit and every pair of edits through it, for 8 element types and every sharing configuration of 3 arrays",
 why="The tests use a handful of windows on fresh arrays; whether the tail is moved, overwritten or shifted depends on the position of the window, spare capacity and sharing.",
 files=["include/fu/vec_range.h", "include/fu/vec.h"],
 mech=[("window edits mapped onto a splice of the underlying array", "include/fu/vec_range.h"), ("splice with tail move", "include/fu/vec.h: UNSAFE__splice")],
 observe=["contents of the array and of the window after each edit", "contents of other arrays"])
C = dict(cmd="c01_c02.py C02", technique="stateless exhaustive enumeration of window positions and edit histories on the real array runtime against a list model",
 note="Exhaustive within the stated bounds on the real headers; trusts the C++ compiler and the checked heap.")
