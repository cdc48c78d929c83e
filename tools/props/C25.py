P = dict(
 title="Values are values in the language; a reference never outlives what it names",
 statement="""In every program the compiler accepts, each variable, field, element, argument and result declared by value is its own value: it changes only when it is assigned or edited itself, or through a reference declared to it, whatever copies the compiler elides, moves it makes or references it passes instead.
 A program that uses a reference after the thing it names was removed, replaced or relocated is rejected, and programs without references are accepted; what is accepted compiles and runs, and the compiler itself never dies on a program.""",
 over=["inputs", "histories"], quant="every program of up to 2-4 statements (declarations of let/mut/ref, adding, appending, assigning, swapping, removing) over every reachable lvalue of ints, arrays, structs, nested arrays and arrays of structs; under if, loop and conditional references; every small helper called with every pair of overlapping arguments, by value or by reference result",
 why="The borrow checker and the copy/move/relaxation passes decide from whole-function usage; a test fixes one body, and a mistaken elision shows only when a particular later statement mutates a particular alias.",
 files=["src/solver.fu", "src/codegen.fu", "src/lifetime.fu", "include/fu/vec.h", "include/fu/vec_range.h", "include/fu/view.h"],
 mech=[("borrow checker and arguments-at-risk", "src/solver.fu: bck, AAR, updateScope"), ("copy elision, move on last use, qualifier relaxation", "src/solver.fu: propagateType, relaxBlockVar, keepOrClearMutVal"), ("lowering of references, views and windows", "src/codegen.fu; include/fu/vec_range.h; include/fu/view.h")],
 observe=["whether the compiler accepts a program", "values of all variables at the end of the run"])
C = dict(cmd="c25.py", technique="exhaustive enumeration of programs, compiled by the compiler under test and executed, against an explicit cell-semantics interpreter",
 note="Exhaustive over the stated themes; accepted programs are run when at least one mistaken copy or alias could show in their output; rejecting a program that has references is always allowed.")
