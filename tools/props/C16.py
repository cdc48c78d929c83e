P = dict(
 title="Operands are evaluated in the language's order, whatever C++ compiler is used",
 statement="""In every expression, operands and arguments are evaluated left to right, arguments that will be written through are taken after the others, and the right side of an assignment comes first; each operand has the value it had when it was evaluated, whatever the operands after it change.
 The value and the effects of an accepted program are the same with gcc and clang and at every optimization level.""",
 over=["inputs"], quant="every expression of up to three operands, with and without effects on the variables and arrays the others read, under arithmetic, comparison, calls (by value and by reference), array and struct construction, indexing, assignment, compound assignment, && || and ?:; every statement over strings, structs holding strings and arrays of strings with operands under ?:, && and ||, moves and closures of the values included",
 why="C++ leaves the order of operands open and compilers differ, so each combination of reads and writes needs the right temporaries; tests run a few with one compiler.",
 files=["src/solver.fu", "src/codegen.fu", "src/module.fu", "include/fu/vec.h"],
 mech=[("decision which arguments need temporaries", "src/solver.fu: nestingFnort_ensureArgSequencing, isRTL_set"), ("emission of temporaries", "src/codegen.fu: cgCall (MUSTSEQ)"), ("order of arguments", "src/module.fu: argsForward")],
 observe=["value of the expression", "variables and arrays after it"])
C = dict(cmd="c16.py", technique="exhaustive enumeration of expressions, compiled by the compiler under test with gcc and clang and executed, against an explicit left-to-right interpreter",
 note="Exhaustive over the stated grammar (numbers, and strings / structs / arrays of strings), keeping the expressions whose outcome depends on the order; an expression the compiler rejects is not judged; the order of prints is not part of it.")
