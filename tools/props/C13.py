P = dict(
 title="Structured control flow does exactly what the source says",
 statement="""Whatever the nesting, a function executes the statements its source prescribes for the branch outcomes it meets: loops, labels, values of broken blocks, returns through block arguments and inner functions, throws and catches reach exactly their target.
 Leaving a scope by any route runs its defers, in reverse order, defer:err on a throw only and defer:ok otherwise only.
 A legal function compiles, and compiles to the same behaviour whatever else its module contains.""",
 over=["inputs", "programs"], quant="every function body up to a size over each theme of statements, on every string of branch outcomes up to a length",
 why="Each construct works alone; what fails is a particular nesting (a label on a loop that is another loop's whole body, a jump out of an initializer) or a neighbour in the same module that happens to hash alike.",
 files=["src/parser.fu", "src/solver.fu", "src/codegen.fu", "include/fu/defer.h"],
 mech=[("labels, jumps and dead code", "src/solver.fu: solveJump, propagateType (block, jump, and/or, if, try)"), ("emission", "src/codegen.fu: cgBlock, cgLoop, cgJump, cgDefer, cgTryCatch"), ("scope exits", "include/fu/defer.h"), ("instances", "src/solver.fu: computeFnSighash")],
 observe=["trace of effects and result of the compiled function", "whether a legal function compiles"])
C = dict(cmd="c13.py", technique="exhaustive enumeration of function bodies and branch outcomes on compiled programs, against an interpreter of the tree",
 note="11 themes, bodies to 4 (5) statements, 16k functions, each on all 16 (32) branch strings; half of them as block arguments of one template so that any two merged instances show.")
