P = dict(
 title="Instances and modules never borrow each other's meaning",
 statement="""The instances a template gets are shared between call sites only when they mean the same: a template, a block argument or an inner function does at every call site what its text means there.
 That holds when any number of instances that differ in a single token, operand, type, callee or jump target live in one program, and when the same text in several modules refers to definitions of the same names that differ.
 Functions and types of one module are never taken for those of another module.""",
 over=["programs"], quant="every pair of bodies out of a family that differ in one place, in one module and across modules",
 why="Instances are merged by a structural hash that leaves out what it takes to be implied; what it wrongly leaves out shows only when two instances that differ in just that meet in one program.",
 files=["src/solver.fu", "src/codegen.fu", "src/context.fu"],
 mech=[("structural hash of instances", "src/solver.fu: computeFnSighash"), ("names of emitted functions and types", "src/codegen.fu: ensureFnDef, src/context.fu: getShortModuleName")],
 observe=["output of each instance, against the same text in a plain function of its own", "whether the program links"])
C = dict(cmd="c14.py", technique="exhaustive enumeration of pairs of one-difference instances in compiled programs, against never-merged plain functions",
 note="286 bodies x block argument / inner template / inner function, all pairs in one program; again over four modules in two (four) distributions, with 33 texts whose names mean something else in each module.")
