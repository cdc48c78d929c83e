P = dict(
 title="Integer expressions mean what the language says",
 statement="""An expression groups exactly as the operator table says, and evaluates to the value its tree denotes, whatever the nesting.
 Every arithmetic, wrapping, bit and comparison operator and every conversion gives the same, width-exact result on all integer types, in debug and optimized builds, in values, in conditions and in compound assignments.
 A numeric literal denotes its value in every base, sign and type it can take.""",
 over=["inputs", "programs"], quant="every pair of 8-bit values and all pairs of boundary values of wider types, for every operator, type and context; every expression tree up to a size",
 why="The failures sit where C++ differs from the language: promotion of short types, signed overflow under an optimizer, precedence of neighbours in emitted text. Only some value-and-context pairs show them.",
 files=["src/parser.fu", "src/codegen.fu", "src/solver.fu", "src/build.fu", "lib/prelude.fu"],
 mech=[("precedence", "src/parser.fu: BINOP, parseExpressionTail"), ("emission", "src/codegen.fu: emitBinaryOp, emitBuiltin"), ("literals", "src/codegen.fu: int literals; src/solver.fu: literal types")],
 observe=["values printed by compiled programs", "whether a legal expression compiles"])
C = dict(cmd="c12.py", technique="exhaustive enumeration of operands and of expression trees on compiled programs, against arithmetic definitions and a tree evaluator",
 note="All 65536 pairs for i8/u8/byte and boundary grids for the wider types, each operator in value, condition and assignment position, debug and retail; all expression trees to 3 (4) operators printed with minimal parentheses.")
