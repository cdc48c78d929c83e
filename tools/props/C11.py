P = dict(
 title="Text keeps its bytes: UTF-8, ASCII case and trim, string and byte literals",
 statement="""Encoding any code point yields its UTF-8 form and decoding yields it back; decoding any bytes reports every well-formed prefix exactly, reports an error at the first malformed byte and only then, and reads nothing outside the text.
 Upper, lower and trim change exactly the ASCII letters and whitespace.
 Every string or byte literal of a program denotes exactly the bytes its source says, whatever escapes and neighbours it contains.""",
 over=["inputs", "programs"], quant="every code point, every byte string up to a length, and every byte value in every spelling next to every class of neighbouring character in a literal",
 why="Truncation at the end of a slice, a hex escape followed by a hex digit, bytes above 127: the failing inputs are particular combinations of neighbours that no sample text contains.",
 files=["lib/unicode.fu", "lib/ascii.fu", "src/lexer.fu", "src/codegen.fu"],
 mech=[("decoder", "lib/unicode.fu: utf8, codepoints"), ("escapes in", "src/lexer.fu: UNSAFE_unescapeStr"), ("escapes out", "src/codegen.fu: escapeStringLiteral"), ("case and trim", "lib/ascii.fu")],
 observe=["decoded code points and errors", "bytes of literals at run time"])
C = dict(cmd="c11.py", technique="exhaustive enumeration of code points, byte strings and literal programs on the real code, against arithmetic definitions",
 note="All 1.1M code points; all byte strings to 2 (3) bytes plus all strings over 14 boundary bytes to length 5 (7), each in four storage contexts, retail and ASan; 21k (more in thorough) literals compiled and run.")
