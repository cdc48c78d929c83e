P = dict(
 title="Faults and crashes during a build never poison the cache or fake success",
 statement="""Wherever a build is cut off, and whichever single file system operation or run of the C++ compiler fails, the requested executable is either left as it was or is the complete new one, and success is reported only with the new one in place.
 Every later build with the same cache gives what a build with an empty cache gives.""",
 over=["crash points", "histories"], quant="every crash point, failed operation, short transfer and compiler death of a build in 7 scenarios, each followed by builds of three states",
 why="The cache is a set of files written by several processes and found again by name: whether a partial write, a failed rename or a killed child leaves something behind that a later build takes for good depends on the exact operation at which it happened.",
 files=["src/build.fu", "src/compiler.fu", "lib/file.fu", "lib/fs.fu", "lib/spawn.fu"],
 mech=[("temporary file, then rename into the cache", "src/build.fu: F_tmp, file::rename"), ("error checks of file writes", "lib/file.fu: write, read"), ("folders of the cache", "lib/fs.fu: mkdir_p")],
 observe=["exit code of the compiler", "bytes of the requested executable", "the same from later builds, and from an empty cache"])
C = dict(cmd="c18.py", technique="exhaustive fault and crash point exploration of the real compiler under an operation-numbering preload shim, with a stand-in for the C++ compiler",
 note="About 1900 faults, three builds after each. Thorough: every operation of every scenario.")
