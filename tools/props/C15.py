P = dict(
 title="Builds that share a cache at the same time do not disturb each other",
 statement="""Two builds that use the same cache at the same time each end with the exit code and the executable that they would have ended with alone, however their file operations interleave and even when they started in the same instant.
 Builds that come afterwards are not affected either.""",
 over=["schedules"], quant="every interleaving of two builds with at most one preemption (thorough: two), in 10 scenarios",
 why="Both find and leave files in the cache under names derived from content, and each renames, replaces and removes what the other may be about to use; only particular interleavings of single operations show it.",
 files=["src/build.fu", "lib/file.fu", "lib/fs.fu", "lib/rand.fu"],
 mech=[("names of temporary files", "src/build.fu: tmpfile"), ("generated sources in the cache, removed after use", "src/build.fu: buildUnit, cache_cleanup"), ("executable moved out of the cache", "src/build.fu: file::rename(F_exe, bin)"), ("executable of a testsuite replaced by its result", "src/build.fu: WRITE_cachedTestOutput")],
 observe=["exit codes of both compilers", "both executables", "the same from builds that follow, and from builds alone"])
C = dict(cmd="c15.py", technique="stateless exploration of all interleavings, up to a bound on preemptions, of two real compiler processes under a controller of their file system operations",
 note="About 900 schedules at one preemption, before every operation on a path both use. Thorough: two (16000).")
