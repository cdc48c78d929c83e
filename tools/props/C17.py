P = dict(
 title="A build never reuses a stale product",
 statement="""Whatever was built before with the same cache, a build gives the executable, test verdict and exit code that a build of the same sources, headers and options with an empty cache gives.
 This covers modules, templates, library modules, headers at any depth of inclusion and wherever the include path finds them, headers of the runtime, build schemes and compiler, linker and package flags, and failed builds in between.
 It also covers files that were edited while an earlier build was running.""",
 over=["histories"], quant="every history of two edits out of 37 kinds over 23 inputs, followed by a return to each earlier state, and every single edit at each step of a running build",
 why="Cached objects and executables are found by a hash of what they were made of; an input the hash leaves out shows only in a history in which it changes between two builds that share a cache, and the tests build everything once.",
 files=["src/build.fu", "src/compiler.fu", "src/fudir.fu", "lib/tea.fu"],
 mech=[("object and executable cache keys", "src/build.fu: getIncludesHash, unit.obj_hash, F_exe"), ("check that headers did not change during the build", "src/build.fu: crosscheckHeaders_beforePersistingTempObjects")],
 observe=["exit code of the compiler", "bytes of the executable, which lists everything that was read for it", "the same from an empty cache, and from the description of the state"])
C = dict(cmd="c17.py", technique="explicit-state exploration of edit and build histories on the real compiler, with a stand-in for the C++ compiler whose output is a function of all it reads",
 note="Every history of two edits (about 2600 builds) against fresh builds of 518 states; edits at every run of the C++ compiler. Thorough: every third edit as well.")
