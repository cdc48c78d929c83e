P = dict(
 title="Hot swapping runs the newest definition and keeps the program and its library",
 statement="""After SIGUSR1 (at once, or at the next hotswap::here() in a program that calls it), every function marked hotswap runs the definition of the library found then if that has one, and otherwise the one it had; a library that is missing, broken or lacks the function changes nothing, and a later good one is picked up.
 The program's own state lives on and is what the new code sees, the library's file and folder are left as they were, and the registered callback runs once per signal.""",
 over=["histories"], quant="every history of 5 (thorough: 6) steps of replacing or removing the library, signals, hotswap::here() and callback registration, for both ways the library is found, in debug and retail builds",
 why="No test exercises reloading; whether a reload takes effect depends on what the loader resolved, renamed and cached in earlier steps.",
 files=["include/dl/hotswap.cpp", "include/dl/hotswap.hpp", "lib/hotswap.fu"],
 mech=[("rename, dlopen, rename back, symbol lookup", "include/dl/hotswap.cpp: try_reload"), ("deferred reload", "include/dl/hotswap.cpp: onSIGUSR1_reloadLibs, onManualReload"), ("registration through static initialisers", "include/dl/hotswap.hpp: hotswap; hotswap_init")],
 observe=["results of the swapped functions", "program state seen by the libraries", "library folder", "callback count"])
C = dict(cmd="c19.py", technique="stateless exhaustive enumeration of reload histories on the real loader, each in its own process, against a model",
 note="Exhaustive to the stated depth; libraries are built by g++ from the code the compiler emits for hotswap functions; asynchronous arrival of the signal inside library code is not explored.")
