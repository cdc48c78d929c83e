P = dict(
 title="A child's output is collected completely and its end is reported",
 statement="""Spawning a child and collecting its output yields every byte it wrote, each stream in order and in its own buffer, and the status it ended with, for every timing of its writes, of closing its streams and of its end, and however calls are interrupted or shortened.
 The parent never waits for ever, the child is waited for exactly once, no descriptor leaks, and a failure to start is reported.""",
 over=["schedules", "faults"], quant="every child program of up to 2 (3) steps over small and pipe-filling writes to either stream and closing either, every interleaving of its steps with the parent's system calls, every placement of one interruption, short read or failing call",
 why="Whether the child closes, writes or ends between two particular calls of the parent depends on the scheduler; tests run children that end at once.",
 files=["lib/spawn.fu", "lib/exec.fu"],
 mech=[("collecting loop", "lib/spawn.fu: spawn with stdout and stderr"), ("descriptors given to the child", "lib/spawn.fu: spawn, pipe, close"), ("waiting", "lib/spawn.fu: fu_waitpid")],
 observe=["collected bytes", "status", "error", "open descriptors", "calls that never return"])
C = dict(cmd="drv.py C21", technique="stateless model checking of the real library against a simulated kernel and child: every interleaving and fault choice enumerated",
 note="Pipes of 8 bytes so that small writes fill them; faults of poll, waitpid and read of a pipe other than interruptions are not injected.")
