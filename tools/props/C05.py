P = dict(
 title="Parallel loops run every index exactly once, then return, without deadlock",
 statement="""A parallel loop over any range executes each index exactly once, all of it before the loop returns to its caller and with everything the iterations wrote visible to the caller.
 This holds for every interleaving of the caller, the workers and other callers, for nested loops, repeated loops, ranges shorter than the batch size and spurious wake-ups, and no schedule leaves the caller waiting forever or lets a worker touch the loop after it returned.""",
 over=["schedules"], quant="every interleaving up to the stated preemption bound of loops of 0-7 indices with 1-2 workers and 1-2 callers, batch sizes 1-3, nested and repeated",
 why="Lost wake-ups, a batch counted twice or a counter used after its owner returned show only under particular interleavings of decrement, lock, notify and sleep; the tests run loops under whatever schedule the machine happens to pick.",
 files=["include/par/parfor.cpp", "include/par/parfor.hpp", "lib/par.fu"],
 mech=[("task splitting and stealing", "include/par/parfor.hpp"), ("completion counter and sleep", "include/par/parfor.hpp: PBC_*"), ("worker pool wake-up", "include/par/parfor.cpp")],
 observe=["execution count of each index when the loop returns", "deadlock (no runnable thread)", "races and lifetime of the loop's counters"])
C = dict(cmd="sched.py C05", technique="stateless exploration of the real parallel loop and worker pool under a controlled scheduler (threads, mutexes, condition variables and atomics interposed)",
 note="Unbounded preemptions for 1-2 workers with 3 indices and for two callers with one worker; preemption-bounded for nesting, two callers with two workers and spurious wake-ups.")
