P = dict(
 title="Storage shared between threads is edited by nobody and freed exactly once",
 statement="""When threads hold arrays that share one storage, then under every interleaving of copies, edits, drops and reassignments each thread sees exactly the contents its own operations produce.
 The shared storage is freed exactly once, after its last use by any thread, its elements are destroyed exactly once, and no two unordered accesses touch the same memory when one of them writes.""",
 over=["schedules", "histories"], quant="every interleaving of every combination of short thread programs over arrays sharing one storage, with the visibility the code's memory orders guarantee",
 why="The outcome depends on where one thread is preempted between reading the reference count and acting on it, and on memory ordering the test machine never weakens; the tests run each program under one schedule.",
 files=["include/fu/mem/arc.h", "include/fu/vec.h", "include/fu/mem/arc.cpp"],
 mech=[("atomic reference count, uniqueness test", "include/fu/mem/arc.h: incr, decr, unique"), ("edit in place only when unique, share flag", "include/fu/vec.h: UNSAFE__splice, MarkShared, MarkUnique"), ("release", "include/fu/vec.h: SHARED__Dealloc")],
 observe=["contents of each thread's arrays", "allocator balance", "happens-before order of all accesses"])
C = dict(cmd="sched.py C03", technique="stateless exploration of all interleavings of the real array runtime under a controlled scheduler with a vector-clock race detector, every combination of thread programs",
 note="Exhaustive in schedules (any number of preemptions) for 2 threads x 2-3 operations and 3 threads x 1; 3 x 2 with a preemption bound. Memory model: sequential consistency plus happens-before race detection. One formal race is a listed known finding.")
