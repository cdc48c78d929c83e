P = dict(
 title="The lock-free task stack behaves like one atomic stack under every schedule",
 statement="""Under every interleaving of concurrent pushes and pops, including a thread stalled for arbitrarily long inside an operation while nodes are popped, reused and pushed again, the results are those of some order of the operations on an ordinary stack.
 No task is lost, handed out twice or invented, the version tag keeps stale compare-and-swaps from succeeding across its whole width, and handing a task over publishes its contents.""",
 over=["schedules", "histories"], quant="every interleaving of every combination of push/pop programs for 2-3 threads with node reuse, with spurious compare-and-swap failures, from fresh and near-wrap tags",
 why="ABA corruption needs one thread stalled between reading the top and swapping it while others recycle exactly that node; no test controls the schedule, and the failing windows are a few instructions wide.",
 files=["include/lockfree/stack.hpp", "include/par/parfor.hpp"],
 mech=[("tagged-pointer compare-and-swap", "include/lockfree/stack.hpp: push, try_pop, tag")],
 observe=["results of every push and pop", "set of nodes left", "happens-before order of node contents"])
C = dict(cmd="sched.py C04", technique="stateless exploration of all interleavings of the real stack under a controlled scheduler, each history checked for linearizability",
 note="Exhaustive in schedules for 2 threads x up to 3 operations and 3 x 1, bounded preemptions for 3 x 2; tag width is exercised by a stalled thread against up to 12 recycles, and from a tag near its wrap.")
