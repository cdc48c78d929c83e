P = dict(
 title="The slot pool never hands out a slot that is in use and never loses contents",
 statement="""After any history of alloc, write and free, every live slot holds exactly what its owner wrote, alloc never returns a slot that is still live, and freed slots are reused before the pool grows.
 The free list never contains a live slot and never cycles.""",
 over=["histories"], quant="every history of alloc, free of any live slot and write, merged by state, up to a number of live slots",
 why="An error in the free-list chain shows only after a specific order of frees followed by reallocation; tests exercise the pool only through the compiler.",
 files=["lib/ev/Pool.fu"], mech=[("intrusive free list", "lib/ev/Pool.fu: alloc, free")],
 observe=["slot numbers", "contents of every live slot", "free chain"])
C = dict(cmd="drv.py C09", technique="explicit-state breadth-first exploration of the real pool: every alloc/free/write from every reachable state against a slot model",
 note="Exhaustive up to 6 live of 7 slots (7 of 8 in thorough); ASan build included.")
