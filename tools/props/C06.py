P = dict(
 title="The hash map is a finite map under every operation and collision history",
 statement="""After any history of set, get, ref, ref with initialiser, if_ref, remove, each, each with removal, and clear, whatever the hash values of the keys, each key maps to exactly the value last stored under it, len is the number of keys present, and an absent key is reported absent, and an initialiser that throws leaves the map as it was.
 Iteration visits every present key exactly once with its own value; removing visited entries during iteration removes exactly those.""",
 over=["histories", "inputs"], quant="every operation history, merged by the map's memory, up to a number of keys and for every assignment of hash values to keys (so every collision, displacement and wraparound pattern)",
 why="Robin-hood displacement, backward-shift deletion and wraparound depend on which keys collide at which distance after which removals; the tests insert sequential keys with one hash function.",
 files=["lib/hash.fu"],
 mech=[("open addressing with displacement and backward shift", "lib/hash.fu: Map get, set, ref, if_ref, remove, compact, grow"), ("iteration", "lib/hash.fu: each")],
 observe=["membership and value of every key after each operation", "len", "sequence of visited entries"])
C = dict(cmd="drv.py C06", technique="explicit-state breadth-first exploration of the real map code: every operation from every reachable map state, for every assignment of hash values to keys, against a finite-map model",
 note="Exhaustive for 4-6 keys, hash ranges 4-10 including wraparound, int and string keys; retail and debug/ASan builds. The visited set is keyed by the map's own memory.")
