P = dict(
 title="File and directory operations are exact, or say that they failed",
 statement="""Writing, reading, listing, creating and streaming report success only if every byte, entry or directory is as asked: short transfers, interruptions, failing calls, or another process changing the file in between end in the exact result or in an error, and a call that meets no failure never reports one.
 What a buffer held before stays, byte counts are those the system reported, and no descriptor or directory stays open.""",
 over=["inputs", "faults", "schedules"], quant="every file size up to a bound, every buffer state, and every placement of a short transfer, an interruption, a failing call and a change by another process among the system calls made; every order of directory entries; every path over two names and slashes up to a length",
 why="The branches behind short transfers and failing calls are never taken on a healthy system, so tests cannot reach them; a wrong one loses data and reports success.",
 files=["lib/file.fu", "lib/FD.fu", "lib/fs.fu", "lib/Errno.fu"],
 mech=[("whole-file write and read", "lib/file.fu: write, read"), ("streams", "lib/FD.fu: read, write, read_exhaustive, read_discard"), ("directories", "lib/fs.fu: readdir, mkdir_p, executable")],
 observe=["returned error", "contents of file and buffer", "byte counts", "open descriptors", "directories created"])
C = dict(cmd="drv.py C20", technique="exhaustive exploration of all system behaviours: the real libraries on a simulated kernel (harness/fvio.h) whose every freedom is a choice of the explorer",
 note="At most 1 interruption, 1 failing call, 2 short transfers, 1 (2) changes by others per operation; files of up to 4 (6) bytes, streams at the edges of the 64 KB buffer; paths of up to 5 (7) characters. stat, size, chmod, unlink, rename only pass errors through and are covered by C18.")
