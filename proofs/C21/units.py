LEVEL = "proof"
F = "proofs/C21/fds.c"
T = "proofs/C21/table.c"
UNITS = [
    U("register", file=T, fn="h_reg", functions=["gl_regfd"], dfcc=False, loops=True, bmc=False),
    U("remove", file=T, fn="h_unreg", functions=["gl_unregfd"], dfcc=False, loops=True, bmc=False),
    U("wait", file=T, fn="h_select", functions=["gl_select"], dfcc=False, loops=True, unwind=2, bmc=False),
    U("exitchars", file=F, fn="h_exitchars", functions=["gl_exitchar_add", "gl_exitchar"], dfcc=False, unwind=14, bmc_unwind=14),
    U("fds", file=F, fn="h_fds", kind="bounded", tier="thorough", functions=["gl_regfd", "gl_unregfd", "gl_select"], unwind=5, bound="tables left by 3 operations on 4 descriptors, one round of waiting"),
]
ASSUMPTIONS = ["select: any subset of the descriptors asked for", "fd_set operations: as sets of descriptors", "realloc, memmove: assumed contracts on the table (entries alike but two arbitrary ones)", "callbacks do not register or remove descriptors"]
