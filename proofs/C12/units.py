LEVEL = "proof"
F = "proofs/C12/hist.c"
UNITS = [
    U("add", file=F, fn="h_add", functions=["hist_add", "hist_save"], dfcc=False, loops=True, bmc_unwind=8),
    U("prev", file=F, fn="h_prev", functions=["hist_prev"], dfcc=False, bmc_unwind=8),
    U("next", file=F, fn="h_next", functions=["hist_next"], dfcc=False, bmc_unwind=8),
]
I = "proofs/C12/init.c"
UNITS += [
    U("init", file=I, fn="h_init", functions=["cligen_hist_init"], dfcc=False, loops=True, bmc_unwind=8),
    U("exit", file=I, fn="h_exit", functions=["hist_exit"], dfcc=False, loops=True, bmc_unwind=8),
    U("save", file="proofs/C12/save.c", fn="h_save", kind="bounded", functions=["cligen_hist_file_save"], unwind=9, bound="rings of at most 6 slots, every fill level and position"),
    U("copy", file="proofs/C12/save.c", fn="h_copy", kind="bounded", functions=["hist_copy", "hist_copy_pos", "hist_copy_prev", "hist_copy_next", "hist_pos_set", "hist_pos", "hist_last_get"], unwind=18, bound="rings of at most 6 slots, entries of two characters"),
]
ASSUMPTIONS = ["a line has no line end in it (lines come from the line editor or from a file split at line ends)",
    "strlen, strncmp, strcmp, strchr, strdup: assumed contracts on opaque texts",
    "the blanks in front of a line are one kind of blank, another one in one arbitrary place",
    "cligen_buf_size, cligen_buf_increase: assumed contracts"]
