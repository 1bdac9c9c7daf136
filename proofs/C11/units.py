LEVEL = "proof"
F = "proofs/C11/esc.c"
N = dict(native_flags=["-Wl,--unresolved-symbols=ignore-all"], bmc_unwind=8, dfcc=False)
UNITS = [
    U("count", file=F, fn="h_nr", loops=True, functions=["cligen_escape_nr"], **N),
    U("need", file=F, fn="h_need", calls=["cligen_escape_nr:nr_contract"], functions=["cligen_escape_need"], **N),
    U("escape", file=F, fn="h_do", loops=True, calls=["cligen_escape_nr:nr_contract"], functions=["cligen_escape_do"], **N),
]
ASSUMPTIONS = ["strlen, strpbrk: assumed contracts on the value", "values shorter than 2^29 characters", "the number of characters to escape in a prefix: ghost function, its definition is assumed where it is unfolded"]
