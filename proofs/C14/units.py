LEVEL = "proof"
F = "proofs/C14/pt.c"
P = dict(file=F, dfcc=False, loops=True, bmc_unwind=6)
UNITS = [
    U("get", fn="h_get", functions=["pt_vec_i_get", "pt_len_get"], **P),
    U("clear", fn="h_clear", functions=["pt_vec_i_clear"], **P),
    U("insert", fn="h_insert", functions=["pt_vec_i_insert", "pt_realloc", "pt_new"], **P),
    U("append", fn="h_append", functions=["pt_vec_append"], **P),
    U("delete", fn="h_delete", functions=["pt_vec_i_delete"], **P),
    U("trunc", fn="h_trunc", functions=["pt_trunc"], **P),
    U("free", fn="h_free", functions=["pt_free"], **P),
]
ASSUMPTIONS = ["the entries of the list are alike but two arbitrary ones", "realloc, memmove: assumed contracts on vectors of pointers", "co_free: contract (called with the nodes to be released)"]
