LEVEL = "proof"
F = "proofs/C07/copy.c"
V = dict(file=F, defines=['VH_CALLOC_ANY'], dfcc=False, loops=True, calls=["cvec_each:each_contract", "cv_cp:cp_contract", "cv_reset:reset_contract", "strdup4:vh_strdup"])
UNITS = [
    U("cp", file=F, fn="h_cp", functions=["cv_cp", "cv_reset"]),
    U("dup", file=F, fn="h_dup", functions=["cv_dup", "cv_new", "cv_free", "cv_reset"]),
    U("append", file=F, fn="h_append", functions=["cvec_append_var"], calls=["cvec_add:add_contract", "cvec_del:del_contract"], dfcc=False, unwind=3),
    U("vdup", fn="h_vdup", functions=["cvec_dup", "cvec_new", "cvec_init"], **V),
    U("vreset", fn="h_vreset", functions=["cvec_reset", "cvec_free"], **V),
]
ASSUMPTIONS = ["strdup: assumed contract (NULL, or a new block holding the same text); a text is represented by one byte telling which text it is",
               "calls of cvec_each, cv_cp, cv_reset in the vector functions: by their contracts, shown in C02/index and in units cp, dup"]
