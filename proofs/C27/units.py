LEVEL = "proof"
F = "proofs/C27/copy.c"
P = dict(dfcc=False, bmc_unwind=18, native_flags=["-Wl,--unresolved-symbols=ignore-all"])
HOW = {0: ("expand_sub", ["co_expand_sub", "co_owned_clear", "co_new_only", "co_pt_set", "co_free"]), 1: ("copy", ["co_copy", "co_owned_clear", "co_filter_set"]), 2: ("copy1", ["co_copy1"])}
UNITS = [U("%s_%s" % (n, t), file=F, fn="h_copy", defines=["HOW=%d" % h, "TYPE=%d" % i], unwind=18, functions=f, **P)
         for h, (n, f) in HOW.items() for i, t in enumerate(["command", "variable", "reference", "empty"])]
L = "proofs/C27/labels.c"
S = ["$REPO/cligen_%s.c" % n for n in ("object", "parsetree", "cvec", "cv", "callback", "buf", "util")]
Q = dict(dfcc=False, loops=True, bmc=False, native_srcs=S, native_flags=["-Wl,--unresolved-symbols=ignore-all"], unwind=20)
UNITS += [
    U("filter", file=L, fn="h_filter", functions=["co_isfilter"], **Q),
    U("labels", file=L, fn="h_find", functions=["co_find_label_filters"], **Q),
    U("add", file=L, fn="h_add", calls=["co_isfilter:m_isfilter"], functions=["co_filter_add"], **Q),
    U("expand1", file=L, fn="h_expand1", calls=["co_isfilter:m_isfilter", "co_expand_sub:m_sub", "co_insert1:m_insert", "co_free:m_free", "pt_expand_choice:m_choice",
        "pt_expand_fn:m_fn", "co_filter_add:m_filter"], functions=["pt_expand1_co"], **Q),
]
V = "proofs/C27/level.c"
W = dict(dfcc=False, loops=True, bmc=False, native_srcs=S, native_flags=Q["native_flags"])
UNITS += [
    U("level", file=V, fn="h_level", calls=["pt_expand1_co:m_expand1", "pt_expand_reference:m_reference"], functions=["pt_expand"], **W),
    U("reference", file=V, fn="h_reference", calls=["pt_expand1_co:m_expand1", "tree_resolve:m_resolve", "co_find_label_filters:m_labels", "co_expand_treeref_copy_shallow:m_shallow"],
      functions=["pt_expand_reference"], **W),
]
ASSUMPTIONS = ["strdup, cvec_each, cvec_find, cvec_add, cvec_append_var, cv_name_set, cvec_dup, pt_dup, pt_vec_i_get, co_callback_copy: assumed contracts (the vectors are shown in C02 and C07, the trees in C14)",
    "a default pipe is only given together with a parent object", "expansion of the values of a variable (pt_expand_fn) and of choices (pt_expand_choice): called by contract"]
