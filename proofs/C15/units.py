LEVEL = "proof"
F = "proofs/C15/sort.c"
P = dict(dfcc=False, bmc_unwind=8, native_flags=["-Wl,--unresolved-symbols=ignore-all"])
UNITS = [
    U("pos", file=F, fn="h_pos", calls=["co_insert_pos:pos_rec", "co_eq:eq_contract", "enter_pos:co_insert_pos"], unwind=8, functions=["co_insert_pos"], **P),
    U("search", file=F, fn="h_search", calls=["co_search1:search_rec", "enter_search:co_search1"], unwind=8, functions=["co_search1"], **P),
    U("find", file=F, fn="h_find", calls=["co_search1:search_contract"], unwind=8, functions=["co_find_one"], **P),
    U("insert", file=F, fn="h_insert", calls=["co_insert_pos:pos_contract", "co_eq:eq_contract", "co_pt_get:tree_contract", "co_free:free_contract"], unwind=8, functions=["co_insert1"], **P),
    U("order", file="proofs/C15/order.c", fn="h_order", unwind=4, functions=["co_eq", "str_cmp"], dfcc=False, native_flags=P["native_flags"]),
    U("order_lists", file="proofs/C15/order.c", fn="h_order", defines=["LISTS"], kind="bounded", unwind=4, bound="variables with at most 2 regular expressions and 2 ranges", functions=["co_eq"], native_flags=P["native_flags"]),
]
ASSUMPTIONS = ["strcmp, strcasecmp, strverscmp: total orders of texts", "cv_cmp: a total order (C06)", "pt_vec_i_insert (C14) and merging by contract", "order of variables: those without regular expressions and ranges; with at most two of each in the bounded unit", "a list is sorted as seen by the object inserted: the order of commands mixed with variables is not transitive"]
