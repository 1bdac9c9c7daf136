LEVEL = "proof"
N = dict(native_flags=["-Wl,--unresolved-symbols=ignore-all"], dfcc=False)
UNITS = [
    U("ops", file="proofs/C19/mr.c", fn="h_ops", functions=["mr_pt_append", "mr_pt_reset", "mr_pt_trunc", "mr_pt_len_get", "mr_pt_i_get", "mr_reason_get", "mr_reason_set", "mr_mv_reason", "mr2result", "mr_level_get", "mr_level_set", "mr_last_get", "mr_last_set", "mr_token_get", "mr_new", "mr_free"], bmc_unwind=6, **N),
    U("new", file="proofs/C19/mr.c", fn="h_new", functions=["mr_new", "mr_free"], bmc_unwind=6, **N),
    U("pattern", file="proofs/C19/pat.c", fn="h_pattern", loops=True, calls=["match_pattern_sets:sets_contract"], functions=["match_pattern", "last_level", "cligen_cvv_levels", "co_clearflag"], bmc_unwind=6, **N),
    U("exact", file="proofs/C19/exact.c", fn="h_exact", calls=["match_pattern:pattern_contract"], functions=["match_pattern_exact"], bmc_unwind=6, **N),
]
ASSUMPTIONS = ["units pattern, exact: match_pattern_sets, match_pattern, the match result and lists by their contracts; each match and each child but two arbitrary ones has arbitrary contents when visited",
    "match_pattern_sets, pt_expand: assumed contracts", "the list of recorded objects by its contract (C14)", "co_copy1: assumed contract (a fresh copy or failure)"]
