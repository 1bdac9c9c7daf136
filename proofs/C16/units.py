LEVEL = "proof"
N = dict(native_flags=["-Wl,--unresolved-symbols=ignore-all"], dfcc=False)
UNITS = [
    U("pref", file="proofs/C16/pref.c", fn="h_order", functions=["co_pref", "cov_pref"], bmc_unwind=6, **N),
    U("vec", file="proofs/C16/vec.c", fn="h_vec", loops=True, split=6, timeout=400, calls=["match_object:match_contract"], functions=["match_vec"], bmc_unwind=6, **N),
]
ASSUMPTIONS = ["unit vec: each alternative but two arbitrary ones has arbitrary contents when it is visited; match_object (C17), co_pref (unit pref), the list of alternatives and the match result (C19) by their contracts", "preference of a matching alternative is at least 1 (shown in unit pref for every type that can match)"]
