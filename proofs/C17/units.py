LEVEL = "proof"
F = "proofs/C17/kw.c"
N = dict(native_flags=["-Wl,--unresolved-symbols=ignore-all"], bmc_unwind=14, dfcc=False)
UNITS = [
    U("keyword", file=F, fn="h_keyword", calls=["match_variable:var_contract"], functions=["match_object"], **N),
    U("other", file=F, fn="h_other", calls=["match_variable:var_contract"], functions=["match_object"], native=False, bmc=False, **N),
]
ASSUMPTIONS = ["strlen, strncmp, strncasecmp, strdup: assumed contracts", "match_variable: assumed contract (match, no match with a reason, or error)"]
