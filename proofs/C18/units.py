LEVEL = "proof"
N = dict(native_flags=["-Wl,--unresolved-symbols=ignore-all"], dfcc=False)
UNITS = [
    U("complete", file="proofs/C18/comp.c", fn="h_complete", loops=True, calls=["match_pattern:pattern_contract"], functions=["match_complete"], bmc_unwind=8, nofail=True, **N),
    U("shift", file="proofs/C18/shift.c", fn="h_shift", loops=True, calls=["match_complete:complete_contract"], functions=["cli_complete"], bmc_unwind=8, nofail=True, **N),
]
ASSUMPTIONS = ["match_pattern (C19), the match result (C19) and cligen_str2cvv (C10) by their contracts", "strlen, strcmp, strcasecmp, strncat, strncpy, realloc: assumed contracts", "each match but two arbitrary ones has arbitrary contents when it is visited"]
