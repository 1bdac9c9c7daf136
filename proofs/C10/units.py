LEVEL = "proof"
P = dict(dfcc=False, nofail=True, loops=True, native_flags=["-Wl,--unresolved-symbols=ignore-all"])
UNITS = [
    U("token", file="proofs/C10/tok.c", fn="h_token", bmc_unwind=8, functions=["next_token"], **P),
    U("split", file="proofs/C10/split.c", fn="h_split", bmc_unwind=8, calls=["next_token:token_contract", "cvec_start:start_contract", "cvec_add:add_contract", "cvec_free:vfree_contract"], functions=["cligen_str2cvv"], **P),
]
ASSUMPTIONS = ["index, memcpy, strdup: assumed contracts", "vectors of variables (C02) and setting a text (C04) by contract", "lines of fewer than 2^30 characters"]
