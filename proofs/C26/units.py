LEVEL = "model_checking"
UNITS = [
    U("trim", file="proofs/C26/trim.c", fn="h_trim", kind="bounded", unwind=10, bound="lines of at most 7 characters, any characters", functions=["cli_trim"], native_flags=["-Wl,--unresolved-symbols=ignore-all"]),
]
ASSUMPTIONS = ["the comment character is not a blank or newline"]
