LEVEL = "proof"
F = "proofs/C04/dec.c"
UNITS = [
    U("parse", file=F, fn="h_parse", dfcc=False, functions=["parse_dec64", "parse_int64_base"], unwind=4, split=True, loops=True, bmc_unwind=14),
    U("print", file=F, fn="h_print", functions=["cv_dec64_print"], dfcc=False,
      defines=["PRINT"], unwind=26, split=True, bmc_unwind=24, checks=[c for c in STD_CHECKS]),
]
ASSUMPTIONS = ["strtoll/strdup/strlen/strsep/strpbrk/strspn/snprintf: assumed contracts (ISO C/POSIX meaning)",
               "texts shorter than 2^31-64 characters (parse_dec64 keeps lengths in an int)",
               "positional notation: inserting a point before the last n digits of a number divides it by 10^n (not restated in the verifier)",
               "cligen_reason: assumed to return an allocated message or NULL"]
