LEVEL = "proof"
F = "proofs/C03/num.c"
UNITS = [U("parse_" + t, file=F, fn="h_parse_" + t, enforce="parse_" + t, unwind=8,
           functions=["parse_" + t, "parse_%s64_base" % ("uint" if t[0] == "u" else "int")])
         for t in ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64")]
UNITS += [U("int64_base", file=F, fn="h_int64_base", enforce="parse_int64_base", unwind=8)]
ASSUMPTIONS = ["strtoll/strtoull/strchr: assumed contracts (ISO C meaning; a 'complete number' is a text strtoll/strtoull consumes entirely)",
               "cligen_reason: assumed to return an allocated message or NULL (variadic; its text is no part of the claim)"]
