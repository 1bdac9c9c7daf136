LEVEL = "proof"
F = "proofs/C06/cmp.c"
TYPES = "INT8 INT16 INT32 INT64 UINT8 UINT16 UINT32 UINT64 DEC64 BOOL STRING IPV4PFX IPV6PFX MACADDR URL UUID TIME VOID".split()
UNITS = [U("natural", file=F, fn="h_natural", functions=["cv_cmp", "cv_dec64_i_get"], unwind=18),
         U("antisymmetric", file=F, fn="h_order", functions=["cv_cmp"], unwind=18),
         U("transitive", file=F, fn="h_order", functions=["cv_cmp"], unwind=18, defines=["TRANS"], timeout=600)]
ASSUMPTIONS = ["strcmp: assumed contract (the sign is that of the order of the two texts, a total order); memcmp: by octets, at most 16",
               "values compared are set: texts are not missing, booleans are 0 or 1, decimals have the same number of fraction digits"]
