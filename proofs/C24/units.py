LEVEL = "proof"
F = "proofs/C24/types.c"
UNITS = [U("names", file=F, fn="h_names", functions=["cv_str2type"], unwind=14, bmc_unwind=14),
         U("types", file=F, fn="h_types", functions=["cv_type2str", "cv_str2type"], unwind=14, bmc_unwind=14),
         U("limits", file=F, fn="h_limits", functions=["cv_max_set", "cv_min_set"]),
         U("max2str", file=F, fn="h_max", functions=["cvtype_max2str", "cvtype_max2str_dup"], unwind=24, bmc_unwind=24)]
ASSUMPTIONS = ["snprintf of one integer: executable model of its ISO C text; strcmp: CBMC's library model"]
