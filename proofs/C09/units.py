LEVEL = "proof"
F = "proofs/C09/time.c"
UNITS = [U("parse", file=F, fn="h_parse", functions=["str2time", "cligen_tonum", "todig"], unwind=8, bmc_unwind=32),
         U("print", file=F, fn="h_print", functions=["time2str", "str2time", "cligen_tonum", "todig"], unwind=30, bmc_unwind=30, defines=["PRINTS"])]
ASSUMPTIONS = ["mktime, gmtime, timezone: assumed contracts (mktime of fields without daylight saving = their seconds as universal time plus timezone; gmtime its inverse)",
               "snprintf: executable model of its ISO C text, every number within its zero-padded field (checked)",
               "time values printed lie in the years 0 to 9999 with 0 to 999999 microseconds"]
