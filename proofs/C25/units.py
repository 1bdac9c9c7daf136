LEVEL = "proof"
F = "proofs/C25/regex.c"
UNITS = [
    U("compile", file=F, fn="h_compile", functions=["cligen_regex_posix_compile", "regex_posix_valid"], unwind=10, bmc_unwind=10),
    U("exec", file=F, fn="h_exec", functions=["cligen_regex_posix_exec", "cligen_regex_libxml2_exec", "cligen_regex_libxml2_compile"], defines=["EXEC"], bmc_unwind=6),
    U("match", file="proofs/C25/match.c", fn="h_match", functions=["match_regexp", "cligen_regex_compile", "cligen_regex_exec", "cligen_regex_free"],
      calls=["cligen_regex_posix_compile:m_pcompile", "cligen_regex_libxml2_compile:m_xcompile", "cligen_regex_posix_exec:m_pexec",
             "cligen_regex_libxml2_exec:m_xexec", "cligen_regex_posix_free:m_pfree", "cligen_regex_libxml2_free:m_xfree"], bmc=False),
    U("value", file="proofs/C25/value.c", fn="h_value", functions=["cv_validate"], loops=True, calls=["outofrange:m_oor", "outoflength:m_ool"], bmc_unwind=8),
]
ASSUMPTIONS = ["regcomp, regexec, regfree, xmlRegexpCompile, xmlRegexpExec: assumed contracts (whether a text is a pattern and whether it matches is the engine's answer)",
    "that ^(p)$ matches exactly the values that p matches from start to end: the meaning of extended regular expressions, not proved",
    "string buffer and strlen: assumed contracts (shown in C03)"]
