LEVEL = "proof"
F = "proofs/C08/text.c"
UNITS = [U("bool", file=F, fn="h_bool", functions=["parse_bool"], unwind=12),
         U("mac", file=F, fn="h_mac", functions=["parse_macaddr"], unwind=20, defines=["LEN_STUB"], bmc_unwind=20),
         U("uuid", file=F, fn="h_uuid", functions=["str2uuid", "toint"], unwind=40, defines=["LEN_STUB"], bmc_unwind=40)]
P = ["cv2str", "cv2cbuf", "cv_print", "cv_parse1"]
for t, fs, n in [("BOOL", ["parse_bool"], None), ("MACADDR", ["parse_macaddr"], 17), ("UUID", ["uuid2str", "str2uuid"], 36),
                 ("IPV4ADDR", ["parse_ipv4addr"], 3), ("IPV4PFX", ["parse_ipv4addr"], 3), ("IPV6ADDR", ["parse_ipv6addr"], 3),
                 ("IPV6PFX", ["parse_ipv6addr"], 3)]:
    for how, w in enumerate(("cv2str", "cv2cbuf", "cv_print")):
        UNITS.append(U("%s_%s" % (t.lower(), w), file=F, fn="h_print", functions=[w, "cv_parse1"] + fs, unwind=100, bmc_unwind=100,
                       defines=["PRINT", "TYPE_=CGV_" + t, "HOW=%d" % how] + (["HLEN=%d" % n] if n else [])))
for v, d in (("4", []), ("6", ["V6"])):
    f = "parse_ipv%saddr" % v
    UNITS += [U("pfx" + v, file="proofs/C08/pfx.c", fn="h_pfx", functions=["cv_parse1"], replace=["parse_int32", f], defines=d, bmc_unwind=82),
              U("addr" + v, file="proofs/C08/pfx.c", fn="h_addr", functions=[f], defines=d + ["UNIT_ADDR"], native=False, bmc=False)]
ASSUMPTIONS = ["inet_pton/inet_ntop/inet_ntoa: assumed contracts (the text of an address has no slash and reads back as that address); in the round trip a text of three characters stands for it",
               "snprintf/fprintf/cprintf/sscanf: executable models of their ISO C text, in which every number fits its zero-padded field (checked)",
               "strlen, strdup, strchr, strtoll: assumed contracts / executable models", "parse_int32: contract proved in C03"]
