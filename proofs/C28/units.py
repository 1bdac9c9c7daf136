LEVEL = "proof"
F = "proofs/C28/acc.c"
S = "int8 int16 int32 int64 uint8 uint16 uint32 uint64 dec64_n dec64_i bool ipv4masklen".split()
UNITS = [U("scalar", file=F, fn="h_scalar", functions=["cv_%s_%s" % (s, g) for s in S for g in ("get", "set")]),
         U("head", file=F, fn="h_head", functions=["cv_flag", "cv_flag_set", "cv_flag_clr", "cv_type_get", "cv_type_set", "cv_const_get", "cv_const_set"]),
         U("struct", file=F, fn="h_struct", functions=["cv_ipv4addr_get", "cv_ipv4addr_set", "cv_ipv6addr_get", "cv_ipv6masklen_get", "cv_mac_get", "cv_uuid_get", "cv_void_get", "cv_void_set", "cv_time_get", "cv_time_set"]),
         U("uuid", file=F, fn="h_uuid", functions=["cv_uuid_set"], unwind=18),
         U("direct", file=F, fn="h_direct", functions=["cv_string_set_direct"]),
         U("string", file=F, fn="h_text", functions=["cv_string_set", "cv_string_get"]),
         U("strncpy", file=F, fn="h_text", functions=["cv_strncpy"], defines=["SET_=cv_string_set", "GET_=cv_string_get", "MEMBER_=var_string", "NEEDS_TEXT", "NEEDS_N"])]
for n, m in [("name", "var_name"), ("urlproto", "var_urlproto"), ("urladdr", "var_urladdr"), ("urlpath", "var_urlpath"), ("urluser", "var_urluser"), ("urlpasswd", "var_urlpasswd")]:
    UNITS.append(U(n, file=F, fn="h_text", functions=["cv_%s_set" % n, "cv_%s_get" % n], defines=["SET_=cv_%s_set" % n, "GET_=cv_%s_get" % n, "MEMBER_=" + m]))
ASSUMPTIONS = ["strdup, strncpy: assumed contracts, stated at one arbitrary position of the text", "texts shorter than 2^40"]
