LEVEL = "proof"
F = "proofs/C05/range.c"
T = [("int8", "int8_t"), ("int16", "int16_t"), ("int32", "int32_t"), ("int64", "int64_t"),
     ("uint8", "uint8_t"), ("uint16", "uint16_t"), ("uint32", "uint32_t"), ("uint64", "uint64_t")]
FN = ["cv_validate", "range_check"]
UNITS = [U(n, file=F, fn="h_validate", loops=True, replace=["outofrange", "outoflength"], functions=FN + ["cv_%s_get" % n],
           defines=["T_=" + t, "CGV_=CGV_" + n.upper(), "MEMBER_=var_" + n]) for n, t in T]
UNITS += [U("dec64", file=F, fn="h_validate", loops=True, replace=["outofrange", "outoflength"], functions=FN,
            defines=["T_=int64_t", "CGV_=CGV_DEC64", "MEMBER_=var_dec64_i", "DEC"]),
          U("length", file=F, fn="h_validate", loops=True, replace=["outofrange", "outoflength"], functions=FN,
            defines=["T_=uint64_t", "CGV_=CGV_UINT64", "MEMBER_=var_uint64", "STRLEN"]),
          U("outofrange", file=F, fn="h_oor", enforce="outofrange", loops=True, replace=["cv2cbuf"], defines=["MSG"], native=False, bmc=False),
          U("outoflength", file=F, fn="h_oor", enforce="outoflength", loops=True, replace=["cv2cbuf"], defines=["MSG", "LENGTH"], native=False, bmc=False),
          ]
ASSUMPTIONS = ["strlen: assumed contract; cvec_i: replaced by its contract (element j, always the same; proved in C02)",
               "interval bounds of a decimal64 restriction carry the restriction's own number of fraction digits (as the specification parser makes them)"]
