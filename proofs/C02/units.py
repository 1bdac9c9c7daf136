LEVEL = "proof"
F = "proofs/C02/cvec.c"
UNITS = [
    U("add", file=F, fn="h_add", dfcc=False, functions=["cvec_add", "cvec_len", "cvec_i"]),
    U("del_i", file=F, fn="h_del_i", dfcc=False, functions=["cvec_del_i"]),
    U("del", file=F, fn="h_del", dfcc=False, loops=True, calls=["cvec_each:each_contract"], functions=["cvec_del"]),
    U("index", file=F, fn="h_index", dfcc=False, functions=["cvec_i", "cvec_i_str", "cvec_len", "cvec_each", "cvec_each1", "cvec_next"]),
    U("find", file=F, fn="h_find", dfcc=False, loops=True, calls=["cvec_each:each_contract"], functions=["cvec_find"], defines=["NULLNAME", "WHICH=find", "CALL=cvec_find"]),
    U("find_keyword", file=F, fn="h_find", dfcc=False, loops=True, calls=["cvec_each:each_contract"], functions=["cvec_find_keyword"], defines=["WHICH=key", "CALL=cvec_find_keyword"]),
    U("find_var", file=F, fn="h_find", dfcc=False, loops=True, calls=["cvec_each:each_contract"], functions=["cvec_find_var"], defines=["WHICH=var", "CALL=cvec_find_var"]),
]
ASSUMPTIONS = ["realloc, memmove: assumed contracts, stated at one arbitrary element of the vector (memmove: and only that it moves bytes)",
               "strcmp: its result is a function of the name compared", "vectors of fewer than 2^28 elements"]
