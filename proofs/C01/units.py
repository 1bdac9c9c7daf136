LEVEL = "proof"
F = "proofs/C01/cbuf.c"
UNITS = [
    U("realloc", file=F, fn="h_realloc", enforce="cbuf_realloc", loops=True, checks=STD_CHECKS + ["--conversion-check", "--unsigned-overflow-check"]),
    U("append_str", file=F, fn="h_append_str", enforce="cbuf_append_str", loops=True, replace=["strlen", "strncpy"]),
    U("append_null", file=F, fn="h_append_null", loops=True, replace=["strlen", "strncpy"], functions=["cbuf_append_str", "cbuf_append_buf"]),
    U("append", file=F, fn="h_append", loops=True, functions=["cbuf_append"], unwind=4),
    U("append_buf", file=F, fn="h_append_buf", enforce="cbuf_append_buf", loops=True),
    U("cprintf", file=F, fn="h_cprintf", dfcc=False, loops=True, functions=["cprintf"]),
    U("vcprintf", file=F, fn="h_vcprintf", dfcc=False, loops=True, functions=["vcprintf"]),
    U("trunc", file=F, fn="h_trunc", enforce="cbuf_trunc"),
    U("reset", file=F, fn="h_reset", enforce="cbuf_reset"),
    U("new", file=F, fn="h_new", functions=["cbuf_new", "cbuf_new_alloc", "cbuf_alloc_set", "cbuf_alloc_get", "cbuf_free"]),
    U("access", file=F, fn="h_access", functions=["cbuf_len", "cbuf_get", "cbuf_buflen", "cprintf"]),
]
ASSUMPTIONS = ["strlen/strncpy/vsnprintf: assumed contracts (ISO C meaning), vsnprintf formats the same text in both calls",
               "malloc/realloc/memcpy: CBMC's library models (may fail)",
               "object sizes and growth parameters below 2^40"]
