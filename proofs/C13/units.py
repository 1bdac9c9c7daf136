LEVEL = "proof"
F = "proofs/C13/line.c"
N = dict(file=F, dfcc=False, loops=True, calls=["gl_fixup:fixup_contract", "gl_putc:putc_contract"], nofail=True, native_flags=["-Wl,--unresolved-symbols=ignore-all"], bmc_unwind=14)
UNITS = [U(n, fn="h_" + n, functions=["gl_" + n], **N) for n in ["addchar", "yank", "del", "kill", "kill_begin", "kill_word", "word", "newline", "transpose"]]
UNITS += [U("show", file="proofs/C13/show.c", fn="h_show", functions=["gl_fixup", "gl_fixup_scroll", "gl_fixup_noscroll"], dfcc=False, loops=True, calls=["gl_putc:putc_contract", "gl_puts:puts_contract", "wrap_line:wrap_contract", "unwrap_line:wrap_contract"], nofail=True, native_flags=["-Wl,--unresolved-symbols=ignore-all"], bmc=False)]
UNITS += [U("room", file="proofs/C13/room.c", fn="h_room", functions=["cligen_buf_increase", "cligen_killbuf_increase", "cligen_buf", "cligen_killbuf", "cligen_buf_size", "cligen_killbuf_size"], dfcc=False, loops=True, nofail=True, native_flags=["-Wl,--unresolved-symbols=ignore-all"])]
S = dict(file="proofs/C13/search.c", dfcc=False, loops=True, nofail=True, native_flags=["-Wl,--unresolved-symbols=ignore-all"])
UNITS += [U("search", fn="h_search", functions=["search_back", "search_forw"], calls=["gl_fixup:fixup_contract", "gl_putc:putc_contract"], bmc=False, **S),
          U("update", fn="h_update", functions=["search_update"], calls=["gl_putc:putc_contract"], unwind=102, bmc=False, **S)]
ASSUMPTIONS = ["strlen, strncpy, memmove, realloc, memset, strstr: assumed contracts on the line, the deleted text and the entry found", "lines of fewer than 2^28 characters", "the history by contract (C12): any entry, or none", "the characters added are not null"]
