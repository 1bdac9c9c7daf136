LEVEL = "proof"
F = "proofs/C23/cb.c"
N = dict(native_flags=["-Wl,--unresolved-symbols=ignore-all"])
UNITS = [
    U("eval", file=F, fn="h_eval_ok", dfcc=False, loops=True, unwind=2, calls=["co_callback_next:next_contract", "cligen_eval_pipe_pre:pre_contract", "cligen_eval_pipe_post:post_contract"], functions=["cligen_eval"], bmc_unwind=6, **N),
    U("free", file=F, fn="h_free", dfcc=False, loops=True, calls=["co_callback_next:next_contract", "co_callback_one_free:one_free_contract"], functions=["co_callbacks_free"], bmc=False, native=False),
    U("one_free", file=F, fn="h_one_free", defines=["COPY"], dfcc=False, functions=["co_callback_one_free"], bmc_unwind=6, **N),
    U("copy", file=F, fn="h_copy", kind="bounded", defines=["COPY"], unwind=6, bound="at most 3 callbacks", functions=["co_callback_copy", "co_callbacks_free", "co_callback_next"], **N),
]
ASSUMPTIONS = ["units eval, free: each callback but two arbitrary ones has arbitrary contents every time it is visited; co_callback_next by its contract (the next of the list)", "cvec_dup: assumed contract (C03)", "no evaluation wrapper function", "start and end of pipe processes: assumed contracts"]
