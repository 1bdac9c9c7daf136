LEVEL = "proof"
F = "proofs/C20/pager.c"
N = dict(native_flags=["-Wl,--unresolved-symbols=ignore-all"])
UNITS = [
    U("scroll", file=F, fn="h_scroll", defines=["SCROLL"], dfcc=False, loops=True, functions=["cligen_output_scroll", "cli_output_reset", "cli_output_status"], bmc_unwind=8, **N),
    U("output", file=F, fn="h_output", dfcc=False, loops=True, calls=["cligen_output_scroll:scroll_contract"], functions=["cligen_output", "cligen_output_basic", "cli_pipe_output_socket_get", "cli_pipe_output_socket_set"], bmc_unwind=8, **N),
]
ASSUMPTIONS = ["strlen, strstr, memcpy: assumed contracts on the text", "vsnprintf: delivers the formatted text", "stdio delivers what it is given; write delivers a part or fails", "the height of the terminal is not reduced within a page", "text of less than 2^20 characters"]
