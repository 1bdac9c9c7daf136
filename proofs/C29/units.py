LEVEL = "proof"
F = "proofs/C29/opts.c"
UNITS = [
    U("options", file=F, fn="h_options", functions=['cligen_exiting', 'cligen_exiting_set', 'cligen_comment', 'cligen_comment_set', 'cligen_tabmode', 'cligen_tabmode_set', 'cligen_logsyntax', 'cligen_logsyntax_set', 'cligen_userhandle', 'cligen_userhandle_set', 'cligen_userdata', 'cligen_userdata_set', 'cligen_regex_xsd', 'cligen_regex_xsd_set', 'cligen_delimiter', 'cligen_delimiter_set', 'cligen_preference_mode', 'cligen_preference_mode_set', 'cligen_caseignore_get', 'cligen_caseignore_set', 'cligen_expand_first_get', 'cligen_expand_first_set', 'cligen_exclude_keys_get', 'cligen_exclude_keys_set', 'cligen_co_match', 'cligen_co_match_set', 'cligen_callback_arguments_get', 'cligen_callback_arguments_set', 'cligen_pt_head_get', 'cligen_pt_head_set', 'cligen_pt_head_active_get', 'cligen_pt_head_active_set', 'cligen_paging_get', 'cligen_paging_set', 'cligen_utf8_get', 'cligen_utf8_set', 'cligen_line_scrolling', 'cligen_line_scrolling_set', 'cligen_helpstring_truncate', 'cligen_helpstring_truncate_set', 'cligen_helpstring_lines', 'cligen_helpstring_lines_set', 'cligen_lexicalorder', 'cligen_lexicalorder_set', 'cligen_ignorecase', 'cligen_ignorecase_set', 'cligen_terminal_width', 'cligen_terminal_width_set', 'cligen_terminal_rows', 'cligen_terminal_rows_set', 'cligen_hist_fn_get', 'cligen_hist_fn_set', 'cligen_eval_wrap_fn_get', 'cligen_eval_wrap_fn_set', 'cligen_tree_resolve_wrapper_get', 'cligen_tree_resolve_wrapper_set', 'cligen_prompt', 'cligen_prompt_set', 'cligen_treename_keyword', 'cligen_treename_keyword_set', 'cligen_fn_str_get', 'cligen_fn_str_set'], dfcc=False, unwind=70, bmc_unwind=70, native_flags=["-Wno-everything"]),
    U("life", file=F, fn="h_life", functions=["cligen_init", "cligen_exit", "cligen_check", "cligen_buf_init", "cligen_buf_cleanup"], dfcc=False, unwind=70, bmc_unwind=70),
] + [U("text_%s" % n, file="proofs/C29/text.c", fn="h_text", defines=["W=%d" % i], calls=["strdup:m_strdup", "strlen:m_strlen", "strcmp:m_strcmp", "strncmp:m_strncmp", "free:m_free"], dfcc=False, bmc=False,
        functions=["cligen_%s" % ("fn_str_get" if i == 2 else n), "cligen_%s_set" % n], native_srcs=["$REPO/cligen_%s.c" % s for s in ("getline", "history", "pt_head", "cvec", "cv", "buf", "parsetree", "object", "callback")], native_flags=["-Wl,--unresolved-symbols=ignore-all"]) for i, n in enumerate(["prompt", "treename_keyword", "fn_str"])]
ASSUMPTIONS = ["strlen, strcmp, strncmp: assumed contracts", "isatty, ioctl(TIOCGWINSZ): arbitrary answers, but the same answer throughout", "strdup: assumed contract on one-character texts", "hist_exit, cligen_hist_init, cligen_ph_free, cliread_init: stubs (their own properties are C12, C22)"]
