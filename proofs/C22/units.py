LEVEL = "proof"
F = "proofs/C22/ph.c"
UNITS = [
    U("settings", file=F, fn="h_settings", dfcc=False, unwind=6, bmc_unwind=6, functions=["cligen_ph_name_get", "cligen_ph_name_set", "cligen_ph_prompt_get", "cligen_ph_prompt_set", "cligen_ph_pipe_get", "cligen_ph_pipe_set", "cligen_ph_workpoint_get", "cligen_ph_workpoint_set", "cligen_ph_parsetree_get", "cligen_ph_parsetree_set", "cligen_ph_free", "cligen_ph_add"]),
    U("find", file=F, fn="h_find", defines=["FIND"], dfcc=False, loops=True, calls=["cligen_ph_each:each_contract"], functions=["cligen_ph_find"], bmc_unwind=6),
    U("list", file=F, fn="h_list", kind="bounded", unwind=6, bound="at most 4 trees", functions=["cligen_ph_add", "cligen_ph_each", "cligen_ph_i", "cligen_ph_find", "cligen_ph_active_get", "cligen_ph_active_set_byname", "cligen_pt_active_get", "cligen_wp_set", "cligen_wp_up", "cligen_wp_top"]),
]
ASSUMPTIONS = ["strdup: assumed contract on one-character texts", "unit find: trees alike but two arbitrary ones; cligen_ph_each by its contract (shown, bounded, in unit list)", "unit settings: the tree set has at most 3 nodes at top level"]
