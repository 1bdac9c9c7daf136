char *cligen_buf(cligen_handle h){ return NULL; }
#ifdef VH_NATIVE
int cligen_buf_size(cligen_handle h){ return 0; }
int cligen_buf_increase(cligen_handle h, size_t n){ return 0; }
char *cligen_killbuf(cligen_handle h){ return NULL; }
int cligen_killbuf_size(cligen_handle h){ return 0; }
int cligen_killbuf_increase(cligen_handle h, size_t n){ return 0; }
char *hist_prev(cligen_handle h){ return ""; }
char *hist_next(cligen_handle h){ return ""; }
int hist_pos(cligen_handle h){ return 0; }
int hist_pos_set(cligen_handle h, int p){ return 0; }
int hist_last_get(cligen_handle h){ return 0; }
int hist_copy(cligen_handle h, char *p){ return 0; }
int hist_copy_prev(cligen_handle h){ return 0; }
int hist_copy_next(cligen_handle h){ return 0; }
int hist_copy_pos(cligen_handle h){ return 0; }
int hist_add(cligen_handle h, char *p){ return 0; }
#endif
