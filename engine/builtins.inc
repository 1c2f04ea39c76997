// names of functions the engine implements itself
enum {
    B_sx_sym, B_sx_assume, B_sx_check, B_sx_fail, B_sx_param, B_sx_observe, B_sx_conc, B_sx_reach, B_sx_live_heap, B_sx_end, B_sx_is_native, B_sx_pick,
    B_malloc, B_calloc, B_realloc, B_free, B_aligned_alloc, B_posix_memalign,
    B_new, B_newa, B_newn, B_newan, B_newal, B_newaal, B_del, B_dels, B_dela, B_delas, B_deln, B_delan, B_delal, B_delsal, B_delaal, B_delasal,
    B_memcpy, B_memmove, B_memset, B_memcmp, B_bcmp, B_memchr, B_mempcpy,
    B_sx_unwind, B_sx_terminate, B_abort, B_assert_fail, B_exit, B_exit2, B_atexit, B_cxa_thread_atexit, B_sx_exc_alloc, B_sx_exc_free,
    B_sx_th_create, B_sx_th_join, B_sx_self, B_mutex_lock, B_mutex_unlock, B_mutex_trylock, B_sx_cond_wait, B_sx_cond_timedwait, B_cond_signal, B_cond_broadcast,
    B_sx_futex_wait, B_sx_futex_wake, B_sx_now, B_sx_sleep_until, B_sx_yield, B_sx_nthreads, B_sx_fmt, B_sx_debug, B_sx_obj_check, B_sx_advance, B_sx_point, B_sx_quiesce, B_sx_strtold, B_sx_set_alloc_fail,
    B_N
};
static const char* builtinNames[] = {
    "sx_sym", "sx_assume", "sx_check", "sx_fail", "sx_param", "sx_observe", "sx_conc", "sx_reach", "sx_live_heap", "sx_end", "sx_is_native", "sx_pick",
    "malloc", "calloc", "realloc", "free", "aligned_alloc", "posix_memalign",
    "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvRKSt9nothrow_t", "_ZdaPvRKSt9nothrow_t", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t",
    "memcpy", "memmove", "memset", "memcmp", "bcmp", "memchr", "mempcpy",
    "sx_unwind", "sx_terminate", "abort", "__assert_fail", "exit", "_Exit", "__cxa_atexit", "__cxa_thread_atexit", "sx_exc_alloc", "sx_exc_free",
    "sx_th_create", "sx_th_join", "sx_self", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "sx_cond_wait", "sx_cond_timedwait", "pthread_cond_signal", "pthread_cond_broadcast",
    "sx_futex_wait", "sx_futex_wake", "sx_now", "sx_sleep_until", "sx_yield", "sx_nthreads", "sx_fmt", "sx_debug", "sx_obj_check", "sx_advance", "sx_point", "sx_quiesce", "sx_strtold", "sx_set_alloc_fail",
    nullptr
};
