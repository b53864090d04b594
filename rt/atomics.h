/* Force-included: every atomic operation of the code under test is a scheduling point. */
#ifdef __cplusplus
extern "C" void sym_yield();
#else
void sym_yield(void);
#endif
#define __sync_bool_compare_and_swap(p, o, n) (sym_yield(), __sync_bool_compare_and_swap(p, o, n))
#define __sync_val_compare_and_swap(p, o, n) (sym_yield(), __sync_val_compare_and_swap(p, o, n))
#define __sync_add_and_fetch(p, n) (sym_yield(), __sync_add_and_fetch(p, n))
#define __sync_fetch_and_add(p, n) (sym_yield(), __sync_fetch_and_add(p, n))
#define __sync_sub_and_fetch(p, n) (sym_yield(), __sync_sub_and_fetch(p, n))
#define __sync_fetch_and_sub(p, n) (sym_yield(), __sync_fetch_and_sub(p, n))
