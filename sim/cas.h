// Seam for weak compare-exchange: force-included before <atomic>, lets the
// simulator make a weak compare-exchange fail spuriously.
#pragma once
#ifdef __cplusplus
extern "C" bool sim_spurious_cas(void const volatile* p);
template <typename P, typename E, typename D>
inline __attribute__((always_inline)) bool sim_cas_hook(P* p, E* e, D d, bool weak, int, int) {
  if (weak && sim_spurious_cas(p)) {
    __atomic_load(p, e, __ATOMIC_RELAXED);
    return false;
  }
  return __atomic_compare_exchange_n(p, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
}
template <typename P, typename E, typename D>
inline __attribute__((always_inline)) bool sim_cas_hook_g(P* p, E* e, D* d, bool weak, int, int) {
  if (weak && sim_spurious_cas(p)) {
    __atomic_load(p, e, __ATOMIC_RELAXED);
    return false;
  }
  return __atomic_compare_exchange(p, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
}
#define __atomic_compare_exchange_n sim_cas_hook
#define __atomic_compare_exchange sim_cas_hook_g
#endif
