#include "c21.h"
thrd_local(trio, v_trio, NULL)
thrd_local(big, v_big, NULL)
thrd_local_plain(int, p_int, 0)
thrd_local_plain(trio *, p_ptr, NULL)
thrd_static(int, v_priv, NULL)            /* the other unit has its own of the same name */
thrd_static(trio, v_own, 0)
thrd_static_plain(short, s_small, 3)
thrd_static_plain(double, s_dbl, 0)
PVAR(b, trio, v_trio) PVAR(b, double, v_dbl) PVAR(b, big, v_big) PVAR(b, int, v_priv) PVAR(b, trio, v_own) PVAR(b, memory_t, raii)
NVAR(b, int, p_int) NVAR(b, long, p_neg) NVAR(b, trio *, p_ptr) NVAR(b, short, s_small) NVAR(b, double, s_dbl)
const pvar b_p[NP] = { PROW(b, trio, v_trio), PROW(b, double, v_dbl), PROW(b, big, v_big), PROW(b, int, v_priv), PROW(b, trio, v_own), PROW(b, memory_t, raii) };
const nvar b_n[NN] = { NROW(b, int, p_int, 0), NROW(b, long, p_neg, (uint64_t)-7), NROW(b, trio *, p_ptr, 0), NROW(b, short, s_small, 3), NROW(b, double, s_dbl, 0) };
