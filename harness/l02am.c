/* A PE that waits for a lock, or retries a test, handles the requests of other PEs meanwhile.
 * KIND 0: test_lock retried while another PE holds the lock; 1: set_lock; 2: clear_lock waiting for its successor. */
#include "common.h"
static int reads; static volatile unsigned *next1;
static void at_atomic(void)
{
    if (++reads < 5) return;      /* the other PE acts only after several polls */
    mm_atomic_hook = 0;
#if KIND == 1
    *next1 |= 1u + INT_MAX;
#elif KIND == 2
    *next1 |= 1;
#endif
}
void harness(void)
{
    int v = 5, *x0, *x1; unsigned *l0, *l1;
    start_all();
    l0 = (unsigned *) MM_DATA(0); l1 = (unsigned *) MM_DATA(1); l0[0] = l0[1] = l1[0] = l1[1] = 0;
    x0 = (int *) MM_HEAP(0); x1 = (int *) MM_HEAP(1); x0[2] = x1[2] = 0;
    vh_switch(KIND == 2);
#if KIND == 2
    { int rc = shmem_test_lock((long *) l1); VASSERT(rc == 0, "a free lock is obtained"); }
#else
    l0[0] = 1;                    /* PE 0 holds the lock */
#endif
    vh_switch(0);
    shmem_int_atomic_set(x0 + 2, v, 1);
    vh_switch(1);
    next1 = l1 + 1;
#if KIND == 0
    { int rc = shmem_test_lock((long *) l1); VASSERT(rc == 1, "a lock held by another PE is not obtained"); }
#elif KIND == 1
    mm_atomic_hook = at_atomic;
    shmem_set_lock((long *) l1);
#else
    l0[0] = 1;                    /* PE 0 is queued but PE 1 does not know yet */
    mm_atomic_hook = at_atomic;
    shmem_clear_lock((long *) l1);
#endif
    VASSERT(x1[2] == v, "requests of other PEs are handled while the lock is awaited");
    VWITNESS("request sent");
}
