// Linked into the scratch build of the real module for replays: runs the work-sharing entry points with callbacks that count how
// often each element was handed out, and whether a unit was still running when the call returned.
#include <stdint.h>
#include <string.h>
#include "atop/threads.h"

struct vp_log {
    uint8_t* count;
    int64_t n;
    volatile int64_t running;
    volatile int64_t late;
    volatile int64_t bad;
    volatile int64_t closed;
};

static int64_t vp_cb_chunk(void* a, int core, int64_t start, int64_t length) {
    vp_log* L = (vp_log*)a;
    if (L->closed) __sync_fetch_and_add(&L->late, 1);
    if (start < 0 || length <= 0 || start + length > L->n) {
        __sync_fetch_and_add(&L->bad, 1);
        return 0;
    }
    for (int64_t i = start; i < start + length; i++) __sync_fetch_and_add(&L->count[i], 1);
    if (L->closed) __sync_fetch_and_add(&L->late, 1);
    return 1;
}

static int64_t vp_cb_index(void* a, int core, int64_t index) {
    return vp_cb_chunk(a, core, index, 1);
}

extern "C" {
    // 0: every element exactly once; otherwise a code, with the element in *where
    int vp_real(int index, int64_t n, int wake, uint8_t* count, int64_t* where) {
        static vp_log logs[64];
        static int k = 0;
        vp_log* L = &logs[k++ & 63];
        memset(count, 0, n);
        L->count = count; L->n = n; L->late = 0; L->bad = 0; L->closed = 0;
        if (index) THREADER->DoMultiThreadedWork((int)n, vp_cb_index, L, wake);
        else THREADER->DoMultiThreadedChunkWork(n, vp_cb_chunk, L, wake);
        L->closed = 1;
        *where = -1;
        if (L->bad) return 3;
        for (int64_t i = 0; i < n; i++) if (count[i] != 1) { *where = i; return count[i] ? 2 : 1; }
        Sleep(1);
        for (int64_t i = 0; i < n; i++) if (count[i] != 1) { *where = i; return 4; }
        return L->late ? 4 : 0;
    }
}
