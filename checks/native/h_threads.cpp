// Entry points used by the checks to drive the work-sharing code of threads.h with a recording callback.
#include "atop/threads.h"

extern "C" {
    int64_t vp_index(void* arg, int core, int64_t index);
    int64_t vp_chunk(void* arg, int core, int64_t start, int64_t length);

    void vp_run_index(int n, void* arg, int wake) {
        THREADER->DoMultiThreadedWork(n, vp_index, arg, wake);
    }

    int64_t vp_run_chunk(int64_t n, void* arg, int wake) {
        return THREADER->DoMultiThreadedChunkWork(n, vp_chunk, arg, wake);
    }
}
