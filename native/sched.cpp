// A replacement of the OpenMP runtime that executes parallel regions under the control of an explorer, and detects
// conflicting memory accesses of different threads of a team.
//
// The threads of a team are real threads, but only one of them runs at any time (a baton is passed on). The explorer
// decides which thread executes which iteration of the work-sharing loop of a region and in which order. In addition,
// code that has been compiled with "-fsanitize=thread" calls the hooks `__tsan_*` below on every memory access. As there
// is no synchronisation between the iterations of a loop (apart from critical sections and atomic operations), two
// accesses to the same memory location by different threads, at least one of which writes, are a data race regardless
// of the order in which they have been executed.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <pthread.h>
#include <vector>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_realloc(void*, size_t);
size_t malloc_usable_size(void*);
}

namespace {

// Locks of the code under test are treated like critical sections, those of this file are not
int real_lock(pthread_mutex_t* m) {
    static int (*f)(pthread_mutex_t*) = (int (*)(pthread_mutex_t*)) dlsym(RTLD_NEXT, "pthread_mutex_lock");
    return f(m);
}

int real_unlock(pthread_mutex_t* m) {
    static int (*f)(pthread_mutex_t*) = (int (*)(pthread_mutex_t*)) dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    return f(m);
}

const int MAX_THREADS = 64;

struct Team {
    int numThreads;
    void (*fn)(void*);
    void* data;
    pthread_mutex_t mutex;
    pthread_cond_t cond;
    // 0: prologue, 1: loop, 2: epilogue
    int phase;
    int turn;       // the thread that may run its prologue or epilogue
    int arrived;    // the number of threads that have reached the loop
    int finished;
    // the loop
    bool loopKnown;
    long start, end, incr;
    std::vector<int> owner;    // the thread that executes an iteration
    std::vector<int> sequence; // the order in which iterations are executed
    size_t position;
    int regionIndex;
};

// Settings
bool enabled = false;
bool raceDetection = false;
int forcedThreads = 0;
int overrideRegion = -1;
std::vector<int> overrideOwner;
int overrideOrder = 0;
int defaultPattern = 0;

// Observations
int numRegions = 0;
std::vector<long> regionIterations;
std::vector<const void*> regionFunctions;
long numAccesses = 0;
long numRaces = 0;
char raceText[4096];

__thread int tid = -1;
__thread Team* team = nullptr;
__thread int critical = 0;
__thread long current = -1;
volatile bool inRegion = false;

// ------------------------------------------------------------------------------------------------- shadow memory

struct Shadow {
    uintptr_t addr;
    uint32_t epoch;
    uint64_t readers, writers;         // bit masks of threads
    uint64_t criticalReaders, criticalWriters;
    const void* readPc;
    const void* writePc;
};

const size_t TABLE = 1 << 20;
Shadow* table = nullptr;
uint32_t epoch = 0;
std::vector<void*>* quarantine = nullptr;

void describe(const void* pc, char* out, size_t size) {
    Dl_info info;
    if (pc && dladdr(pc, &info) && info.dli_sname) {
        snprintf(out, size, "%.150s", info.dli_sname);
    } else {
        snprintf(out, size, "%p", pc);
    }
}

void report(Shadow& s, bool write, const void* pc) {
    numRaces++;
    if (numRaces <= 4) {
        char a[200], b[200];
        describe(pc, a, sizeof(a));
        describe(write ? (s.writePc ? s.writePc : s.readPc) : s.writePc, b, sizeof(b));
        char text[600];
        snprintf(text, sizeof(text), "%s by thread %d in %s conflicts with an access in %s (address %p); ",
                 write ? "write" : "read", tid, a, b, (void*) s.addr);
        strncat(raceText, text, sizeof(raceText) - strlen(raceText) - 1);
    }
}

inline void access(const void* ptr, size_t size, bool write, const void* pc) {
    if (!inRegion || !raceDetection || tid < 0) return;
    numAccesses++;
    uintptr_t begin = (uintptr_t) ptr, end = begin + size;
    uint64_t me = 1ull << tid;
    for (uintptr_t a = begin; a < end; a++) {
        size_t i = (a * 0x9E3779B97F4A7C15ull) >> 44;
        i &= TABLE - 1;
        while (table[i].epoch == epoch && table[i].addr != a) i = (i + 1) & (TABLE - 1);
        Shadow& s = table[i];
        if (s.epoch != epoch) {
            s = Shadow();
            s.epoch = epoch;
            s.addr = a;
        }
        uint64_t others = critical ? (s.writers & ~me) : ((s.writers | s.criticalWriters) & ~me);
        if (write) others |= critical ? (s.readers & ~me) : ((s.readers | s.criticalReaders) & ~me);
        if (others) {
            report(s, write, pc);
            return;
        }
        if (write) {
            (critical ? s.criticalWriters : s.writers) |= me;
            s.writePc = pc;
        } else {
            (critical ? s.criticalReaders : s.readers) |= me;
            s.readPc = pc;
        }
    }
}

// ------------------------------------------------------------------------------------------------------- schedules

int owner_of(Team* t, long k) {
    if (t->regionIndex == overrideRegion && k < (long) overrideOwner.size()) return overrideOwner[k] % t->numThreads;
    switch (defaultPattern) {
        case 0: return 0;                                // all iterations by a single thread
        case 1: return k % t->numThreads;                // round robin
        case 2: return t->numThreads - 1 - (k % t->numThreads);
        case 3: return (k / 2) % t->numThreads;          // chunks
        default: return (k * 7 + 3) % t->numThreads;
    }
}

void plan(Team* t) {
    long n = t->incr > 0 ? (t->end - t->start + t->incr - 1) / t->incr : 0;
    if (n < 0) n = 0;
    t->owner.resize(n);
    for (long k = 0; k < n; k++) t->owner[k] = owner_of(t, k);
    int order = t->regionIndex == overrideRegion ? overrideOrder : (defaultPattern == 2 ? 1 : 0);
    t->sequence.clear();
    if (order == 0) {
        for (long k = 0; k < n; k++) t->sequence.push_back(k);
    } else {
        for (int i = 0; i < t->numThreads; i++) {
            int thread = order == 1 ? t->numThreads - 1 - i : i;
            for (long k = 0; k < n; k++)
                if (t->owner[k] == thread) t->sequence.push_back(k);
        }
    }
    t->position = 0;
    regionIterations[t->regionIndex] = n;
}

bool next_iteration(Team* t, long* istart, long* iend) {
    real_lock(&t->mutex);
    if (current >= 0) {
        // The current iteration has been executed
        t->position++;
        current = -1;
        pthread_cond_broadcast(&t->cond);
    }
    bool result = false;
    for (;;) {
        bool remaining = false;
        for (size_t p = t->position; p < t->sequence.size(); p++) {
            if (t->owner[t->sequence[p]] == tid) {
                remaining = true;
                break;
            }
        }
        if (!remaining) break;
        long k = t->sequence[t->position];
        if (t->owner[k] == tid) {
            current = k;
            *istart = t->start + k * t->incr;
            *iend = *istart + t->incr;
            if (*iend > t->end) *iend = t->end;
            result = true;
            break;
        }
        pthread_cond_wait(&t->cond, &t->mutex);
    }
    if (!result) {
        // Epilogues are executed one after another when all iterations are done
        t->finished++;
        pthread_cond_broadcast(&t->cond);
        while (t->finished < t->numThreads || t->turn != t->numThreads + tid) pthread_cond_wait(&t->cond, &t->mutex);
    }
    real_unlock(&t->mutex);
    return result;
}

bool loop_start(long start, long end, long incr, long* istart, long* iend) {
    Team* t = team;
    if (!t) {
        *istart = start;
        *iend = end;
        return start < end;
    }
    real_lock(&t->mutex);
    if (!t->loopKnown) {
        t->loopKnown = true;
        t->start = start;
        t->end = end;
        t->incr = incr;
        plan(t);
    }
    t->turn = tid + 1;
    pthread_cond_broadcast(&t->cond);
    // No iteration is executed before all threads have reached the loop
    while (t->turn < t->numThreads) pthread_cond_wait(&t->cond, &t->mutex);
    real_unlock(&t->mutex);
    return next_iteration(t, istart, iend);
}

struct Arg {
    Team* team;
    int tid;
};

void run_thread(Team* t, int id) {
    team = t;
    tid = id;
    critical = 0;
    current = -1;
    real_lock(&t->mutex);
    while (t->turn != id) pthread_cond_wait(&t->cond, &t->mutex);
    real_unlock(&t->mutex);
    t->fn(t->data);
    real_lock(&t->mutex);
    if (!t->loopKnown || t->turn < t->numThreads) {
        // A region without a dynamically scheduled loop (the threads run one after another)
        t->turn = id + 1;
    } else {
        t->turn = t->numThreads + id + 1;
    }
    pthread_cond_broadcast(&t->cond);
    real_unlock(&t->mutex);
    team = nullptr;
    tid = -1;
}

void* thread_main(void* p) {
    Arg* a = (Arg*) p;
    run_thread(a->team, a->tid);
    return nullptr;
}

void run_region(void (*fn)(void*), void* data, unsigned num_threads, bool known, long start, long end, long incr) {
    if (team) {
        // Nested regions are executed sequentially
        Team* saved = team;
        team = nullptr;
        fn(data);
        team = saved;
        return;
    }
    if (!enabled) {
        fn(data);
        return;
    }
    Team t;
    t.numThreads = num_threads ? (int) num_threads : 8;
    if (forcedThreads && forcedThreads < t.numThreads) t.numThreads = forcedThreads;
    if (t.numThreads > MAX_THREADS) t.numThreads = MAX_THREADS;
    t.fn = fn;
    t.data = data;
    pthread_mutex_init(&t.mutex, nullptr);
    pthread_cond_init(&t.cond, nullptr);
    t.phase = t.turn = t.arrived = t.finished = 0;
    t.loopKnown = false;
    t.position = 0;
    t.regionIndex = numRegions++;
    regionIterations.push_back(0);
    regionFunctions.push_back((const void*) fn);
    if (known) {
        t.loopKnown = true;
        t.start = start;
        t.end = end;
        t.incr = incr;
        plan(&t);
    }
    if (raceDetection) {
        if (!table) table = (Shadow*) calloc(TABLE, sizeof(Shadow));
        epoch++;
        quarantine = new std::vector<void*>();
    }
    pthread_t threads[MAX_THREADS];
    Arg args[MAX_THREADS];
    inRegion = true;
    for (int i = 1; i < t.numThreads; i++) {
        args[i].team = &t;
        args[i].tid = i;
        pthread_create(&threads[i], nullptr, thread_main, &args[i]);
    }
    run_thread(&t, 0);
    for (int i = 1; i < t.numThreads; i++) pthread_join(threads[i], nullptr);
    inRegion = false;
    if (raceDetection) {
        std::vector<void*>* q = quarantine;
        quarantine = nullptr;
        for (void* p : *q) __libc_free(p);
        delete q;
    }
    pthread_cond_destroy(&t.cond);
    pthread_mutex_destroy(&t.mutex);
}

}

extern "C" {

// ------------------------------------------------------------------------------------------- interface of the explorer

void sched_configure(int enable, int race, int threads, int pattern) {
    enabled = enable;
    raceDetection = race;
    forcedThreads = threads;
    defaultPattern = pattern;
    overrideRegion = -1;
    numRegions = 0;
    regionIterations.clear();
    regionFunctions.clear();
    numAccesses = numRaces = 0;
    raceText[0] = 0;
}

void sched_override(int region, const int* owner, int n, int order) {
    overrideRegion = region;
    overrideOwner.assign(owner, owner + n);
    overrideOrder = order;
}

int sched_num_regions() {
    return numRegions;
}

long sched_iterations(int region) {
    return regionIterations[region];
}

const char* sched_function(int region) {
    static char text[256];
    Dl_info info;
    if (dladdr(regionFunctions[region], &info) && info.dli_fname) {
        const char* name = strrchr(info.dli_fname, '/');
        snprintf(text, sizeof(text), "%s+%lx", name ? name + 1 : info.dli_fname,
                 (unsigned long) ((uintptr_t) regionFunctions[region] - (uintptr_t) info.dli_fbase));
    } else {
        snprintf(text, sizeof(text), "?");
    }
    return text;
}

long sched_accesses() {
    return numAccesses;
}

long sched_races() {
    return numRaces;
}

const char* sched_race_text() {
    return raceText;
}

// ------------------------------------------------------------------------------------------------------------ OpenMP

void GOMP_parallel(void (*fn)(void*), void* data, unsigned num_threads, unsigned) {
    run_region(fn, data, num_threads, false, 0, 0, 0);
}

#define LOOP(name) \
    bool GOMP_loop_##name##_start(long start, long end, long incr, long, long* istart, long* iend) { \
        return loop_start(start, end, incr, istart, iend); \
    } \
    bool GOMP_loop_##name##_next(long* istart, long* iend) { \
        return team ? next_iteration(team, istart, iend) : false; \
    } \
    void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned num_threads, long start, long end, \
                                   long incr, long, unsigned) { \
        run_region(fn, data, num_threads, true, start, end, incr); \
    }

LOOP(dynamic)
LOOP(nonmonotonic_dynamic)
LOOP(guided)
LOOP(nonmonotonic_guided)
LOOP(static)

void GOMP_loop_end() {}
void GOMP_loop_end_nowait() {}
void GOMP_barrier() {}
void GOMP_critical_start() { critical++; }
void GOMP_critical_end() { critical--; }
void GOMP_critical_name_start(void**) { critical++; }
void GOMP_critical_name_end(void**) { critical--; }
void GOMP_atomic_start() { critical++; }
void GOMP_atomic_end() { critical--; }
bool GOMP_single_start() { return tid <= 0; }

int pthread_mutex_lock(pthread_mutex_t* m) {
    int result = real_lock(m);
    if (inRegion && tid >= 0) critical++;
    return result;
}

int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (inRegion && tid >= 0) critical--;
    return real_unlock(m);
}

int omp_get_thread_num() { return team ? tid : 0; }
int omp_get_num_threads() { return team ? team->numThreads : 1; }
int omp_get_max_threads() { return 8; }
int omp_get_num_procs() { return 8; }
int omp_get_thread_limit() { return 8; }
int omp_in_parallel() { return team != nullptr; }
void omp_set_num_threads(int) {}
double omp_get_wtime() { return 0; }

// ------------------------------------------------------------------------------------------------------------- memory

void free(void* p) {
    if (inRegion && quarantine && p && tid >= 0) {
        std::vector<void*>* q = quarantine;
        quarantine = nullptr;  // growing the vector must not put anything into quarantine
        q->push_back(p);
        quarantine = q;
        return;
    }
    __libc_free(p);
}

void* realloc(void* p, size_t size) {
    if (inRegion && quarantine && p && size && tid >= 0) {
        void* q = __libc_malloc(size);
        size_t old = malloc_usable_size(p);
        memcpy(q, p, old < size ? old : size);
        free(p);
        return q;
    }
    return __libc_realloc(p, size);
}

// --------------------------------------------------------------------------------------------- memory access hooks

#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_read1(void* p) { access(p, 1, false, PC); }
void __tsan_read2(void* p) { access(p, 2, false, PC); }
void __tsan_read4(void* p) { access(p, 4, false, PC); }
void __tsan_read8(void* p) { access(p, 8, false, PC); }
void __tsan_read16(void* p) { access(p, 16, false, PC); }
void __tsan_write1(void* p) { access(p, 1, true, PC); }
void __tsan_write2(void* p) { access(p, 2, true, PC); }
void __tsan_write4(void* p) { access(p, 4, true, PC); }
void __tsan_write8(void* p) { access(p, 8, true, PC); }
void __tsan_write16(void* p) { access(p, 16, true, PC); }
void __tsan_unaligned_read2(void* p) { access(p, 2, false, PC); }
void __tsan_unaligned_read4(void* p) { access(p, 4, false, PC); }
void __tsan_unaligned_read8(void* p) { access(p, 8, false, PC); }
void __tsan_unaligned_write2(void* p) { access(p, 2, true, PC); }
void __tsan_unaligned_write4(void* p) { access(p, 4, true, PC); }
void __tsan_unaligned_write8(void* p) { access(p, 8, true, PC); }
void __tsan_read_range(void* p, size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
int8_t __tsan_atomic8_load(const volatile int8_t* p, int) { return __atomic_load_n(p, 5); }
int32_t __tsan_atomic32_load(const volatile int32_t* p, int) { return __atomic_load_n(p, 5); }
int64_t __tsan_atomic64_load(const volatile int64_t* p, int) { return __atomic_load_n(p, 5); }
void __tsan_atomic8_store(volatile int8_t* p, int8_t v, int) { __atomic_store_n(p, v, 5); }
void __tsan_atomic32_store(volatile int32_t* p, int32_t v, int) { __atomic_store_n(p, v, 5); }
void __tsan_atomic64_store(volatile int64_t* p, int64_t v, int) { __atomic_store_n(p, v, 5); }
int32_t __tsan_atomic32_fetch_add(volatile int32_t* p, int32_t v, int) { return __atomic_fetch_add(p, v, 5); }
int64_t __tsan_atomic64_fetch_add(volatile int64_t* p, int64_t v, int) { return __atomic_fetch_add(p, v, 5); }
int32_t __tsan_atomic32_fetch_sub(volatile int32_t* p, int32_t v, int) { return __atomic_fetch_sub(p, v, 5); }
int64_t __tsan_atomic64_fetch_sub(volatile int64_t* p, int64_t v, int) { return __atomic_fetch_sub(p, v, 5); }
int32_t __tsan_atomic32_exchange(volatile int32_t* p, int32_t v, int) { return __atomic_exchange_n(p, v, 5); }
int64_t __tsan_atomic64_exchange(volatile int64_t* p, int64_t v, int) { return __atomic_exchange_n(p, v, 5); }
int __tsan_atomic32_compare_exchange_strong(volatile int32_t* p, int32_t* c, int32_t v, int, int) {
    return __atomic_compare_exchange_n(p, c, v, false, 5, 5);
}
int __tsan_atomic64_compare_exchange_strong(volatile int64_t* p, int64_t* c, int64_t v, int, int) {
    return __atomic_compare_exchange_n(p, c, v, false, 5, 5);
}
int __tsan_atomic32_compare_exchange_weak(volatile int32_t* p, int32_t* c, int32_t v, int, int) {
    return __atomic_compare_exchange_n(p, c, v, false, 5, 5);
}
int __tsan_atomic64_compare_exchange_weak(volatile int64_t* p, int64_t* c, int64_t v, int, int) {
    return __atomic_compare_exchange_n(p, c, v, false, 5, 5);
}
int32_t __tsan_atomic32_compare_exchange_val(volatile int32_t* p, int32_t c, int32_t v, int, int) {
    __atomic_compare_exchange_n(p, &c, v, false, 5, 5);
    return c;
}
int64_t __tsan_atomic64_compare_exchange_val(volatile int64_t* p, int64_t c, int64_t v, int, int) {
    __atomic_compare_exchange_n(p, &c, v, false, 5, 5);
    return c;
}
void __tsan_atomic_thread_fence(int) {}
}
