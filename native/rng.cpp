/*
 * Replaces the random number generator of the rule learners by choices that are made by a model checker.
 *
 * The function `RNG::randomInt(min, max)` is interposed (LD_PRELOAD). While `rng_begin` is in effect, its results are
 * taken from a given sequence of choices (zero, as soon as the sequence is exhausted), and the number of alternatives of
 * each choice is recorded, such that all sequences of choices can be enumerated.
 *
 * The clock `std::chrono::steady_clock` may be replaced as well, such that the time only advances with random choices.
 */
#include <chrono>
#include <cstdint>
#include <dlfcn.h>
#include <mutex>
#include <time.h>
#include <vector>

static std::mutex mutex;
static bool active = false;
static std::vector<uint32_t> prefix;
static std::vector<uint32_t> alternatives;
static std::vector<uint32_t> taken;
static uint32_t fallback = 0;
static uint32_t invalid = 0;

static bool clock_active = false;
static uint64_t clock_step = 0;
static uint64_t clock_offset = 0;

// std::chrono::steady_clock::now()
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept {
    if (clock_active) {
        return time_point(duration(static_cast<int64_t>(1000000000000ULL + clock_offset)));
    }

    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return time_point(duration(static_cast<int64_t>(t.tv_sec) * 1000000000 + t.tv_nsec));
}

extern "C" {

/* Stops the clock, except for advancing it by a given number of nanoseconds for each random choice. */
void clock_begin(uint64_t step) {
    clock_step = step;
    clock_offset = 0;
    clock_active = true;
}

void clock_end() {
    clock_active = false;
    clock_step = 0;
}

void rng_begin(const uint32_t* choices, uint32_t n, uint32_t mode) {
    std::lock_guard<std::mutex> lock(mutex);
    prefix.assign(choices, choices + n);
    alternatives.clear();
    taken.clear();
    fallback = mode;
    invalid = 0;
    active = true;
}

uint32_t rng_end() {
    std::lock_guard<std::mutex> lock(mutex);
    active = false;
    return static_cast<uint32_t>(alternatives.size());
}

uint32_t rng_invalid() {
    return invalid;
}

void rng_log(uint32_t* a, uint32_t* t) {
    for (size_t i = 0; i < alternatives.size(); i++) {
        a[i] = alternatives[i];
        t[i] = taken[i];
    }
}

// RNG::randomInt(unsigned int, unsigned int)
uint32_t _ZN3RNG9randomIntEjj(void* self, uint32_t min, uint32_t max) {
    {
        std::lock_guard<std::mutex> lock(mutex);

        if (active) {
            if (max <= min) {
                invalid++;
                return min;
            }

            uint32_t n = max - min;
            size_t i = alternatives.size();
            // 0: always the first alternative, 1: always the last one, 2: cycle through the alternatives
            uint32_t choice = i < prefix.size() ? prefix[i] : fallback == 0 ? 0 : fallback == 1 ? n - 1 : i;
            choice %= n;
            clock_offset += clock_step;
            alternatives.push_back(n);
            taken.push_back(choice);
            return min + choice;
        }
    }

    typedef uint32_t (*Function)(void*, uint32_t, uint32_t);
    static Function original = reinterpret_cast<Function>(dlsym(RTLD_NEXT, "_ZN3RNG9randomIntEjj"));
    return original(self, min, max);
}
}
