// Shared monitor runtime: seeded generator, event/op log that survives a crash, counters, verdicts.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <exception>
#include <stdexcept>
#include <new>
#include <random>
#include <array>
#include <atomic>
#include <fcntl.h>
#include <unistd.h>
#include <malloc.h>
#include <sys/mman.h>

#define NOSAN __attribute__((no_sanitize("address","undefined")))

namespace H {

typedef uint64_t u64;

inline u64 mix(u64 x) { x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 27; x *= 0x94d049bb133111ebULL; x ^= x >> 31; return x; }

struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(mix(seed + 0x9e3779b97f4a7c15ULL)) {}
    u64 next() { s += 0x9e3779b97f4a7c15ULL; return mix(s); }
    u64 below(u64 n) { return n == 0 ? 0 : next() % n; }
    int range(int lo, int hi) { return lo + int(below(u64(hi - lo + 1))); } // inclusive
    bool chance(int percent) { return below(100) < u64(percent); }
};

// ---------------------------------------------------------------- state file (survives a crash)
struct StateHeader { char magic[8]; u64 case_no; u64 oplen; u64 dropped; };
constexpr size_t STATE_SIZE = 1 << 17;
inline char* g_state = nullptr;
inline StateHeader* state() { return reinterpret_cast<StateHeader*>(g_state); }
inline char* oplog() { return g_state + sizeof(StateHeader); }
constexpr size_t OPLOG_SIZE = STATE_SIZE - sizeof(StateHeader);

// set in worker threads and in leak accounting: no counters, no log
inline thread_local bool quiet = false;
// identity of what has been done so far in the current case: every logged operation text (operands, functions,
// sizes) and every value given to note() enters it; seed, chunk and case number do not
inline thread_local u64 hist_id = 0;
inline void note(u64 x) { hist_id = mix(hist_id * 3 + x + 1); }
inline void op(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void op(const char* fmt, ...)
{
    char buf[512];
    va_list ap; va_start(ap, fmt);
    int k = vsnprintf(buf, sizeof(buf) - 2, fmt, ap);
    va_end(ap);
    if(k < 0) return;
    if(k > int(sizeof(buf)) - 3) k = sizeof(buf) - 3;
    u64 fh = 1469598103934665603ULL;
    for(int i = 0; i < k; ++i) fh = (fh ^ u64(static_cast<unsigned char>(buf[i]))) * 1099511628211ULL;
    note(fh);
    if(quiet) return;
    StateHeader* h = state();
    buf[k++] = '\n';
    if(h->oplen + k >= OPLOG_SIZE) { // keep the newer half
        const size_t keep = OPLOG_SIZE / 2;
        h->dropped += h->oplen - keep;
        memmove(oplog(), oplog() + h->oplen - keep, keep);
        h->oplen = keep;
    }
    memcpy(oplog() + h->oplen, buf, k);
    h->oplen += k;
}

// ---------------------------------------------------------------- arguments, counters, verdicts
struct Args {
    u64 seed = 1; u64 chunk = 0; u64 ncases = 1; std::string mode = "default"; std::string tier = "quick";
    std::string out; std::string statefile; u64 from = 0; bool verbose = false;
};
inline Args args;
inline std::map<std::string, u64> counters;
inline std::map<std::string, u64> maxima;
inline std::vector<std::string> samples;
inline std::unordered_set<u64> distinct;
inline u64 evaluations = 0, cases_run = 0;

inline void count(const char* name, u64 k = 1) { if(!quiet) counters[name] += k; }
inline void maximum(const char* name, u64 k) { if(quiet) return; u64& m = maxima[name]; if(k > m) m = k; }
// one judged, non-trivial result, identified by a hash of what was judged (for a whole history: hist_id)
inline void nontrivial(u64 h) { if(quiet) return; ++evaluations; if(distinct.size() < 400000) distinct.insert(h); else count("distinct_overflow"); }

inline std::string json_escape(const std::string& s)
{
    std::string r;
    for(unsigned char c : s) {
        if(c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if(c == '\n') r += "\\n";
        else if(c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r;
}

inline void write_out(const char* status, const std::string& sig, const std::string& msg)
{
    if(args.out.empty()) return;
    FILE* f = fopen(args.out.c_str(), "w");
    if(!f) { perror("out"); _exit(99); }
    fprintf(f, "{\"status\":\"%s\",\"sig\":\"%s\",\"msg\":\"%s\",\"case\":%llu,\"evaluations\":%llu,\"cases\":%llu,\"distinct\":%llu", status,
            json_escape(sig).c_str(), json_escape(msg).c_str(), (unsigned long long)state()->case_no,
            (unsigned long long)evaluations, (unsigned long long)cases_run, (unsigned long long)distinct.size());
    fprintf(f, ",\"counters\":{");
    bool first = true;
    for(auto& [k, v] : counters) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", k.c_str(), (unsigned long long)v); first = false; }
    fprintf(f, "},\"maxima\":{");
    first = true;
    for(auto& [k, v] : maxima) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", k.c_str(), (unsigned long long)v); first = false; }
    fprintf(f, "},\"samples\":[");
    first = true;
    for(auto& s : samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", json_escape(s).c_str()); first = false; }
    fprintf(f, "]}\n");
    fclose(f);
    FILE* d = fopen((args.out + ".distinct").c_str(), "wb");
    if(d) { for(u64 x : distinct) fwrite(&x, 8, 1, d); fclose(d); }
}

// A violation: sig is a short stable name of what failed (matched against known findings).
[[noreturn]] inline void violation(const char* sig, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] inline void violation(const char* sig, const char* fmt, ...)
{
    char buf[2048];
    va_list ap; va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    fprintf(stderr, "@@VIOLATION sig=%s case=%llu: %s\n", sig, (unsigned long long)state()->case_no, buf);
    write_out("violation", sig, buf);
    fflush(nullptr);
    _exit(77);
}
[[noreturn]] inline void harness_error(const char* msg) { fprintf(stderr, "@@HARNESS %s\n", msg); fflush(nullptr); _exit(99); }
#define REQUIRE(cond, sig, ...) do { if(!(cond)) ::H::violation(sig, __VA_ARGS__); } while(0)

struct Case { u64 no; Rng rng; bool thorough; };
} // namespace H

// each harness defines this
void run_case(H::Case& c);
// called once after all cases of the chunk
void end_of_chunk();

// ---------------------------------------------------------------- deterministic std::random_device
// The library draws hash keys from a generator seeded by std::random_device.  The process-wide seed
// is fixed by the harness, so that a chunk replays; different chunks see different keys.
namespace H { inline thread_local u64 rd_state = 0; inline u64 rd_seed = 12345; }
#ifndef H_REAL_RANDOM_DEVICE
namespace std {
    random_device::result_type random_device::_M_getval()
    {
        if(H::rd_state == 0) H::rd_state = H::mix(H::rd_seed) | 1;
        H::rd_state += 0x9e3779b97f4a7c15ULL;
        return result_type(H::mix(H::rd_state));
    }
}
#endif

// ---------------------------------------------------------------- allocation monitor (non-ASan builds)
// Fresh storage is filled with varying bytes (an uninitialised read gives a changing value), released
// storage is overwritten, sizes are accounted.
namespace H {
    struct AllocStats { std::atomic<u64> live_blocks{0}, live_bytes{0}, total_allocs{0}; };
    inline AllocStats alloc_stats;
}
#if defined(H_ALLOC_MONITOR)
namespace H {
    constexpr size_t FILL_LIMIT = 1 << 17;
    constexpr u64 LIVE = 0xA110CA7EDB10C000ULL, DEAD = 0xDEADDEADDEADDEADULL;
    // Where blocks of the size of a page of nodes lie: as malloc places them, from high to low addresses, or anywhere (by chunk).
    // The order of addresses decides in which order the library takes operands.
    struct Placement {
        static constexpr size_t SLOTS = 8192, SIZE = 160 << 10, FIRST = 32 << 10;
        int kind = 0; char* base = nullptr; size_t cur = 0; u64 rnd = 1, placed = 0; std::atomic_flag lock = ATOMIC_FLAG_INIT; bool used[SLOTS] = {};
        void start(int k, u64 seed) { if(k == 0) return; void* m = mmap(nullptr, SLOTS * SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(m == MAP_FAILED) return; base = static_cast<char*>(m); rnd = seed | 1; kind = k; }
        char* get(size_t n)
        {
            if(kind == 0 || n < FIRST || n > SIZE) return nullptr;
            while(lock.test_and_set(std::memory_order_acquire)) ;
            char* r = nullptr;
            for(int t = 0; t < 16 && !r; ++t) { cur = kind == 1 ? (cur + SLOTS - 1) % SLOTS : mix(rnd += 0x9e3779b97f4a7c15ULL) % SLOTS; if(!used[cur]) { used[cur] = true; ++placed; r = base + cur * SIZE; } }
            lock.clear(std::memory_order_release);
            return r;
        }
        bool put(char* p)
        {
            if(kind == 0 || p < base || p >= base + SLOTS * SIZE) return false;
            const size_t k = size_t(p - base) / SIZE; madvise(base + k * SIZE, SIZE, MADV_DONTNEED);
            while(lock.test_and_set(std::memory_order_acquire)) ;
            used[k] = false;
            lock.clear(std::memory_order_release);
            return true;
        }
    };
    inline Placement placement;
    inline void* m_alloc(size_t n)
    {
        char* p = placement.get(n + 32);
        if(!p) p = static_cast<char*>(malloc(n + 32));
        if(!p) throw std::bad_alloc();
        u64* h = reinterpret_cast<u64*>(p);
        h[0] = n; h[1] = LIVE;
        u64 k = alloc_stats.total_allocs.fetch_add(1, std::memory_order_relaxed) + 1;
        alloc_stats.live_blocks.fetch_add(1, std::memory_order_relaxed);
        alloc_stats.live_bytes.fetch_add(n, std::memory_order_relaxed);
        static const unsigned char pat[] = {0xFF, 0x01, 0xA5, 0x7F, 0x80, 0x5A, 0x33, 0xCC};
        memset(p + 16, pat[(k * 2654435761u >> 7) & 7], std::min(n, FILL_LIMIT));
        u64 tail = LIVE ^ n;
        memcpy(p + 16 + n, &tail, 8);
        return p + 16;
    }
    inline void m_free(void* q)
    {
        if(!q) return;
        char* p = static_cast<char*>(q) - 16;
        u64* h = reinterpret_cast<u64*>(p);
        if(h[1] != LIVE) { fprintf(stderr, "@@CRASH allocation monitor: release of storage that is not allocated\n"); abort(); }
        const size_t n = h[0];
        u64 tail; memcpy(&tail, p + 16 + n, 8);
        if(tail != (LIVE ^ n)) { fprintf(stderr, "@@CRASH allocation monitor: write past the end of a block of %zu bytes\n", n); abort(); }
        alloc_stats.live_blocks.fetch_sub(1, std::memory_order_relaxed);
        alloc_stats.live_bytes.fetch_sub(n, std::memory_order_relaxed);
        memset(q, 0xDD, std::min(n, FILL_LIMIT));
        h[1] = DEAD;
        if(!placement.put(p)) free(p);
    }
}
void* operator new(size_t n) { return H::m_alloc(n); }
void* operator new[](size_t n) { return H::m_alloc(n); }
void operator delete(void* p) noexcept { H::m_free(p); }
void operator delete[](void* p) noexcept { H::m_free(p); }
void operator delete(void* p, size_t) noexcept { H::m_free(p); }
void operator delete[](void* p, size_t) noexcept { H::m_free(p); }
#endif

int main(int argc, char** argv)
{
    using namespace H;
    for(int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if(k == "--seed") args.seed = strtoull(v.c_str(), nullptr, 10);
        else if(k == "--chunk") args.chunk = strtoull(v.c_str(), nullptr, 10);
        else if(k == "--cases") args.ncases = strtoull(v.c_str(), nullptr, 10);
        else if(k == "--mode") args.mode = v;
        else if(k == "--tier") args.tier = v;
        else if(k == "--out") args.out = v;
        else if(k == "--state") args.statefile = v;
        else harness_error("bad argument");
    }
    if(!args.statefile.empty()) {
        int fd = open(args.statefile.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if(fd < 0 || ftruncate(fd, STATE_SIZE) != 0) harness_error("state file");
        g_state = static_cast<char*>(mmap(nullptr, STATE_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        close(fd);
    } else
        g_state = static_cast<char*>(mmap(nullptr, STATE_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if(g_state == MAP_FAILED) harness_error("mmap");
    memcpy(state()->magic, "LBDDVER", 8);
    mallopt(M_MMAP_THRESHOLD, 1 << 30);
    mallopt(M_TRIM_THRESHOLD, 1 << 30);

    u64 mh = 1469598103934665603ULL;
    for(char c : args.mode) mh = (mh ^ u64(c)) * 1099511628211ULL;
    const u64 base = mix(args.seed * 1000003ULL + args.chunk * 7919ULL + mh);
    rd_seed = base | 1;
#if defined(H_ALLOC_MONITOR)
    placement.start(int(args.chunk % 3), base);
#endif
    for(u64 k = 0; k < args.ncases; ++k) {
        state()->case_no = k;
        state()->oplen = 0;
        state()->dropped = 0;
        op("# mode=%s seed=%llu chunk=%llu case=%llu", args.mode.c_str(), (unsigned long long)args.seed, (unsigned long long)args.chunk, (unsigned long long)k);
        hist_id = 0;
        Case c{k, Rng(mix(base + k * 0x51ed27fULL)), args.tier == "thorough"};
        try {
            run_case(c);
        } catch(const std::exception& e) {
            violation("unexpected-exception", "the library threw: %s", e.what());
        }
        ++cases_run;
        if(k < 1 && args.chunk < 2 && samples.size() < 3) samples.push_back(std::string(oplog(), std::min<size_t>(state()->oplen, 1500)));
    }
    end_of_chunk();
#if defined(H_ALLOC_MONITOR)
    if(placement.placed) count("blocks_placed", placement.placed);
#endif
    write_out("ok", "", "");
    return 0;
}
