// A small property-based testing engine built on a choice tape.
//
// A test case is a function of a finite list of integer choices ("the tape"). The random driver draws the choices from
// a seeded generator and records them; replaying the recorded tape reproduces the case bit for bit, and shrinking works
// on the tape alone (delete, zero or lower choices), so every generator shrinks without further code. Missing choices
// read as 0, and generators are written so that 0 is the simplest alternative.
//
// Modes of a harness binary:
//   run     --seed N --shard K --shards M --cases N --out DIR   search (writes stats / the failing tape to DIR)
//   replay  --tape FILE [--log FILE]                             one case; exit 0 = passes, 3 = fails, other = crash
//   shrink  --tape FILE --out FILE [--budget N]                  minimises a failing tape, each candidate in a child
//   bytes   --in FILE --out FILE                                 turns a fuzzer input into a tape
// With -DPBT_FUZZ the same case function becomes a libFuzzer target.
#ifndef PBT_H_
#define PBT_H_

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <ctime>
#include <algorithm>
#include <functional>
#include <initializer_list>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_ASAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define PBT_ASAN 1
#endif
#ifdef PBT_ASAN
extern "C" size_t __sanitizer_get_allocated_size(const volatile void*);
extern "C" int __sanitizer_install_malloc_and_free_hooks(
    void (*malloc_hook)(const volatile void*, size_t), void (*free_hook)(const volatile void*));
#endif

namespace pbt {

struct Failure
{
    std::string message;
};
struct Discard
{
};

inline uint64_t mix(uint64_t z)
{
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

struct Rng
{
    uint64_t state;
    explicit Rng(uint64_t seed = 1) : state(mix(seed))
    {
    }
    uint64_t next()
    {
        state += 0x9E3779B97F4A7C15ull;
        uint64_t z = state;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
};

constexpr size_t MaxTape = 1u << 16;

// Survives a crash of the process (mapped from a file or shared with the parent)
struct Shared
{
    uint64_t evaluations;
    uint64_t case_index;
    uint64_t status; // 0 running, 1 passed, 2 failed, 3 discarded, 4 hang
    uint64_t length;
    uint64_t tape[MaxTape];
    char message[8192];
    char log[65536];
};

// ---------------------------------------------------------------------------------------------------------------------
// Source of choices
// ---------------------------------------------------------------------------------------------------------------------
class Src
{
public:
    enum Mode
    {
        Random,
        Tape,
        Bytes
    };

    Src(Mode mode, Shared* shared) : mode_(mode), shared_(shared)
    {
        shared_->length = 0;
    }

    Rng rng;
    const std::vector<uint64_t>* tape = nullptr;
    const uint8_t* bytes = nullptr;
    size_t byte_count = 0;

    // Uniform in [0, max]
    uint64_t draw(uint64_t max)
    {
        uint64_t value = 0;
        if (count_ >= MaxTape)
        {
            throw Discard{};
        }
        switch (mode_)
        {
            case Random:
                value = max == UINT64_MAX ? rng.next() : bounded(max + 1);
                break;
            case Tape:
                value = count_ < tape->size() ? std::min((*tape)[count_], max) : 0;
                break;
            case Bytes:
            {
                uint64_t need = 0, m = max;
                while (m)
                {
                    ++need;
                    m >>= 8;
                }
                for (uint64_t i = 0; i < need && pos_ < byte_count; ++i)
                {
                    value = (value << 8) | bytes[pos_++];
                }
                if (max != UINT64_MAX)
                {
                    value %= max + 1;
                }
                break;
            }
        }
        shared_->tape[count_++] = value;
        shared_->length = count_;
        return value;
    }

    bool exhausted() const
    {
        return mode_ == Bytes && pos_ >= byte_count;
    }

    // lo..hi inclusive, simplest = lo
    int64_t range(int64_t lo, int64_t hi)
    {
        return static_cast<int64_t>(static_cast<uint64_t>(lo) + draw(static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo)));
    }
    size_t below(size_t n)
    {
        return n == 0 ? 0 : static_cast<size_t>(draw(n - 1));
    }
    bool flip()
    {
        return draw(1) != 0;
    }
    // true with probability num/den; false is the simple case
    bool chance(unsigned num, unsigned den)
    {
        return draw(den - 1) >= den - num;
    }
    // index chosen by weight; index 0 is the simplest
    size_t weighted(std::initializer_list<unsigned> weights)
    {
        uint64_t sum = 0;
        for (auto w : weights)
        {
            sum += w;
        }
        uint64_t v = draw(sum - 1);
        size_t i = 0;
        for (auto w : weights)
        {
            if (v < w)
            {
                return i;
            }
            v -= w;
            ++i;
        }
        return 0;
    }
    template <typename T>
    const T& pick(const std::vector<T>& items)
    {
        return items[below(items.size())];
    }
    template <typename T>
    T pick(std::initializer_list<T> items)
    {
        return *(items.begin() + below(items.size()));
    }
    // Lengths: mostly small, sometimes up to max, sometimes at a boundary
    size_t length(size_t max)
    {
        static const size_t bounds[] = {0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025};
        switch (weighted({6, 3, 1}))
        {
            case 0:
                return below(std::min<size_t>(max, 6) + 1);
            case 1:
                return below(std::min<size_t>(max, 40) + 1);
            default:
            {
                size_t n = bounds[below(sizeof bounds / sizeof *bounds)];
                return n <= max ? n : below(max + 1);
            }
        }
    }

private:
    uint64_t bounded(uint64_t n)
    {
        const uint64_t limit = UINT64_MAX - UINT64_MAX % n;
        uint64_t v;
        do
        {
            v = rng.next();
        } while (v >= limit);
        return v % n;
    }

    Mode mode_;
    Shared* shared_;
    size_t count_ = 0;
    size_t pos_ = 0;
};

// ---------------------------------------------------------------------------------------------------------------------
// Per-case context
// ---------------------------------------------------------------------------------------------------------------------
inline std::string show(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        char b[8];
        if (c == '"' || c == '\\')
        {
            r += '\\';
            r += static_cast<char>(c);
        }
        else if (c >= 0x20 && c < 0x7F)
        {
            r += static_cast<char>(c);
        }
        else
        {
            snprintf(b, sizeof b, "\\x%02x", c);
            r += b;
        }
    }
    return r + "\"";
}

class Ctx
{
public:
    std::ostringstream log;          // readable form of the case, step by step
    std::set<std::string> classes;   // classification labels
    bool nontrivial = false;
    std::string* message = nullptr;

    void label(const char* name)
    {
        classes.insert(name);
    }
    void label_if(bool cond, const char* name)
    {
        if (cond)
        {
            classes.insert(name);
        }
    }
    [[noreturn]] void fail(const std::string& text)
    {
        throw Failure{text};
    }
    void check(bool cond, const std::string& text)
    {
        if (!cond)
        {
            throw Failure{text};
        }
    }
    template <typename A, typename B>
    void eq(const A& actual, const B& expected, const char* what)
    {
        if (!(actual == expected))
        {
            std::ostringstream o;
            o << what << ": got " << print(actual) << ", expected " << print(expected);
            throw Failure{o.str()};
        }
    }
    static std::string print(const std::string& s)
    {
        return show(s);
    }
    static std::string print(const char* s)
    {
        return show(s);
    }
    template <typename T>
    static std::string print(const T& v)
    {
        std::ostringstream o;
        o << v;
        return o.str();
    }
    // f must throw something derived from std::exception
    template <typename F>
    void must_throw(F f, const char* what)
    {
        try
        {
            f();
        }
        catch (const Failure&)
        {
            throw;
        }
        catch (const std::exception&)
        {
            return;
        }
        throw Failure{std::string(what) + ": expected an exception, none was thrown"};
    }
};

using CaseFn = void (*)(Src&, Ctx&);

struct Config
{
    const char* id;
    CaseFn fn;
    uint64_t exhaustive = 0;                        // number of enumerated cases (0: none)
    void (*exhaustive_fn)(uint64_t, Ctx&) = nullptr;
    bool track_leaks = false;                       // every case must free what it allocated
    double cpu_limit = 20;                          // CPU seconds one case may take
};

// ---------------------------------------------------------------------------------------------------------------------
// Allocation balance (counts malloc/free through the sanitizer's hooks)
// ---------------------------------------------------------------------------------------------------------------------
inline int64_t& live_blocks()
{
    static int64_t n = 0;
    return n;
}
inline Shared*& current()
{
    static Shared* s = nullptr;
    return s;
}

inline int64_t& live_bytes()
{
    static int64_t n = 0;
    return n;
}
constexpr int64_t MaxBytes = int64_t{2} << 30;
inline void on_malloc(const volatile void* p, size_t n)
{
    if (p)
    {
        ++live_blocks();
        live_bytes() += static_cast<int64_t>(n);
        if (live_bytes() > MaxBytes && current())
        {
            current()->status = 4;
            strcpy(current()->message, "the case needs more than 2 GB of memory");
            _exit(7);
        }
    }
}
inline void on_free(const volatile void* p)
{
#ifdef PBT_ASAN
    if (p)
    {
        --live_blocks();
        live_bytes() -= static_cast<int64_t>(__sanitizer_get_allocated_size(p));
    }
#endif
}
inline void install_hooks()
{
#ifdef PBT_ASAN
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#endif
}

inline void copy_text(char* dst, size_t cap, const std::string& text)
{
    const size_t n = std::min(cap - 1, text.size());
    memcpy(dst, text.data(), n);
    dst[n] = 0;
}

inline void on_cpu_limit(int)
{
    if (current())
    {
        current()->status = 4;
        strcpy(current()->message, "the case does not terminate (CPU limit reached)");
    }
    _exit(7);
}
inline void arm(double seconds)
{
    itimerval t{};
    t.it_value.tv_sec = static_cast<time_t>(seconds);
    setitimer(ITIMER_PROF, &t, nullptr);
}

enum Outcome
{
    Passed = 1,
    Failed = 2,
    Discarded = 3
};

struct Result
{
    Outcome outcome;
    std::string message;
    std::string log;
    std::set<std::string> classes;
    bool nontrivial;
    int64_t leaked;
};

inline Result run_once(const Config& cfg, const std::function<void(Ctx&)>& body)
{
    Result r{};
    const int64_t before = live_blocks();
    int64_t extra = 0;
    {
        Ctx ctx;
        try
        {
            body(ctx);
            r.outcome = Passed;
        }
        catch (const Failure& f)
        {
            r.outcome = Failed;
            r.message = f.message;
        }
        catch (const Discard&)
        {
            r.outcome = Discarded;
        }
        catch (const std::exception& e)
        {
            r.outcome = Failed;
            r.message = std::string("unexpected exception: ") + e.what();
        }
        catch (...)
        {
            r.outcome = Failed;
            r.message = "unexpected exception of a non-standard type";
        }
        const int64_t b = live_blocks();
        r.log = ctx.log.str();
        r.classes = ctx.classes;
        extra = live_blocks() - b;
        r.nontrivial = ctx.nontrivial;
    }
    r.leaked = live_blocks() - before - extra;
    (void)cfg;
    return r;
}

// One case, including the leak rule: a case that leaves more blocks than before is repeated (lazily initialised statics
// are warm by then) and fails if it does so three times in a row.
inline Result run_case(const Config& cfg, Shared* shared, const std::function<void(Ctx&)>& body)
{
    shared->status = 0;
    shared->message[0] = 0;
    arm(cfg.cpu_limit);
    Result r = run_once(cfg, body);
    if (cfg.track_leaks && r.outcome == Passed && r.leaked > 0)
    {
        bool leaks = true;
        for (int i = 0; i < 2 && leaks; ++i)
        {
            Result again = run_once(cfg, body);
            leaks = again.outcome == Passed && again.leaked > 0;
        }
        if (leaks)
        {
            r.outcome = Failed;
            r.message = "memory allocated by the case was not freed (" + std::to_string(r.leaked) + " blocks)";
        }
    }
    shared->status = r.outcome;
    if (r.outcome == Failed)
    {
        copy_text(shared->message, sizeof shared->message, r.message);
        copy_text(shared->log, sizeof shared->log, r.log);
    }
    return r;
}

inline Result run_random(const Config& cfg, Shared* shared, uint64_t case_seed)
{
    return run_case(
        cfg, shared,
        [&](Ctx& ctx)
        {
            Src src(Src::Random, shared);
            src.rng = Rng(case_seed);
            cfg.fn(src, ctx);
        });
}

// A tape starting with ExhaustiveMark denotes an enumerated case
constexpr uint64_t ExhaustiveMark = 0xE8A0E8A0E8A0E8A0ull;

inline Result run_tape(const Config& cfg, Shared* shared, const std::vector<uint64_t>& tape)
{
    return run_case(
        cfg, shared,
        [&](Ctx& ctx)
        {
            if (tape.size() == 2 && tape[0] == ExhaustiveMark)
            {
                shared->tape[0] = tape[0];
                shared->tape[1] = tape[1];
                shared->length = 2;
                cfg.exhaustive_fn(tape[1], ctx);
                return;
            }
            Src src(Src::Tape, shared);
            src.tape = &tape;
            cfg.fn(src, ctx);
        });
}

inline uint64_t hash_text(const std::string& s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s)
    {
        h = (h ^ c) * 1099511628211ull;
    }
    return h;
}

inline std::string json(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        char b[8];
        if (c == '"' || c == '\\')
        {
            r += '\\';
            r += static_cast<char>(c);
        }
        else if (c < 0x20 || c >= 0x7F)
        {
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else
        {
            r += static_cast<char>(c);
        }
    }
    return r + "\"";
}

inline std::vector<uint64_t> read_tape(const std::string& path)
{
    std::vector<uint64_t> t;
    FILE* f = fopen(path.c_str(), "r");
    if (!f)
    {
        fprintf(stderr, "cannot read %s\n", path.c_str());
        exit(9);
    }
    unsigned long long v;
    while (fscanf(f, "%llu", &v) == 1)
    {
        t.push_back(v);
    }
    fclose(f);
    return t;
}
inline void write_tape(const std::string& path, const uint64_t* data, size_t n)
{
    FILE* f = fopen(path.c_str(), "w");
    for (size_t i = 0; i < n; ++i)
    {
        fprintf(f, "%llu\n", static_cast<unsigned long long>(data[i]));
    }
    fclose(f);
}

inline Shared* map_shared(const char* path)
{
    int fd = -1;
    int flags = MAP_SHARED | MAP_ANONYMOUS;
    if (path)
    {
        fd = open(path, O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0)
        {
            perror(path);
            exit(9);
        }
        flags = MAP_SHARED;
    }
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, flags, fd, 0);
    if (p == MAP_FAILED)
    {
        perror("mmap");
        exit(9);
    }
    if (fd >= 0)
    {
        close(fd);
    }
    return static_cast<Shared*>(p);
}

// Runs one candidate in a child; true if it fails there (assertion, crash, sanitizer report or no end).
inline bool fails_in_child(const Config& cfg, Shared* shared, const std::vector<uint64_t>& tape)
{
    shared->status = 0;
    shared->length = 0;
    shared->message[0] = 0;
    shared->log[0] = 0;
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid == 0)
    {
        const int devnull = open("/dev/null", O_WRONLY);
        dup2(devnull, 1);
        dup2(devnull, 2);
        const Result r = run_tape(cfg, shared, tape);
        _exit(r.outcome == Failed ? 3 : 0);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    return !(WIFEXITED(status) && WEXITSTATUS(status) == 0);
}

inline bool shortlex_less(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b)
{
    return a.size() != b.size() ? a.size() < b.size() : a < b;
}

inline std::vector<uint64_t> shrink(const Config& cfg, std::vector<uint64_t> best, unsigned budget)
{
    Shared* shared = map_shared(nullptr);
    const time_t stop = time(nullptr) + 90; // shrinking is best effort and decides nothing
    if (best.size() == 2 && best[0] == ExhaustiveMark)
    {
        return best;
    }
    auto attempt = [&](std::vector<uint64_t> cand) -> bool
    {
        if (budget == 0 || time(nullptr) > stop)
        {
            return false;
        }
        if (!shortlex_less(cand, best))
        {
            return false;
        }
        --budget;
        if (!fails_in_child(cfg, shared, cand))
        {
            return false;
        }
        // keep what was really consumed
        std::vector<uint64_t> used(shared->tape, shared->tape + std::min<uint64_t>(shared->length, MaxTape));
        if (used.size() < cand.size())
        {
            cand.resize(used.size());
        }
        if (!used.empty() && shortlex_less(used, cand))
        {
            cand = used;
        }
        if (shortlex_less(cand, best))
        {
            best = cand;
        }
        return true;
    };
    bool progress = true;
    while (progress && budget > 0 && time(nullptr) <= stop)
    {
        progress = false;
        for (size_t k = std::min<size_t>(64, best.size()); k >= 1; k /= 2)
        {
            for (size_t i = best.size(); i-- > 0;)
            {
                if (i + k > best.size())
                {
                    continue;
                }
                auto cand = best;
                cand.erase(cand.begin() + i, cand.begin() + i + k);
                if (attempt(cand))
                {
                    progress = true;
                }
                else if (i > 0 && best.size() > i + k)
                {
                    // delete and lower an earlier counter at the same time
                    cand = best;
                    size_t j = i - 1;
                    if (cand[j] > 0 && cand[j] < 4096)
                    {
                        cand.erase(cand.begin() + i, cand.begin() + i + k);
                        --cand[j];
                        progress |= attempt(cand);
                    }
                }
            }
        }
        for (size_t k : {8, 4, 2, 1})
        {
            for (size_t i = 0; i + k <= best.size(); i += k)
            {
                auto cand = best;
                std::fill(cand.begin() + i, cand.begin() + i + k, 0);
                if (cand != best)
                {
                    progress |= attempt(cand);
                }
            }
        }
        for (size_t i = 0; i < best.size(); ++i)
        {
            uint64_t lo = 0;
            while (i < best.size() && lo < best[i])
            {
                const uint64_t mid = lo + (best[i] - lo) / 2;
                auto cand = best;
                cand[i] = mid;
                const size_t size = best.size();
                if (attempt(cand))
                {
                    progress = true;
                    if (best.size() != size)
                    {
                        break;
                    }
                }
                else
                {
                    lo = mid + 1;
                }
                if (budget == 0)
                {
                    break;
                }
            }
        }
    }
    return best;
}

struct Args
{
    std::map<std::string, std::string> v;
    std::string get(const std::string& k, const std::string& d = "") const
    {
        auto it = v.find(k);
        return it == v.end() ? d : it->second;
    }
    uint64_t num(const std::string& k, uint64_t d = 0) const
    {
        auto it = v.find(k);
        return it == v.end() ? d : strtoull(it->second.c_str(), nullptr, 10);
    }
};

inline int run_main(const Config& cfg, const Args& a)
{
    const std::string out = a.get("out");
    const uint64_t seed = a.num("seed", 1), shard = a.num("shard"), shards = a.num("shards", 1), cases = a.num("cases", 1000);
    Shared* shared = map_shared((out + "/cur").c_str());
    current() = shared;
    uint64_t discards = 0, nontrivial = 0;
    std::map<std::string, uint64_t> classes;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    bool enumerating = true;
    auto account = [&](const Result& r)
    {
        for (auto& c : r.classes)
        {
            ++classes[c];
        }
        if (r.nontrivial)
        {
            ++nontrivial;
            if (distinct.insert(hash_text(r.log)).second && samples.size() < (enumerating ? 2 : 6) && r.log.size() < 1500 &&
                (distinct.size() & (distinct.size() - 1)) == 0)
            {
                samples.push_back(r.log);
            }
        }
    };
    auto failed = [&](const Result& r) -> int
    {
        write_tape(out + "/fail.tape", shared->tape, shared->length);
        FILE* f = fopen((out + "/fail.txt").c_str(), "w");
        fprintf(f, "%s\n", r.message.c_str());
        fclose(f);
        return 3;
    };
    int code = 0;
    for (uint64_t i = shard; code == 0 && i < cfg.exhaustive; i += shards)
    {
        shared->case_index = i;
        const Result r = run_tape(cfg, shared, {ExhaustiveMark, i});
        ++shared->evaluations;
        if (r.outcome == Failed)
        {
            code = failed(r);
        }
        account(r);
    }
    enumerating = false;
    for (uint64_t i = 0; code == 0 && i < cases; ++i)
    {
        shared->case_index = i;
        const Result r = run_random(cfg, shared, mix(mix(seed * 1000003 + shard) + i));
        ++shared->evaluations;
        if (r.outcome == Discarded)
        {
            ++discards;
            continue;
        }
        if (r.outcome == Failed)
        {
            code = failed(r);
        }
        account(r);
    }
    arm(0);
    FILE* f = fopen((out + "/distinct").c_str(), "wb");
    for (uint64_t h : distinct)
    {
        fwrite(&h, sizeof h, 1, f);
    }
    fclose(f);
    // The summary appears whole or not at all: this process may be ended at any moment
    f = fopen((out + "/stats.part").c_str(), "w");
    fprintf(f, "{\"evaluations\":%llu,\"discards\":%llu,\"nontrivial\":%llu,\"classes\":{",
            (unsigned long long)shared->evaluations, (unsigned long long)discards, (unsigned long long)nontrivial);
    bool first = true;
    for (auto& c : classes)
    {
        fprintf(f, "%s%s:%llu", first ? "" : ",", json(c.first).c_str(), (unsigned long long)c.second);
        first = false;
    }
    fprintf(f, "},\"samples\":[");
    first = true;
    for (auto& s : samples)
    {
        fprintf(f, "%s%s", first ? "" : ",", json(s).c_str());
        first = false;
    }
    fprintf(f, "]}\n");
    fclose(f);
    rename((out + "/stats.part").c_str(), (out + "/stats.json").c_str());
    fflush(nullptr);
    _exit(code);
}

inline int main_impl(const Config& cfg, int argc, char** argv)
{
    signal(SIGPROF, on_cpu_limit);
    install_hooks();
    Args a;
    const std::string mode = argc > 1 ? argv[1] : "run";
    for (int i = 2; i + 1 < argc; i += 2)
    {
        a.v[argv[i] + 2] = argv[i + 1];
    }
    if (mode == "run")
    {
        return run_main(cfg, a);
    }
    if (mode == "info")
    {
        printf("%s exhaustive=%llu\n", cfg.id, (unsigned long long)cfg.exhaustive);
        return 0;
    }
    if (mode == "replay")
    {
        Shared* shared = map_shared(nullptr);
        current() = shared;
        const Result r = run_tape(cfg, shared, read_tape(a.get("tape")));
        arm(0);
        const std::string text = r.log + (r.outcome == Failed ? "\nFAILS: " + r.message + "\n" : "\npasses\n");
        if (!a.get("log").empty())
        {
            FILE* f = fopen(a.get("log").c_str(), "w");
            fputs(text.c_str(), f);
            fclose(f);
        }
        else
        {
            fputs(text.c_str(), stderr);
        }
        fflush(nullptr);
        _exit(r.outcome == Failed ? 3 : 0);
    }
    if (mode == "shrink")
    {
        const auto best = shrink(cfg, read_tape(a.get("tape")), static_cast<unsigned>(a.num("budget", 1500)));
        write_tape(a.get("out"), best.data(), best.size());
        return 0;
    }
    if (mode == "bytes")
    {
        FILE* f = fopen(a.get("in").c_str(), "rb");
        std::vector<uint8_t> data;
        int ch;
        while ((ch = fgetc(f)) != EOF)
        {
            data.push_back(static_cast<uint8_t>(ch));
        }
        fclose(f);
        Shared* shared = map_shared(nullptr);
        const pid_t pid = fork();
        if (pid == 0)
        {
            run_case(
                cfg, shared,
                [&](Ctx& ctx)
                {
                    Src src(Src::Bytes, shared);
                    src.bytes = data.data();
                    src.byte_count = data.size();
                    cfg.fn(src, ctx);
                });
            _exit(0);
        }
        int status;
        waitpid(pid, &status, 0);
        write_tape(a.get("out"), shared->tape, shared->length);
        return 0;
    }
    fprintf(stderr, "unknown mode %s\n", mode.c_str());
    return 9;
}

} // namespace pbt

#ifdef PBT_FUZZ
#define PBT_MAIN(cfg)                                                                                                  \
    extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)                                            \
    {                                                                                                                  \
        static pbt::Shared* shared = pbt::map_shared(nullptr);                                                         \
        static const bool init = (pbt::install_hooks(), true);                                                         \
        (void)init;                                                                                                    \
        const pbt::Result r = pbt::run_case(                                                                           \
            cfg, shared,                                                                                               \
            [&](pbt::Ctx& ctx)                                                                                         \
            {                                                                                                          \
                pbt::Src src(pbt::Src::Bytes, shared);                                                                 \
                src.bytes = data;                                                                                      \
                src.byte_count = size;                                                                                 \
                cfg.fn(src, ctx);                                                                                      \
            });                                                                                                        \
        if (r.outcome == pbt::Failed)                                                                                  \
        {                                                                                                              \
            fprintf(stderr, "PROPERTY FAILED: %s\n", r.message.c_str());                                               \
            abort();                                                                                                   \
        }                                                                                                              \
        return 0;                                                                                                      \
    }
#else
#define PBT_MAIN(cfg)                                                                                                  \
    int main(int argc, char** argv)                                                                                    \
    {                                                                                                                  \
        return pbt::main_impl(cfg, argc, argv);                                                                        \
    }
#endif

#endif // PBT_H_
