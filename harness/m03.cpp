// M03: shared owners may be copied and dropped concurrently. Runs under the thread sanitizer.
#include <atomic>
#include <memory>
#include <thread>
#include <vector>

#include <Caitlyn/Memory>

#include "gen.h"

using namespace pbt;

constexpr size_t MaxThreads = 6, MaxObjects = 3;

struct Tally
{
    std::atomic<int> made{0}, destroyed{0}, wrong{0};
    long sum[MaxObjects] = {};       // what the destructor saw, written by whoever drops the last owner
    std::atomic<int> deaths[MaxObjects];
};
static Tally* tally = nullptr;

struct Obj
{
    explicit Obj(size_t n) : id(n), magic(0x600d)
    {
        tally->made.fetch_add(1, std::memory_order_relaxed);
    }
    Obj(const Obj&) = delete;
    ~Obj()
    {
        tally->wrong.fetch_add(magic != 0x600d, std::memory_order_relaxed);
        long total = 0;
        for (long v : cells)
        {
            total += v;
        }
        tally->sum[id] += total;
        magic = 0xdead;
        tally->destroyed.fetch_add(1, std::memory_order_relaxed);
        tally->deaths[id].fetch_add(1, std::memory_order_relaxed);
    }
    const size_t id;
    int magic;
    long cells[MaxThreads] = {}; // one per thread, plain memory
};
using Owner = Caitlyn::SharedPtr<Obj>;
using Weak = Caitlyn::WeakPtr<Obj>;

enum What
{
    Copy,
    CopyConstruct,
    Move,
    MoveConstruct,
    Drop,
    DropByAssign,
    Write,
    Read,
    Bag,
    ByValue,
    Swap,
    Yield,
    Lock,
    WeakCopy,
    Whats
};
static const char* const names[] = {"copy", "copy-construct", "move", "move-construct", "reset", "assign empty", "write", "read", "vector of copies", "pass by value", "swap", "yield", "lock", "copy weak"};
struct Op
{
    What what;
    size_t a, b;
};

static long take(Owner p, size_t cell)
{
    return p == nullptr ? 0 : p->cells[cell];
}

constexpr size_t Slots = 3;

// One thread: its own owners, and a model of what each holds
struct Worker
{
    size_t cell;
    std::vector<Op> script;
    size_t rounds;
    std::vector<Owner> start; // one owner per object, given before the threads start
    std::vector<Weak> weak;
    long written[MaxObjects] = {};
    std::string error;
    size_t locked = 0, lock_failed = 0;
    bool held[MaxObjects] = {}; // an owner lives as long as all rounds

    void run(std::atomic<size_t>& waiting)
    {
        waiting.fetch_sub(1);
        for (size_t spins = 0; waiting.load() != 0; ++spins)
        {
            if (spins > 2000)
            {
                std::this_thread::yield();
            }
        }
        {
            std::vector<Owner> own = std::move(start);
            std::vector<int> model;
            for (size_t i = 0; i < own.size(); ++i)
            {
                model.push_back(own[i] == nullptr ? -1 : static_cast<int>(own[i]->id));
            }
            own.resize(Slots);
            model.resize(Slots, -1);
            const std::vector<int> first = model;
            const std::vector<Owner> anchor = own; // dropped after all rounds
            for (int m : model)
            {
                if (m >= 0)
                {
                    held[m] = true;
                }
            }
            for (size_t r = 0; r < rounds && error.empty(); ++r)
            {
                for (auto& op : script)
                {
                    step(op, own, model);
                }
                for (size_t i = 0; i < Slots; ++i)
                {
                    const int is = own[i] == nullptr ? -1 : static_cast<int>(own[i]->id);
                    if (is != model[i] && error.empty())
                    {
                        error = "an owner refers to object " + std::to_string(is) + " instead of " + std::to_string(model[i]);
                    }
                }
                if (r + 1 < rounds)
                {
                    own = anchor;
                    model = first;
                }
            }
        }
    }
    void step(const Op& op, std::vector<Owner>& own, std::vector<int>& model)
    {
        Owner& a = own[op.a];
        Owner& b = own[op.b];
        int& ma = model[op.a];
        int& mb = model[op.b];
        switch (op.what)
        {
            case Copy:
                a = b;
                ma = mb;
                break;
            case CopyConstruct:
            {
                Owner t(b);
                a = std::move(t);
                ma = mb;
                break;
            }
            case Move:
                if (op.a != op.b)
                {
                    a = std::move(b);
                    ma = mb;
                    mb = -1;
                }
                break;
            case MoveConstruct:
            {
                Owner t(std::move(b));
                const int was = mb;
                mb = -1;
                a = t;
                ma = was;
                break;
            }
            case Drop:
                a.Reset();
                ma = -1;
                break;
            case DropByAssign:
                a = Owner();
                ma = -1;
                break;
            case Write:
                if (ma >= 0)
                {
                    a->cells[cell] += 1;
                    ++written[ma];
                }
                break;
            case Read:
                if (ma >= 0 && ((*a).cells[cell] != written[ma] || a->magic != 0x600d) && error.empty())
                {
                    error = "reading through an owner of object " + std::to_string(ma) + " gives something else than was written";
                }
                break;
            case Bag:
            {
                std::vector<Owner> v(3, b);
                v.push_back(a);
                v.erase(v.begin());
                a = v[op.b % 2];
                ma = mb;
                break;
            }
            case ByValue:
                if (mb >= 0 && take(b, cell) != written[mb] && error.empty())
                {
                    error = "reading through a copy of an owner gives something else than was written";
                }
                break;
            case Swap:
                std::swap(a, b);
                std::swap(ma, mb);
                break;
            case Lock:
            {
                const size_t i = op.b % weak.size();
                const Owner t = weak[i].lock();
                if (t == nullptr)
                {
                    ++lock_failed;
                    if (held[i] && error.empty())
                    {
                        error = "locking fails while this thread itself holds an owner";
                    }
                    break;
                }
                ++locked;
                if ((t->id != i || t->magic != 0x600d || weak[i].expired()) && error.empty())
                {
                    error = "a locked owner does not reach its living object";
                }
                a = t;
                ma = static_cast<int>(i);
                break;
            }
            case WeakCopy:
            {
                const Weak w = weak[op.b % weak.size()];
                Weak v;
                v = w;
                break;
            }
            default:
                std::this_thread::yield();
                break;
        }
    }
};

// A row of objects: every thread gets one owner (or only a weak reference) of each, and all of them let go of the same
// object at the same time, over and over.
struct Token
{
    explicit Token(std::atomic<int>& deaths) : deaths(deaths)
    {
    }
    ~Token()
    {
        long n = 0;
        for (long v : cells)
        {
            n += v;
        }
        seen = n;
        if (out)
        {
            *out += n;
        }
        deaths.fetch_add(1, std::memory_order_relaxed);
    }
    std::atomic<int>& deaths;
    long cells[MaxThreads] = {};
    long seen = 0;
    long* out = nullptr;
};
using TokenOwner = Caitlyn::SharedPtr<Token>;
using TokenWeak = Caitlyn::WeakPtr<Token>;

static void storm(Src& s, Ctx& c)
{
    const size_t threads = 2 + s.below(4), row = s.pick<size_t>({1, 5, 50, 200});
    enum Part
    {
        JustDrop,
        WriteDrop,
        CopyDrop,
        MoveDrop,
        Locker,
        LockerTwice,
        Parts
    };
    static const char* const what[] = {"drops", "writes and drops", "copies and drops both", "moves and drops", "locks a weak reference", "locks twice and copies"};
    const bool weak = s.flip();
    std::vector<size_t> part;
    std::vector<int> forget; // the weak reference goes before (1), after (2) or not before the threads end
    const bool all_forget = s.flip();
    size_t lockers = 0;
    for (size_t w = 0; w < threads; ++w)
    {
        part.push_back(w == 0 || !weak ? s.below(Locker) : s.below(Parts));
        lockers += part.back() >= Locker;
        c.log << (w ? ", " : "row of " + std::to_string(row) + " objects; ") << "thread " << w << " " << what[part.back()];
        forget.push_back(part.back() >= Locker ? (all_forget ? 2 : 0) : all_forget ? 1 + static_cast<int>(s.below(2)) : static_cast<int>(s.below(3)));
        c.log << (forget.back() == 1 ? " after its weak reference" : forget.back() == 2 ? " before its weak reference" : "");
    }
    std::vector<std::atomic<int>> deaths(row);
    std::vector<long> seen(row, 0);
    std::vector<std::vector<TokenOwner>> own(threads);
    std::vector<std::vector<TokenWeak>> watch(threads);
    for (size_t i = 0; i < row; ++i)
    {
        deaths[i] = 0;
        Token* const raw = new Token(deaths[i]);
        raw->out = &seen[i];
        TokenOwner first(raw);
        for (size_t w = 0; w < threads; ++w)
        {
            watch[w].emplace_back(first);
            own[w].push_back(part[w] >= Locker ? TokenOwner() : first);
        }
    }
    std::vector<std::atomic<size_t>> arrived(row);
    for (auto& a : arrived)
    {
        a = 0;
    }
    std::vector<std::string> error(threads);
    std::vector<size_t> locked(threads), refused(threads);
    std::vector<std::thread> running;
    for (size_t w = 0; w < threads; ++w)
    {
        running.emplace_back([&, w] {
            for (size_t i = 0; i < row; ++i)
            {
                arrived[i].fetch_add(1, std::memory_order_relaxed); // orders nothing
                for (size_t spins = 0; arrived[i].load(std::memory_order_relaxed) != threads; ++spins)
                {
                    if (spins > 2000)
                    {
                        std::this_thread::yield();
                    }
                }
                TokenOwner& x = own[w][i];
                if (forget[w] == 1)
                {
                    watch[w][i] = TokenWeak();
                }
                switch (part[w])
                {
                    case JustDrop:
                        x.Reset();
                        break;
                    case WriteDrop:
                        x->cells[w] = 1;
                        x = TokenOwner();
                        break;
                    case CopyDrop:
                    {
                        TokenOwner y = x;
                        x.Reset();
                        y->cells[w] += 1;
                        y.Reset();
                        break;
                    }
                    case MoveDrop:
                    {
                        TokenOwner y = std::move(x);
                        y->cells[w] += 1;
                        break;
                    }
                    default:
                        for (size_t k = 0; k < 1 + (part[w] == LockerTwice); ++k)
                        {
                            TokenOwner y = watch[w][i].lock();
                            if (y == nullptr)
                            {
                                ++refused[w];
                                break;
                            }
                            ++locked[w];
                            TokenOwner z = y;
                            if (z->cells[w] != static_cast<long>(k) || watch[w][i].expired())
                            {
                                error[w] = "a locked owner does not reach a living object";
                            }
                            z->cells[w] += 1;
                        }
                        if (part[w] == LockerTwice)
                        {
                            watch[w][i] = TokenWeak();
                        }
                        break;
                }
                if (forget[w] == 2)
                {
                    watch[w][i] = TokenWeak();
                }
            }
        });
    }
    for (auto& r : running)
    {
        r.join();
    }
    size_t all_locked = 0, all_refused = 0;
    for (size_t w = 0; w < threads; ++w)
    {
        c.check(error[w].empty(), error[w]);
        all_locked += locked[w];
        all_refused += refused[w];
    }
    long want = static_cast<long>(all_locked), got = 0;
    for (size_t i = 0; i < row; ++i)
    {
        c.eq(deaths[i].load(), 1, "times an object is destroyed");
        got += seen[i];
        for (size_t w = 0; w < threads; ++w)
        {
            want += part[w] >= WriteDrop && part[w] < Locker;
            c.check(watch[w][i].expired() && watch[w][i].lock() == nullptr, "a weak reference is not expired after the last owner");
        }
    }
    c.eq(got, want, "writes seen by the destructors");
    c.label("row of objects");
    c.label_if(all_locked > 0 && all_refused > 0, "locks that succeed and fail");
    c.nontrivial = row > 1;
}

static void run(Src& s, Ctx& c)
{
    if (s.flip())
    {
        return storm(s, c);
    }
    Tally t;
    for (auto& d : t.deaths)
    {
        d = 0;
    }
    tally = &t;
    const size_t threads = 2 + s.below(MaxThreads - 1), objects = 1 + s.below(MaxObjects);
    const size_t rounds = s.pick<size_t>({1, 1, 20, 100, 300});
    const bool weak = s.below(3) == 2;
    std::vector<Worker> workers(threads);
    std::vector<std::string> scripts;
    size_t changes = 0;
    for (size_t w = 0; w < threads; ++w)
    {
        workers[w].cell = w;
        workers[w].rounds = rounds;
        if (w > 0 && s.below(3) == 0)
        {
            workers[w].script = workers[0].script;
        }
        else
        {
            const size_t n = 1 + s.below(12);
            for (size_t i = 0; i < n; ++i)
            {
                Op op{static_cast<What>(s.below(weak ? Whats : Lock)), s.below(Slots), s.below(Slots)};
                workers[w].script.push_back(op);
                changes += op.what == Copy || op.what == CopyConstruct || op.what == Drop || op.what == Bag || op.what == ByValue || op.what == Lock;
            }
        }
        std::string text;
        for (auto& op : workers[w].script)
        {
            text += std::string(text.empty() ? "" : ", ") + names[op.what] + " " + std::to_string(op.a) + " " + std::to_string(op.b);
        }
        scripts.push_back(text);
    }
    const bool main_holds = s.flip(), moved_in = s.flip();
    const uint64_t mask = s.below(8);
    c.log << threads << " threads, " << objects << " objects, " << rounds << " rounds" << (main_holds ? ", the main thread drops its owners last" : "") << "\n";
    for (auto& text : scripts)
    {
        c.log << "thread: " << text << "\n";
    }
    std::atomic<size_t> waiting{threads};
    {
        std::vector<Owner> main;
        for (size_t o = 0; o < objects; ++o)
        {
            main.emplace_back(new Obj(o));
            main.back()->cells[0] += 0;
        }
        for (size_t w = 0; w < threads; ++w)
        {
            for (size_t o = 0; o < objects; ++o)
            {
                workers[w].weak.emplace_back(main[o]);
                const bool gets = weak ? ((mask >> (w % 3)) & 1) == 0 || o == 0 : true;
                if (moved_in)
                {
                    Owner copy = main[o];
                    workers[w].start.push_back(gets ? std::move(copy) : Owner());
                }
                else
                {
                    workers[w].start.push_back(gets ? main[o] : Owner());
                }
            }
        }
        if (!main_holds)
        {
            main.clear();
        }
        std::vector<std::thread> running;
        for (auto& w : workers)
        {
            running.emplace_back([&w, &waiting] { w.run(waiting); });
        }
        for (auto& r : running)
        {
            r.join();
        }
        if (main_holds)
        {
            c.eq(t.destroyed.load(), 0, "objects destroyed while the main thread owns them");
            for (size_t o = 0; o < objects; ++o)
            {
                long want = 0;
                for (auto& w : workers)
                {
                    want += w.written[o];
                }
                long got = 0;
                for (long v : main[o]->cells)
                {
                    got += v;
                }
                c.eq(got, want, "writes seen by the last owner");
            }
        }
    }
    for (auto& w : workers)
    {
        c.check(w.error.empty(), w.error);
    }
    for (size_t o = 0; o < objects; ++o)
    {
        c.eq(t.deaths[o].load(), 1, "times the object is destroyed");
        long want = 0;
        for (auto& w : workers)
        {
            want += w.written[o];
        }
        c.eq(t.sum[o], want, "writes seen by the destructor");
    }
    size_t locked = 0, lock_failed = 0;
    for (auto& w : workers)
    {
        locked += w.locked;
        lock_failed += w.lock_failed;
        for (auto& x : w.weak)
        {
            c.check(x.expired() && x.lock() == nullptr, "a weak reference is not expired after the last owner");
        }
    }
    c.check(t.wrong == 0, "an object is destroyed twice");
    c.label_if(rounds > 1, "repeated rounds");
    c.label_if(main_holds, "main thread drops last");
    c.label_if(!main_holds, "a worker drops last");
    c.label_if(locked > 0, "locked concurrently");
    c.label_if(lock_failed > 0, "lock after the last owner");
    c.nontrivial = changes >= 2;
}

static const Config cfg{"M03", run, 0, nullptr, false, 120};
PBT_MAIN(cfg)
