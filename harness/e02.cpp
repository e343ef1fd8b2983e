// E02: results create and destroy exactly what they hold, even when copying throws.
#include <memory>
#include <new>
#include <Caitlyn/Error>
#include "tracked.h"
#include "gen.h"

using namespace pbt;
using Caitlyn::Expected;
using Caitlyn::String;
using Caitlyn::Unexpected;

// A payload without a lifetime to observe: the other side's must be kept all the same
template <int K>
struct Plain
{
    Plain() = default;
    explicit Plain(int v) : v(v)
    {
    }
    int value() const
    {
        return v;
    }
    bool operator==(const Plain& o) const
    {
        return v == o.v;
    }
    int v = 0;
};
template <typename T>
struct Observed : std::true_type
{
};
template <int K>
struct Observed<Plain<K>> : std::false_type
{
};

template <typename T, typename E>
class History
{
    using X = Expected<T, E>;
    struct Slot
    {
        std::unique_ptr<X> x;
        bool has = false;
        int key = 0; // -1000000: moved from
    };

public:
    History(Src& s, Ctx& c) : s(s), c(c)
    {
    }
    void run()
    {
        World& w = World::get();
        w.reset();
        slots.resize(2 + s.below(3));
        const size_t steps = 1 + s.length(25);
        for (size_t i = 0; i < steps; ++i)
        {
            step();
            verify();
        }
        for (auto& slot : slots)
        {
            slot.x.reset();
            slot.has = false;
        }
        verify();
        c.check(w.live.empty(), std::to_string(w.live.size()) + " payloads are never destroyed");
        c.eq(w.made, w.destroyed, "payloads made and destroyed");
        c.label_if(thrown > 0, "copy threw");
        c.label_if(moves_thrown > 0, "copy threw in a move assignment");
        c.label_if(crossed > 0, "assignment across states");
        c.label_if(crossed_throw > 0, "copy threw in an assignment across states");
        c.nontrivial = effective >= 3;
    }

private:
    void verify()
    {
        World& w = World::get();
        c.check(w.broken.empty(), w.broken);
        size_t values = 0, errors = 0;
        for (size_t i = 0; i < slots.size(); ++i)
        {
            Slot& slot = slots[i];
            if (!slot.x)
            {
                continue;
            }
            const X& x = *slot.x;
            const std::string name = "slot " + std::to_string(i);
            c.check(x.HasValue() == slot.has && x.HasError() != slot.has && static_cast<bool>(x) == slot.has, name + " holds the wrong kind");
            c.eq(slot.has ? x.Get().value() : x.GetError().value(), slot.key, (name + ": payload").c_str());
            (slot.has ? values : errors) += 1;
        }
        c.check(w.broken.empty(), w.broken);
        c.eq(w.count(1), Observed<T>::value ? values : 0, "live values");
        c.eq(w.count(2), Observed<E>::value ? errors : 0, "live errors");
    }
    // Runs an operation whose copies may throw. Afterwards what a slot holds is read from it if it was the target.
    template <typename F>
    bool attempt(F f)
    {
        World& w = World::get();
        w.throw_after = s.chance(1, 3) ? static_cast<long>(s.below(3)) : -1;
        if (w.throw_after >= 0)
        {
            c.log << "(copy " << w.throw_after + 1 << " throws) ";
        }
        bool ok = true;
        const bool armed = w.throw_after >= 0;
        try
        {
            f();
        }
        catch (const CopyFailed&)
        {
            ok = false;
            ++thrown;
            c.log << "[threw] ";
        }
        if (armed && ok)
        {
            // no copy reached the limit; a swallowed exception would have disarmed it
            c.check(w.throw_after >= 0, "an exception from a copy does not reach the caller");
        }
        w.throw_after = -1;
        return ok;
    }
    size_t occupied()
    {
        std::vector<size_t> at;
        for (size_t i = 0; i < slots.size(); ++i)
        {
            if (slots[i].x)
            {
                at.push_back(i);
            }
        }
        return at.empty() ? slots.size() : at[s.below(at.size())];
    }
    // After a failed operation the slot may hold its old or its new content, but exactly one live payload
    void reread(Slot& slot)
    {
        slot.has = slot.x->HasValue();
        slot.key = slot.has ? slot.x->Get().value() : slot.x->GetError().value();
    }

    void step()
    {
        const size_t t = s.below(slots.size());
        Slot& to = slots[t];
        const size_t from = occupied();
        size_t op = s.weighted({4, 4, 4, 6, 4, 2, 2, 5});
        if (from == slots.size() && op > 1)
        {
            op = s.below(2);
        }
        ++effective;
        switch (op)
        {
            case 0: // from a value
            case 1: // from an error
            {
                const int key = static_cast<int>(s.range(1, 50));
                const bool move = s.flip(), make = s.flip();
                c.log << "slot " << t << " = new " << (op == 0 ? "value " : "error ") << key << (move ? " (moved)" : "") << "; ";
                std::unique_ptr<X> n;
                const bool ok = attempt(
                    [&]
                    {
                        if (op == 0)
                        {
                            T v(key);
                            if (make)
                            {
                                n.reset(new X(Caitlyn::MakeCorrect<T, E>(v)));
                            }
                            else
                            {
                                n.reset(move ? new X(std::move(v)) : new X(v));
                            }
                        }
                        else if (make)
                        {
                            n.reset(new X(Caitlyn::MakeError<E>(E(key))));
                        }
                        else
                        {
                            Unexpected<E> u{E(key)};
                            n.reset(move ? new X(std::move(u)) : new X(u));
                        }
                    });
                if (ok)
                {
                    to.x = std::move(n);
                    to.has = op == 0;
                    to.key = key;
                }
                break;
            }
            case 2: // copy construction
            {
                c.log << "slot " << t << " = copy of slot " << from << "; ";
                std::unique_ptr<X> n;
                Slot& f = slots[from];
                if (attempt([&] { n.reset(new X(*f.x)); }))
                {
                    const bool has = f.has;
                    const int key = f.key;
                    to.x = std::move(n);
                    to.has = has;
                    to.key = key;
                }
                break;
            }
            case 3: // copy assignment
            {
                Slot& f = slots[from];
                if (!to.x)
                {
                    break;
                }
                c.log << "slot " << t << " <- slot " << from << "; ";
                const bool cross = to.has != f.has;
                crossed += cross;
                if (attempt([&] { *to.x = *f.x; }))
                {
                    to.has = f.has;
                    to.key = f.key;
                }
                else
                {
                    crossed_throw += cross;
                    reread(to);
                }
                break;
            }
            case 4: // move assignment
            {
                Slot& f = slots[from];
                if (!to.x)
                {
                    break;
                }
                c.log << "slot " << t << " <- move slot " << from << "; ";
                const bool cross = to.has != f.has;
                crossed += cross;
                if (attempt([&] { *to.x = std::move(*f.x); }))
                {
                    if (t != from)
                    {
                        to.has = f.has;
                        to.key = f.key;
                    }
                }
                else
                {
                    moves_thrown += 1;
                    crossed_throw += cross;
                    reread(to);
                }
                if (t != from)
                {
                    reread(f); // still a live payload of some state
                }
                break;
            }
            case 5: // move construction
            {
                Slot& f = slots[from];
                c.log << "slot " << t << " = move of slot " << from << "; ";
                const bool has = f.has;
                const int key = f.key;
                std::unique_ptr<X> n;
                const bool ok = attempt([&] { n.reset(new X(std::move(*f.x))); });
                reread(f);
                if (ok)
                {
                    to.x = std::move(n);
                    to.has = has;
                    to.key = key;
                }
                break;
            }
            case 6:
                c.log << "slot " << t << " destroyed; ";
                to.x.reset();
                break;
            default: // combinators make and return further results
            {
                Slot& f = slots[from];
                const size_t way = s.below(9);
                c.log << "slot " << t << " <- combinator " << way << " of slot " << from << "; ";
                const X& x = *f.x;
                const int other = static_cast<int>(s.range(60, 90));
                const bool good = s.flip();
                const bool has = f.has;
                const int key = f.key;
                bool want_has = has;
                int want_key = key;
                std::unique_ptr<X> n;
                auto fresh = [&] { return good ? X(T(other)) : X(Unexpected<E>(E(other))); };
                const bool ok = attempt(
                    [&]
                    {
                        switch (way)
                        {
                            case 0:
                                n.reset(new X(x.Map([&](const T& v) { return T(v.value() + 1); })));
                                want_key = has ? key + 1 : key;
                                break;
                            case 1:
                                n.reset(new X(x.MapError([&](const E& v) { return E(v.value() + 1); })));
                                want_key = has ? key : key + 1;
                                break;
                            case 2:
                                n.reset(new X(x.AndThen([&](const T&) { return fresh(); })));
                                want_has = has ? good : false;
                                want_key = has ? other : key;
                                break;
                            case 3:
                                n.reset(new X(x.OrElse([&](const E&) { return fresh(); })));
                                want_has = has ? true : good;
                                want_key = has ? key : other;
                                break;
                            case 4:
                                n.reset(new X(x.Filter([&](const T&) { return good; })));
                                want_has = has && good;
                                want_key = has && !good ? 0 : key;
                                break;
                            case 5:
                                n.reset(new X(x.OnError([&](const E& e) { (void)e.value(); })));
                                break;
                            case 6:
                                n.reset(new X(x.UnwrapOr(T(other))));
                                want_has = true;
                                want_key = has ? key : other;
                                break;
                            case 7:
                                n.reset(new X(x.UnwrapOrElse([&](const E&) { return T(other); })));
                                want_has = true;
                                want_key = has ? key : other;
                                break;
                            default:
                                n.reset(new X(x.Customize([&](const X& y) { return y; })));
                        }
                    });
                if (ok)
                {
                    to.x = std::move(n);
                    to.has = want_has;
                    to.key = want_key;
                }
            }
        }
    }

    Src& s;
    Ctx& c;
    std::vector<Slot> slots;
    size_t thrown = 0, moves_thrown = 0, crossed = 0, crossed_throw = 0, effective = 0;
};

static void run(Src& s, Ctx& c)
{
    struct Cleanup
    {
        ~Cleanup()
        {
            World::get().reset();
        }
    };
    Cleanup cleanup;
    switch (s.below(8))
    {
        case 3:
            c.log << "[values need no destruction] ";
            History<Plain<1>, Tracked<2>>(s, c).run();
            break;
        case 4:
            c.log << "[errors need no destruction] ";
            History<Tracked<1>, Plain<2>>(s, c).run();
            break;
        case 0:
            c.log << "[values cannot be moved] ";
            History<CopyOnly<1>, Tracked<2>>(s, c).run();
            break;
        case 1:
            c.log << "[errors cannot be moved] ";
            History<Tracked<1>, CopyOnly<2>>(s, c).run();
            break;
        case 2:
            c.log << "[neither can be moved] ";
            History<CopyOnly<1>, CopyOnly<2>>(s, c).run();
            break;
        default:
            History<Tracked<1>, Tracked<2>>(s, c).run();
    }
}

static const Config cfg{"E02", run, 0, nullptr, true};
PBT_MAIN(cfg)
