// E01: result combinators call exactly the right branch and keep the payload.
#include <memory>
#include <Caitlyn/Error>
#include "gen.h"

using namespace pbt;
using Caitlyn::Expected;
using Caitlyn::String;
using Caitlyn::Unexpected;

// Every payload type carries a number; zero is its default
struct Plain
{
    int key = 0;
    std::string text;
    bool operator==(const Plain& o) const
    {
        return key == o.key && text == o.text;
    }
};
template <typename P>
struct Pay;
template <>
struct Pay<int>
{
    static int make(int k)
    {
        return k;
    }
    static int key(const int& v)
    {
        return v;
    }
};
template <>
struct Pay<std::string>
{
    static std::string make(int k)
    {
        return k == 0 ? std::string() : "a text that needs the heap, number " + std::to_string(k);
    }
    static int key(const std::string& v)
    {
        return v.empty() ? 0 : atoi(v.c_str() + v.rfind(' ') + 1);
    }
};
template <>
struct Pay<String>
{
    static String make(int k)
    {
        return String(Pay<std::string>::make(k));
    }
    static int key(const String& v)
    {
        return Pay<std::string>::key(v.str());
    }
};
template <>
struct Pay<Plain>
{
    static Plain make(int k)
    {
        Plain p;
        p.key = k;
        p.text = k == 0 ? "" : std::string(40, static_cast<char>('a' + (k & 15)));
        return p;
    }
    static int key(const Plain& v)
    {
        return v.text == (v.key == 0 ? "" : std::string(40, static_cast<char>('a' + (v.key & 15)))) ? v.key : -777777;
    }
};
template <>
struct Pay<double>
{
    static double make(int k)
    {
        return k / 2.0;
    }
    static int key(const double& v)
    {
        return static_cast<int>(v * 2);
    }
};
enum class Code
{
    Zero
};
template <>
struct Pay<Code>
{
    static Code make(int k)
    {
        return static_cast<Code>(k);
    }
    static int key(const Code& v)
    {
        return static_cast<int>(v);
    }
};

struct Thrown
{
};

template <typename T, typename E>
class Chain
{
    using X = Expected<T, E>;
    using PT = Pay<T>;
    using PE = Pay<E>;

public:
    Chain(Src& s, Ctx& c) : s(s), c(c), x(PT::make(1))
    {
    }
    void run()
    {
        has = s.flip();
        key = fresh_key();
        message = stretched(s, utf8_text(s, 90));
        c.log << (has ? "value " : "error ") << key << "; ";
        if (has)
        {
            x = s.flip() ? X(PT::make(key)) : Caitlyn::MakeCorrect<T, E>(PT::make(key));
        }
        else
        {
            x = s.flip() ? X(Unexpected<E>(PE::make(key))) : X(Caitlyn::MakeError(PE::make(key)));
        }
        if (!message.empty())
        {
            c.log << "message " << show(message) << "; ";
        }
        verify(x, has, key, "start");
        compare_errors();
        const size_t n = 1 + s.length(14);
        for (size_t i = 0; i < n; ++i)
        {
            step();
            verify(x, has, key, "held result");
        }
        c.label_if(switched > 0, "changes between value and error");
        c.label_if(skipped > 0, "a branch not taken");
        c.label_if(thrown > 0, "a function that throws");
        c.nontrivial = n >= 3;
    }

private:
    // Wrapped errors compare like the errors
    void compare_errors()
    {
        const int a = static_cast<int>(s.range(0, 3)), b = s.flip() ? a : static_cast<int>(s.range(0, 3));
        const Unexpected<E> l(PE::make(a)), r = Caitlyn::MakeError(PE::make(b));
        c.check((l == r) == (a == b) && (l != r) == (a != b), "wrapped errors " + std::to_string(a) + " and " + std::to_string(b) + " compare wrongly");
        const std::string text = utf8_text(s, 5), other = s.flip() ? text : utf8_text(s, 5);
        const Unexpected<String> m = Caitlyn::MakeError(text.c_str()), n = Caitlyn::MakeError(String(other));
        c.check(m.Get().str() == text && n.Get().str() == other, "an error made from a text holds another text");
        c.check((m == n) == (text == other) && (m != n) == (text != other), "wrapped texts compare wrongly");
    }
    int fresh_key()
    {
        return static_cast<int>(s.range(1, 200));
    }
    // Every accessor
    void verify(const X& y, bool want_has, int want_key, const char* what)
    {
        const std::string w = what;
        c.check(y.HasValue() == want_has && y.HasError() == !want_has && static_cast<bool>(y) == want_has, w + ": state");
        const int fallback = want_key + 1000;
        if (want_has)
        {
            c.eq(PT::key(y.Get()), want_key, (w + ": Get").c_str());
            c.must_throw([&] { (void)y.GetError(); }, "GetError on a value");
            c.eq(PT::key(y.Expect(String("missing"))), want_key, (w + ": Expect").c_str());
            throws_text([&] { (void)y.ExpectError(message); }, message, "ExpectError on a value");
        }
        else
        {
            c.eq(PE::key(y.GetError()), want_key, (w + ": GetError").c_str());
            c.must_throw([&] { (void)y.Get(); }, "Get on an error");
            c.eq(PE::key(y.ExpectError("wrong")), want_key, (w + ": ExpectError").c_str());
            throws_text([&] { (void)y.Expect(String(message)); }, message, "Expect on an error");
        }
        c.eq(PT::key(y.UnwrapOr(PT::make(fallback))), want_has ? want_key : fallback, (w + ": UnwrapOr").c_str());
        c.eq(PT::key(y.UnwrapOrDefault()), want_has ? want_key : 0, (w + ": UnwrapOrDefault()").c_str());
        const T def = PT::make(fallback);
        const T& ref = y.UnwrapOrDefault(def);
        c.eq(PT::key(ref), want_has ? want_key : fallback, (w + ": UnwrapOrDefault(value)").c_str());
        int calls = 0, seen = -1;
        const T orelse = y.UnwrapOrElse(
            [&](const E& e)
            {
                ++calls;
                seen = PE::key(e);
                return PT::make(fallback);
            });
        c.eq(PT::key(orelse), want_has ? want_key : fallback, (w + ": UnwrapOrElse").c_str());
        c.eq(calls, want_has ? 0 : 1, (w + ": calls by UnwrapOrElse").c_str());
        c.check(want_has || seen == want_key, w + ": UnwrapOrElse passes another error");
    }
    template <typename F>
    void throws_text(F f, const std::string& text, const char* what)
    {
        try
        {
            f();
        }
        catch (const std::exception& e)
        {
            c.eq(std::string(e.what()), text, what);
            return;
        }
        c.fail(std::string(what) + ": no exception");
    }

    // What a supplied function saw
    struct Seen
    {
        int calls = 0;
        int key = 0;
    };
    void called(const Seen& seen, bool expected, const char* what)
    {
        c.eq(seen.calls, expected ? 1 : 0, (std::string("calls by ") + what).c_str());
        c.check(!expected || seen.key == key, std::string(what) + " passes another payload");
        skipped += !expected;
    }

    void step()
    {
        Seen on_value, on_error;
        const int nk = fresh_key();
        const bool good = s.flip(), boom = s.chance(1, 10);
        auto value_of = [&](const T& v) { ++on_value.calls; on_value.key = PT::key(v); };
        auto error_of = [&](const E& e) { ++on_error.calls; on_error.key = PE::key(e); };
        auto result = [&]() -> X
        {
            if (boom)
            {
                throw Thrown{};
            }
            return good ? X(PT::make(nk)) : X(Unexpected<E>(PE::make(nk)));
        };
        bool want_has = has;
        int want_key = key;
        const size_t way = s.below(15);
        static const char* const names[] = {"Map", "MapError", "AndThen", "OrElse", "Then", "CatchError", "OnError", "Filter", "Customize", "Inspect", "Fold", "copy", "move", "Map to another type", "assign"};
        c.log << names[way] << " " << nk << (good ? "" : " bad") << (boom ? " throws" : "") << "; ";
        std::unique_ptr<X> next;
        bool value_called = false, error_called = false;
        try
        {
            switch (way)
            {
                case 0:
                    value_called = has;
                    next.reset(new X(x.Map(
                        [&](const T& v)
                        {
                            value_of(v);
                            if (boom)
                            {
                                throw Thrown{};
                            }
                            return PT::make(PT::key(v) + 1);
                        })));
                    want_key += has;
                    break;
                case 1:
                    error_called = !has;
                    next.reset(new X(x.MapError(
                        [&](const E& e)
                        {
                            error_of(e);
                            if (boom)
                            {
                                throw Thrown{};
                            }
                            return PE::make(PE::key(e) + 1);
                        })));
                    want_key += !has;
                    break;
                case 2:
                case 4:
                {
                    value_called = has;
                    auto f = [&](const T& v) { value_of(v); return result(); };
                    next.reset(new X(way == 2 ? x.AndThen(f) : x.Then(f)));
                    want_has = has && good;
                    want_key = has ? nk : key;
                    break;
                }
                case 3:
                case 5:
                {
                    error_called = !has;
                    auto f = [&](const E& e) { error_of(e); return result(); };
                    next.reset(new X(way == 3 ? x.OrElse(f) : x.CatchError(f)));
                    want_has = has || good;
                    want_key = has ? key : nk;
                    break;
                }
                case 6:
                    error_called = !has;
                    next.reset(new X(x.OnError(
                        [&](const E& e)
                        {
                            error_of(e);
                            if (boom)
                            {
                                throw Thrown{};
                            }
                        })));
                    break;
                case 7:
                    value_called = has;
                    next.reset(new X(x.Filter(
                        [&](const T& v)
                        {
                            value_of(v);
                            if (boom)
                            {
                                throw Thrown{};
                            }
                            return good;
                        })));
                    want_has = has && good;
                    want_key = has && !good ? 0 : key;
                    break;
                case 8:
                {
                    int calls = 0;
                    next.reset(new X(x.Customize(
                        [&](const X& y)
                        {
                            ++calls;
                            c.check(&y == &x, "Customize passes another result");
                            return y;
                        })));
                    c.eq(calls, 1, "calls by Customize");
                    break;
                }
                case 9:
                {
                    value_called = has;
                    error_called = !has;
                    const int r = x.Inspect(
                        [&](const T& v, int a, const std::string& b)
                        {
                            value_of(v);
                            if (boom)
                            {
                                throw Thrown{};
                            }
                            return a + static_cast<int>(b.size());
                        },
                        [&](const E& e, int a, const std::string& b)
                        {
                            error_of(e);
                            if (boom)
                            {
                                throw Thrown{};
                            }
                            return -a - static_cast<int>(b.size());
                        },
                        nk, std::string("four"));
                    c.eq(r, has ? nk + 4 : -nk - 4, "result of Inspect");
                    break;
                }
                case 10:
                {
                    value_called = has;
                    const std::string init = "start that needs the heap " + std::to_string(nk);
                    const std::string r = x.Fold(
                        init,
                        [&](const std::string& a, const T& v)
                        {
                            value_of(v);
                            if (boom)
                            {
                                throw Thrown{};
                            }
                            return a + "+" + std::to_string(PT::key(v));
                        });
                    c.eq(r, has ? init + "+" + std::to_string(key) : init, "result of Fold");
                    break;
                }
                case 11:
                    next.reset(new X(x));
                    break;
                case 12:
                    next.reset(new X(std::move(x)));
                    break;
                case 13: // through other payload types and back
                {
                    value_called = has;
                    auto widened = x.Map(
                        [&](const T& v)
                        {
                            value_of(v);
                            return std::make_pair(PT::key(v), std::string(30, 'p'));
                        });
                    Seen other;
                    auto renamed = widened.MapError([&](const E& e) { ++other.calls; return std::vector<int>(3, PE::key(e)); });
                    c.eq(other.calls, has ? 0 : 1, "calls by MapError");
                    c.check(renamed.HasValue() == has, "the state changes on the way");
                    if (has)
                    {
                        c.eq(renamed.Get().first, key, "value on the way");
                        c.eq(renamed.Get().second, std::string(30, 'p'), "value on the way");
                    }
                    else
                    {
                        c.check(renamed.GetError() == std::vector<int>(3, key), "error on the way");
                    }
                    auto back = renamed.Map([&](const std::pair<int, std::string>& p) { return PT::make(p.first); }).MapError([&](const std::vector<int>& e) { return PE::make(e[0]); });
                    next.reset(new X(back));
                    break;
                }
                default:
                {
                    X y = good ? X(PT::make(nk)) : X(Unexpected<E>(PE::make(nk)));
                    next.reset(new X(y));
                    *next = x;
                    verify(*next, has, key, "assigned result");
                    *next = y;
                    want_has = good;
                    want_key = nk;
                }
            }
        }
        catch (const Thrown&)
        {
            ++thrown;
            c.check(boom, "unexpected exception");
            called(on_value, value_called, names[way]);
            called(on_error, error_called, names[way]);
            return; // the result is what it was (checked by the caller)
        }
        c.check(!(boom && (value_called || error_called) && way != 13), std::string(names[way]) + " swallows an exception");
        called(on_value, value_called, names[way]);
        called(on_error, error_called, names[way]);
        if (next)
        {
            if (way != 12)
            {
                verify(x, has, key, "the original afterwards");
            }
            verify(*next, want_has, want_key, names[way]);
            switched += want_has != has;
            if (s.flip())
            {
                x = *next;
            }
            else
            {
                x = std::move(*next);
            }
            has = want_has;
            key = want_key;
        }
    }

    Src& s;
    Ctx& c;
    X x;
    bool has = true;
    std::string message; // for the accessors that refuse with a message
    int key = 1;
    size_t switched = 0, skipped = 0, thrown = 0;
};

template <typename T, typename E>
static void one(Src& s, Ctx& c, const char* type)
{
    c.label(type);
    c.log << type << ": ";
    Chain<T, E>(s, c).run();
}

static void run(Src& s, Ctx& c)
{
    switch (s.below(8))
    {
        case 0:
            return one<int, String>(s, c, "int / String");
        case 1:
            return one<String, String>(s, c, "String / String");
        case 2:
            return one<String, int>(s, c, "String / int");
        case 3:
            return one<std::string, Code>(s, c, "std::string / enum");
        case 4:
            return one<Plain, std::string>(s, c, "struct / std::string");
        case 5:
            return one<double, Plain>(s, c, "double / struct");
        case 6:
            return one<int, int>(s, c, "int / int");
        default:
            return one<Plain, Plain>(s, c, "struct / struct");
    }
}

static const Config cfg{"E01", run, 0, nullptr, true};
PBT_MAIN(cfg)
