// N04: decimal arithmetic is exact.
#include <sstream>
#include <Caitlyn/Numeric>
#include "bignum.h"

using namespace pbt;
using Caitlyn::BigFloat;
using Caitlyn::String;

// unscaled * 10^-scale, without trailing zeros behind the point
struct Dec
{
    Big n;
    size_t scale = 0;
    void normalize()
    {
        while (scale > 0 && n % 10 == 0)
        {
            n /= 10;
            --scale;
        }
    }
    Big at(size_t s) const
    {
        return n * pow10(s - scale);
    }
};
static int compare(const Dec& a, const Dec& b)
{
    const size_t s = std::max(a.scale, b.scale);
    const Big x = a.at(s), y = b.at(s);
    return x < y ? -1 : x > y ? 1 : 0;
}
static bool read(const std::string& text, Dec& d) // sign, digits, optional point and digits
{
    size_t i = 0;
    const bool neg = i < text.size() && text[i] == '-';
    i += neg || (i < text.size() && text[i] == '+');
    std::string whole, frac;
    while (i < text.size() && isdigit(static_cast<unsigned char>(text[i])))
    {
        whole += text[i++];
    }
    if (whole.empty())
    {
        return false;
    }
    if (i < text.size() && text[i] == '.')
    {
        ++i;
        while (i < text.size() && isdigit(static_cast<unsigned char>(text[i])))
        {
            frac += text[i++];
        }
        if (frac.empty())
        {
            return false;
        }
    }
    if (i != text.size())
    {
        return false;
    }
    d.n = value_of((neg ? "-" : "") + whole + frac);
    d.scale = frac.size();
    d.normalize();
    return true;
}
static std::string show_dec(const Dec& d)
{
    return text_of(d.n) + "e-" + std::to_string(d.scale);
}

static BigFloat lib(const std::string& t)
{
    return t.size() % 3 == 0 ? operator""_bigfloat(t.c_str(), t.size()) : BigFloat{String(t)};
}
static void order(Ctx& c, const BigFloat& a, const BigFloat& b, int want, const char* what)
{
    const bool ok = (a == b) == (want == 0) && (a != b) == (want != 0) && (a < b) == (want < 0) && (a > b) == (want > 0) &&
        (a <= b) == (want <= 0) && (a >= b) == (want >= 0) && a.Equal(b) == (want == 0) && a.LessThan(b) == (want < 0) &&
        a.GreaterThan(b) == (want > 0);
    c.check(ok, std::string(what) + ": comparing " + a.ToString().str() + " with " + b.ToString().str());
}
static void same(Ctx& c, const BigFloat& got, const Dec& want, const char* what)
{
    const std::string t = got.ToString().str();
    Dec d;
    c.check(read(t, d), std::string(what) + ": prints as " + show(t));
    if (compare(d, want) != 0)
    {
        c.fail(std::string(what) + ": got " + t + ", expected " + show_dec(want));
    }
    std::ostringstream o;
    o << got;
    c.eq(o.str(), t, (std::string(what) + ": streamed").c_str());
    const BigFloat again = lib(t);
    order(c, got, again, 0, (std::string(what) + ": printed and read again").c_str());
}

static std::string decimal(Src& s, size_t cap)
{
    std::string t = s.flip() ? "-" : s.chance(1, 8) ? "+" : "";
    if (s.chance(1, 10))
    {
        t += std::string(1 + s.below(3), '0');
    }
    t += s.chance(1, 4) ? "0" : digits(s, cap);
    if (s.chance(5, 6))
    {
        t += '.';
        if (s.flip())
        {
            t += std::string(s.length(12), '0');
        }
        t += digits(s, cap);
        if (s.chance(1, 4))
        {
            t += std::string(1 + s.below(6), '0');
        }
    }
    return t;
}
// The same value, or one close to it, written differently
static std::string variant(Src& s, const Dec& d)
{
    Dec e = d;
    switch (s.below(5))
    {
        case 0:
            break;
        case 1:
            e.n = -e.n;
            break;
        case 2:
            e.n += s.range(-1, 1);
            break;
        case 3: // a difference far behind the point
            e.scale += 1 + s.below(10);
            e.n = d.at(e.scale) + s.range(-1, 1);
            break;
        default: // the point moved
            e.scale = s.below(e.scale + 4);
    }
    std::string t = text_of(e.n < 0 ? Big(-e.n) : e.n);
    if (e.scale > 0)
    {
        if (t.size() <= e.scale)
        {
            t.insert(0, e.scale - t.size() + 1, '0');
        }
        t.insert(t.size() - e.scale, ".");
    }
    if (s.flip())
    {
        t += t.find('.') == std::string::npos ? ".00" : "0";
    }
    return (e.n < 0 ? "-" : "") + t;
}

struct Var
{
    BigFloat lib;
    Dec ref;
};

static void arithmetic(Src& s, Ctx& c)
{
    std::vector<Var> v;
    const size_t n = 2 + s.below(2);
    const size_t cap = s.chance(1, 12) ? (s.chance(1, 25) ? 1000 : 120) : 12;
    for (size_t i = 0; i < n; ++i)
    {
        const std::string t = i > 0 && s.flip() ? variant(s, v[s.below(i)].ref) : decimal(s, cap);
        c.log << "x" << i << " = " << t << "; ";
        Var x;
        c.check(read(t, x.ref), "generator: " + t);
        const CText raw(t);
        x.lib = s.flip() ? BigFloat{raw.get()} : lib(t);
        same(c, x.lib, x.ref, "number read from text");
        v.push_back(x);
    }
    for (size_t i = 0; i < n; ++i)
    {
        for (size_t j = 0; j < n; ++j)
        {
            order(c, v[i].lib, v[j].lib, compare(v[i].ref, v[j].ref), "order");
        }
    }
    size_t fractions = 0;
    const size_t steps = cap > 120 ? 1 : 1 + s.below(6);
    for (size_t i = 0; i < steps; ++i)
    {
        const size_t a = s.below(n), b = s.below(n), t = s.below(n);
        const Dec x = v[a].ref, y = v[b].ref;
        const size_t op = s.weighted({3, 3, 3});
        if (x.n.str().size() + y.n.str().size() + x.scale + y.scale > (cap > 120 ? 4000 : 700))
        {
            continue;
        }
        Dec want;
        want.scale = op == 2 ? x.scale + y.scale : std::max(x.scale, y.scale);
        want.n = op == 0 ? Big(x.at(want.scale) + y.at(want.scale)) : op == 1 ? Big(x.at(want.scale) - y.at(want.scale)) : Big(x.n * y.n);
        want.normalize();
        c.log << "x" << t << " = x" << a << " " << "+-*"[op] << " x" << b << "; ";
        const BigFloat &l = v[a].lib, &r = v[b].lib;
        const BigFloat named = op == 0 ? l.Add(r) : op == 1 ? l.Subtract(r) : l.Multiply(r);
        BigFloat result = op == 0 ? l + r : op == 1 ? l - r : l * r;
        static const char* const names[] = {"sum", "difference", "product"};
        same(c, named, want, names[op]);
        same(c, result, want, names[op]);
        order(c, named, result, 0, "named and operator form");
        same(c, l, x, "left operand afterwards");
        same(c, r, y, "right operand afterwards");
        fractions += x.scale > 0 && y.scale > 0 && x.scale != y.scale;
        for (size_t k = 0; k < n; ++k)
        {
            order(c, result, v[k].lib, compare(want, v[k].ref), "order of a result");
        }
        if (s.flip())
        {
            v[t].lib = result;
        }
        else
        {
            BigFloat copy(result), moved(std::move(copy));
            v[t].lib = std::move(moved);
        }
        v[t].ref = want;
    }
    for (auto& x : v)
    {
        same(c, x.lib, x.ref, "variable at the end");
    }
    c.label("sums and products");
    c.nontrivial = fractions > 0;
}

static void powers(Src& s, Ctx& c)
{
    const std::string t = decimal(s, s.chance(1, 50) ? 400 : s.chance(1, 3) ? 8 : 2);
    Dec d;
    c.check(read(t, d), "generator");
    const int e = static_cast<int>(s.range(-2, t.size() > 60 ? 3 : s.chance(1, 30) ? 90 : 14));
    c.log << t << " to the power " << e;
    const BigFloat x = lib(t);
    if (e < 0)
    {
        c.must_throw([&] { (void)x.Pow(e); }, "negative exponent");
    }
    else
    {
        Dec want;
        want.n = 1;
        for (int i = 0; i < e; ++i)
        {
            want.n *= d.n;
            want.scale += d.scale;
        }
        want.normalize();
        same(c, x.Pow(e), want, "power");
        c.nontrivial = e > 1 && d.scale > 0;
    }
    Dec sq = d;
    sq.n *= d.n;
    sq.scale += d.scale;
    sq.normalize();
    same(c, x.Sqr(), sq, "square");
    Dec pos = d;
    pos.n = abs(pos.n);
    same(c, x.Abs(), pos, "absolute value");
    same(c, x, d, "base afterwards");
    c.label("power");
}

static void quotients(Src& s, Ctx& c)
{
    const size_t cap = s.chance(1, 15) ? (s.chance(1, 15) ? 200 : 30) : 8;
    const std::string t = decimal(s, cap);
    Dec a, b;
    c.check(read(t, a), "generator");
    const std::string u = s.chance(1, 12) ? s.pick<const char*>({"0", "0.0", "-0.00", "+0"}) : s.chance(1, 4) ? variant(s, a) : decimal(s, s.flip() ? cap : 2);
    c.check(read(u, b), "generator");
    c.log << t << " divided by " << u;
    const BigFloat x = lib(t), y = lib(u);
    c.label("quotient");
    if (b.n == 0)
    {
        c.must_throw([&] { (void)(x / y); }, "division by zero");
        c.must_throw([&] { (void)x.Divide(y); }, "Divide by zero");
        c.label("division by zero");
        same(c, x, a, "dividend after the refusal");
        return;
    }
    for (int form = 0; form < 2; ++form)
    {
        const BigFloat q = form ? x / y : x.Divide(y);
        const std::string qt = q.ToString().str();
        Dec d;
        c.check(read(qt, d), "quotient prints as " + show(qt));
        // |q * b - a| < |b| * 10^-s
        const size_t unit = std::max(a.scale, b.scale);
        const size_t scale = d.scale + b.scale + a.scale + unit;
        const Big diff = abs(Big(d.n * b.n * pow10(scale - d.scale - b.scale) - a.at(scale)));
        const Big bound = abs(b.n) * pow10(scale - b.scale - unit);
        c.check(diff < bound, "quotient " + qt + " is off by a unit of the finest decimal place or more");
        order(c, q, lib(qt), 0, "quotient printed and read again");
    }
    same(c, x, a, "dividend afterwards");
    same(c, y, b, "divisor afterwards");
    c.nontrivial = a.n != 0 && abs(b.n) > 1;
}

static void roots(Src& s, Ctx& c)
{
    std::string t = decimal(s, s.chance(1, 8) ? (s.chance(1, 2) ? 45 : 12) : 3);
    if (t[0] == '-' && !s.chance(1, 6))
    {
        t.erase(0, 1);
    }
    Dec a;
    c.check(read(t, a), "generator");
    c.label("root");
    if (s.chance(1, 3)) // a perfect square
    {
        a.n *= a.n;
        a.scale *= 2;
        std::string u = text_of(a.n);
        if (a.scale > 0)
        {
            if (u.size() <= a.scale)
            {
                u.insert(0, a.scale - u.size() + 1, '0');
            }
            u.insert(u.size() - a.scale, ".");
        }
        t = u;
    }
    c.log << "root of " << t;
    const BigFloat x = lib(t);
    if (a.n < 0)
    {
        c.must_throw([&] { (void)x.Sqrt(); }, "root of a negative number");
        c.label("root of a negative number");
        return;
    }
    const BigFloat r = x.Sqrt();
    const std::string rt = r.ToString().str();
    Dec d;
    c.check(read(rt, d), "root prints as " + show(rt));
    c.check(d.n >= 0, "negative root");
    const size_t unit = a.scale;
    const size_t scale = std::max(d.scale, unit);
    const Big rr = d.at(scale), u = pow10(scale - unit), v = a.at(2 * scale);
    c.check((rr + u) * (rr + u) > v && (rr < u || (rr - u) * (rr - u) < v), "root " + rt + " is off by a unit of the finest decimal place or more");
    same(c, x, a, "operand afterwards");
    c.nontrivial = a.n > 1;
}

static void refusals(Src& s, Ctx& c)
{
    std::string t = decimal(s, 6);
    switch (s.below(4))
    {
        case 0:
            t = s.pick<const char*>({"", "-", "+", ".", "-.", "+.", "1.2.3", "1..2", "1.-2", "1.+2", "--1.5", "+-1.5", "1,5", "1e5", "1.5e3", "abc", " 1.5", "1.5 ", "1. 5", "0x1.8", "nan", "inf",
                "1.5f", "1.\xD9\xA5", "\xEF\xBC\x91.5", "..", "1.5-", "1-.5", "-1.-5", "1.5.", ".1.", "\xC2\xBD", "1\xC2\xB7" "5"});
            break;
        case 1:
        case 2:
        {
            uint32_t cp;
            do
            {
                cp = s.flip() ? code_point(s) : static_cast<uint32_t>(s.pick<int>({' ', '/', ':', '-', '+', '.', ',', 'e', 'E', 0x661, 0xFF15}));
            } while (cp >= '0' && cp <= '9');
            if (cp == '.' && t.find('.') == std::string::npos)
            {
                cp = ',';
            }
            const size_t from = t[0] == '-' || t[0] == '+' ? 1 : 0;
            const size_t at = from + s.below(t.size() - from + 1);
            if (at == 0 && (cp == '-' || cp == '+'))
            {
                throw Discard{};
            }
            t.insert(at, utf8(cp));
            break;
        }
        default:
            t = (s.flip() ? "-" : "+") + std::string(1, s.flip() ? '-' : '+') + t;
    }
    c.log << "no number: " << show(t);
    c.must_throw([&] { BigFloat b{String(t)}; (void)b; }, "a text that is no decimal number");
    const CText raw(t);
    c.must_throw([&] { BigFloat b{raw.get()}; (void)b; }, "a C text that is no decimal number");
    c.must_throw([&] { BigFloat b = operator""_bigfloat(raw.get(), t.size()); (void)b; }, "a literal that is no decimal number");
    c.label("refused");
    c.nontrivial = t.size() > 2;
}

static void natives(Src& s, Ctx& c)
{
    // six decimal places hold every multiple of 1/64
    const int64_t k = s.range(-(int64_t(1) << 53), int64_t(1) << 53) >> s.below(50);
    const double v = static_cast<double>(k) / 64.0;
    Dec d;
    d.n = Big(k) * 15625;
    d.scale = 6;
    d.normalize();
    c.log << "native " << v;
    same(c, BigFloat(v), d, "number made from a native one");
    c.label("native");
}

static void run(Src& s, Ctx& c)
{
    switch (s.weighted({16, 4, 8, 1, 6, 2}))
    {
        case 0:
            arithmetic(s, c);
            break;
        case 1:
            powers(s, c);
            break;
        case 2:
            quotients(s, c);
            break;
        case 3:
            roots(s, c);
            break;
        case 4:
            refusals(s, c);
            break;
        default:
            natives(s, c);
    }
}

static const Config cfg{"N04", run, 0, nullptr, true, 60};
PBT_MAIN(cfg)
