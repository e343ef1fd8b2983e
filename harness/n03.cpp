// N03: division, remainder, power and square root of big integers are exact.
#include <Caitlyn/Numeric>
#include "bignum.h"

using namespace pbt;
using Caitlyn::BigInteger;
using Caitlyn::String;

static BigInteger lib(const Big& v)
{
    return BigInteger{String(text_of(v))};
}
static void same(Ctx& c, const BigInteger& got, const Big& want, const char* what)
{
    const std::string t = text_of(want);
    c.eq(got.ToString().str(), t, what);
    const BigInteger fresh{String(t)};
    c.check(got == fresh && !(got < fresh) && !(got > fresh), std::string(what) + ": differs from the number read from its text " + t);
}
static Big power(const Big& b, int e)
{
    Big r = 1;
    for (int i = 0; i < e; ++i)
    {
        r *= b;
    }
    return r;
}

static void division(Src& s, Ctx& c)
{
    const size_t cap = s.chance(1, 20) ? (s.chance(1, 12) ? 700 : 120) : 30;
    Big a, b;
    bool exact = false;
    switch (s.weighted({4, 3, 2, 2}))
    {
        case 0:
            a = value_of(number(s, cap));
            b = value_of(number(s, s.flip() ? cap : 4));
            break;
        case 1: // a = q * b + r with a remainder of a chosen kind
        {
            b = value_of(number(s, cap / 2));
            const Big q = value_of(number(s, cap / 2));
            const Big m = abs(b);
            Big r = 0;
            switch (s.below(4))
            {
                case 0:
                    exact = true;
                    break;
                case 1:
                    r = m > 0 ? Big(m - 1) : Big(0);
                    break;
                case 2:
                    r = m > 1 ? 1 : 0;
                    break;
                default:
                    r = m > 0 ? Big(value_of(digits(s, cap / 2)) % m) : Big(0);
            }
            a = q * b + ((q * b < 0) ? Big(-r) : r);
            break;
        }
        case 2:
            a = value_of(number(s, cap));
            b = related(s, a, cap);
            break;
        default: // the divisor is a power of ten or close to one
            a = value_of(number(s, cap));
            b = pow10(s.below(cap / 2)) + s.range(-1, 1);
            b = s.flip() ? Big(-b) : b;
    }
    c.log << a << " divided by " << b;
    const BigInteger x = lib(a), y = lib(b);
    if (b == 0)
    {
        c.must_throw([&] { (void)(x / y); }, "division by zero");
        c.must_throw([&] { (void)(x % y); }, "remainder by zero");
        c.must_throw([&] { (void)x.Divide(y); }, "Divide by zero");
        c.must_throw([&] { (void)x.Modulo(y); }, "Modulo by zero");
        same(c, x, a, "dividend after the refusal");
        c.label("division by zero");
        return;
    }
    const Big q = a / b, r = a % b; // truncated, remainder with the dividend's sign
    same(c, x.Divide(y), q, "Divide");
    same(c, x.Modulo(y), r, "Modulo");
    const BigInteger lq = x / y, lr = x % y;
    same(c, lq, q, "quotient");
    same(c, lr, r, "remainder");
    same(c, lq * y + lr, a, "quotient times divisor plus remainder");
    same(c, x, a, "dividend afterwards");
    same(c, y, b, "divisor afterwards");
    c.label_if(exact, "no remainder by construction");
    c.label_if(a < 0 || b < 0, "a negative operand");
    c.label_if(abs(a) < abs(b), "dividend smaller than divisor");
    c.nontrivial = abs(q) > 9 && abs(b) > 9;
}

static void powers(Src& s, Ctx& c)
{
    const bool large = s.chance(1, 60);
    const Big b = value_of(number(s, large ? 1200 : s.chance(1, 3) ? 25 : 3));
    const size_t len = b.str().size();
    const size_t most = std::min<size_t>(large ? 600 : 70, (large ? 1500 : 260) / len);
    int e = static_cast<int>(s.range(-2, static_cast<int64_t>(most)));
    if (abs(b) <= 1 && s.chance(1, 3))
    {
        e = static_cast<int>(s.pick<int>({1000000, 999999, 2147483647, 65536, -2147483647 - 1}));
    }
    c.log << b << " to the power " << e;
    const BigInteger x = lib(b);
    if (e < 0)
    {
        c.must_throw([&] { (void)x.Pow(e); }, "negative exponent");
        c.label("negative exponent");
    }
    else
    {
        same(c, x.Pow(e), abs(b) <= 1 ? (b == -1 && e % 2 == 0 ? Big(1) : e == 0 ? Big(1) : b) : power(b, e), "power");
        c.nontrivial = e > 2 && abs(b) > 1;
    }
    same(c, x.Sqr(), b * b, "square");
    same(c, x.Abs(), abs(b), "absolute value");
    same(c, x, b, "base afterwards");
}

static void roots(Src& s, Ctx& c)
{
    Big v;
    const size_t cap = s.chance(1, 15) ? (s.chance(1, 12) ? 120 : 40) : 12;
    switch (s.below(4))
    {
        case 0:
            v = value_of(digits(s, cap));
            break;
        case 1:
        {
            const Big r = value_of(digits(s, cap / 2));
            v = r * r;
            break;
        }
        case 2:
        {
            const Big r = value_of(digits(s, cap / 2));
            v = r * r + s.range(-1, 1);
            break;
        }
        default:
        {
            const Big r = value_of(digits(s, cap / 2));
            v = r * r + 2 * r; // the last number before the next square
        }
    }
    if (s.chance(1, 10))
    {
        v = -v;
    }
    c.log << "root of " << v;
    const BigInteger x = lib(v);
    if (v < 0)
    {
        c.must_throw([&] { (void)x.Sqrt(); }, "root of a negative number");
        c.label("root of a negative number");
    }
    else
    {
        same(c, x.Sqrt(), boost::multiprecision::sqrt(v), "square root");
        c.nontrivial = v > 9;
    }
    same(c, x.Abs(), abs(v), "absolute value");
    same(c, x, v, "operand afterwards");
}

static void run(Src& s, Ctx& c)
{
    switch (s.weighted({8, 3, 2}))
    {
        case 0:
            division(s, c);
            c.label("division");
            break;
        case 1:
            powers(s, c);
            c.label("power");
            break;
        default:
            roots(s, c);
            c.label("root");
    }
}

// All small pairs, powers and roots
static void small(uint64_t index, Ctx& c)
{
    c.nontrivial = index > 9;
    const auto a = static_cast<int>(index) - 130;
    c.log << "dividend " << a << ", divisors -35..35";
    const BigInteger x = lib(a);
    for (int b = -35; b <= 35; ++b)
    {
        if (b != 0)
        {
            same(c, x / lib(b), a / b, "quotient");
            same(c, x % lib(b), a % b, "remainder");
        }
    }
    if (a >= 0)
    {
        same(c, x.Sqrt(), boost::multiprecision::sqrt(Big(a)), "square root");
    }
    for (int e = 0; e < 6; ++e)
    {
        same(c, x.Pow(e), power(a, e), "power");
    }
}

static const Config cfg{"N03", run, 261, small, true, 60};
PBT_MAIN(cfg)
