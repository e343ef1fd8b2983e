// N01: addition, subtraction and multiplication of big integers are exact.
#include <Caitlyn/Numeric>
#include "bignum.h"

using namespace pbt;
using Caitlyn::BigInteger;
using Caitlyn::String;

struct Var
{
    BigInteger lib;
    Big ref;
};

static std::string shown(const BigInteger& b)
{
    return b.ToString().str();
}
static void same(Ctx& c, const BigInteger& got, const Big& want, const char* what)
{
    const std::string t = text_of(want);
    c.eq(shown(got), t, what);
    // canonical: equal to and as large as the number read from its text
    const BigInteger fresh{String(t)};
    c.check(got == fresh && fresh == got && !(got != fresh) && !(got < fresh) && !(got > fresh), std::string(what) + ": differs from the number read from its text " + t);
    c.eq(static_cast<size_t>(got.Size()), static_cast<size_t>(fresh.Size()), (std::string(what) + ": number of digits").c_str());
}

static void run(Src& s, Ctx& c)
{
    std::vector<Var> v;
    const size_t n = 2 + s.below(3);
    const size_t cap = s.chance(1, 12) ? (s.chance(1, 30) ? 9000 : 400) : s.chance(1, 4) ? 80 : 25;
    for (size_t i = 0; i < n; ++i)
    {
        const Big r = i == 0 ? value_of(number(s, cap)) : related(s, v[s.below(i)].ref, cap);
        v.push_back({BigInteger{String(text_of(r))}, r});
        c.log << "x" << i << " = " << r << "; ";
    }
    size_t mixed = 0, wide = 0;
    bool zero = false;
    const size_t steps = 1 + s.below(8);
    for (size_t i = 0; i < steps; ++i)
    {
        const size_t a = s.below(n), b = s.below(n), t = s.below(n);
        const Big x = v[a].ref, y = v[b].ref;
        const size_t op = s.weighted({3, 3, 2});
        if (op == 2 && x.str().size() + y.str().size() > 900)
        {
            continue;
        }
        const Big want = op == 0 ? Big(x + y) : op == 1 ? Big(x - y) : Big(x * y);
        c.log << "x" << t << " = x" << a << " " << "+-*"[op] << " x" << b << "; ";
        const BigInteger& l = v[a].lib;
        const BigInteger& r = v[b].lib;
        const BigInteger named = op == 0 ? l.Add(r) : op == 1 ? l.Subtract(r) : l.Multiply(r);
        BigInteger result = op == 0 ? l + r : op == 1 ? l - r : l * r;
        static const char* const names[] = {"sum", "difference", "product"};
        same(c, named, want, names[op]);
        same(c, result, want, names[op]);
        same(c, l, x, "left operand afterwards");
        same(c, r, y, "right operand afterwards");
        // laws relating results to each other
        if (op == 0)
        {
            same(c, r + l, want, "sum of the swapped operands");
            same(c, result - r, x, "sum minus an operand");
        }
        else if (op == 1)
        {
            same(c, r - l, -want, "difference of the swapped operands");
            same(c, result + r, x, "difference plus an operand");
        }
        else
        {
            same(c, r * l, want, "product of the swapped operands");
        }
        mixed += (x < 0) != (y < 0);
        wide += x.str().size() > 3 && y.str().size() > 3;
        zero |= want == 0 && (x != 0 || y != 0);
        switch (s.below(3))
        {
            case 0:
                v[t].lib = result;
                break;
            case 1:
                v[t].lib = std::move(result);
                break;
            default:
            {
                BigInteger copy(result), moved(std::move(copy));
                v[t].lib = moved;
            }
        }
        v[t].ref = want;
    }
    for (auto& x : v)
    {
        same(c, x.lib, x.ref, "variable at the end");
    }
    c.label_if(mixed > 0, "operands of opposite sign");
    c.label_if(zero, "cancellation to zero");
    c.label_if(cap >= 400, "up to 400 digits or more");
    c.nontrivial = wide > 0;
}

static const Config cfg{"N01", run, 0, nullptr, true};
PBT_MAIN(cfg)
