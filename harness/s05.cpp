// S05: characters and code points; which byte texts are characters.
#include <Caitlyn/String>
#include "gen.h"

using namespace pbt;
using Caitlyn::Char;
using Caitlyn::CodePoint;

static const uint32_t Chunk = 4096;

static void one(uint32_t cp, Ctx& c)
{
    const std::string bytes = utf8(cp);
    auto want = [&](bool ok, const char* what)
    {
        if (!ok)
        {
            c.fail("code point " + std::to_string(cp) + ": " + what);
        }
    };
    const Char a(static_cast<CodePoint>(cp));
    want(a.str() == bytes, "encoding");
    want(a.GetCodePoint() == cp, "code point read back");
    want(a.size() == bytes.size() && a.Length() == bytes.size(), "size");
    want(std::string(a.data()) == bytes && std::string(a.c_str()) == bytes, "bytes");
    want(a.NotEmpty() && !a.IsEmpty(), "emptiness");
    const CText t(bytes);
    const Char b(t.get());
    want(b == a && b.GetCodePoint() == cp && b.str() == bytes, "character made from its bytes");
    const Char d(bytes);
    want(d == a && d.GetCodePoint() == cp, "character made from a byte string");
    Char e("x");
    e = static_cast<CodePoint>(cp);
    want(e.str() == bytes && e.GetCodePoint() == cp, "assigned from a code point");
    e = Char("y");
    e = t.get();
    want(e.str() == bytes && e.GetCodePoint() == cp, "assigned from bytes");
    e = Char("z");
    e = bytes;
    want(e.str() == bytes, "assigned from a byte string");
    if (cp < 0x80)
    {
        const Char f(static_cast<char>(cp));
        want(f == a && f.str() == bytes, "character made from one byte");
        e = Char("w");
        e = static_cast<char>(cp);
        want(e == a, "assigned from one byte");
    }
    std::ostringstream os;
    os << a;
    want(os.str() == bytes, "stream output");
}

static void chunk(uint64_t i, Ctx& c)
{
    const uint32_t first = static_cast<uint32_t>(i) * Chunk;
    for (uint32_t cp = first; cp < first + Chunk; ++cp)
    {
        if (cp != 0 && (cp < 0xD800 || cp > 0xDFFF))
        {
            one(cp, c);
        }
    }
    c.log << "all code points " << first << ".." << first + Chunk - 1;
    c.label("chunk of 4096 code points");
    c.nontrivial = true;
}

// Overlong forms, surrogates and values past U+10FFFF are structurally complete but no UTF-8: unspecified
static bool unspecified(const std::string& b)
{
    Cps v;
    return split_utf8(b, v) && v.size() == 1 && utf8(v[0]) != b || (split_utf8(b, v) && v.size() == 1 && (v[0] > 0x10FFFF || (v[0] >= 0xD800 && v[0] <= 0xDFFF)));
}

static void run(Src& s, Ctx& c)
{
    std::string b;
    if (s.flip())
    {
        b = utf8(code_point(s));
        const size_t n = s.below(3);
        for (size_t i = 0; i < n; ++i)
        {
            switch (s.below(5))
            {
                case 0:
                    if (!b.empty())
                    {
                        b.resize(s.below(b.size()));
                    }
                    break;
                case 1:
                    b += static_cast<char>(s.range(0x80, 0xBF));
                    break;
                case 2:
                    if (!b.empty())
                    {
                        b[s.below(b.size())] = static_cast<char>(s.range(1, 255));
                    }
                    break;
                case 3:
                    b += utf8(code_point(s));
                    break;
                default:
                    b.insert(b.begin() + static_cast<long>(s.below(b.size() + 1)), static_cast<char>(s.range(1, 255)));
            }
        }
    }
    else
    {
        const size_t n = s.below(7);
        for (size_t i = 0; i < n; ++i)
        {
            switch (s.below(5))
            {
                case 0:
                    b += static_cast<char>(s.range(1, 0x7F));
                    break;
                case 1:
                    b += static_cast<char>(s.range(0xC2, 0xF4));
                    break;
                case 4:
                    b += static_cast<char>(s.range(1, 255));
                    break;
                default:
                    b += static_cast<char>(s.range(0x80, 0xBF));
            }
        }
    }
    c.log << show(b);
    Cps v;
    const bool valid = split_utf8(b, v) && v.size() == 1;
    if (unspecified(b))
    {
        c.label("unspecified encoding");
        return;
    }
    const uint32_t old = code_point(s);
    const CText t(b);
    const std::string copy(t.get());
    auto fresh = [&] { return Char(static_cast<CodePoint>(old)); };
    if (valid)
    {
        c.label("one character");
        c.eq(Char(t.get()).str(), b, "bytes");
        c.eq(Char(copy).GetCodePoint(), v[0], "code point");
        Char x = fresh();
        x = t.get();
        c.eq(x.str(), b, "assigned character");
        x = fresh();
        x = copy;
        c.eq(x.str(), b, "assigned character");
        c.nontrivial = b.size() > 1;
        return;
    }
    c.label("no character");
    c.label_if(b.size() > 4, "longer than four bytes");
    c.nontrivial = !b.empty();
    c.must_throw([&] { Char x(t.get()); }, "constructing from bytes");
    c.must_throw([&] { Char x(copy); }, "constructing from a byte string");
    Char x = fresh();
    c.must_throw([&] { x = t.get(); }, "assigning bytes");
    c.eq(x.str(), utf8(old), "value after a refused assignment");
    c.must_throw([&] { x = copy; }, "assigning a byte string");
    c.eq(x.str(), utf8(old), "value after a refused assignment");
}

static const Config cfg{"S05", run, 0x110000 / Chunk, chunk, false, 20};
PBT_MAIN(cfg)
