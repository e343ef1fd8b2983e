// X01: running out of memory at any point inside an operation.
#include <cstdlib>
#include <new>
#include <unistd.h>

#include "steps.h"

// ---------------------------------------------------------------------------------------------------------------------
// Allocation with a point of failure
// ---------------------------------------------------------------------------------------------------------------------
static bool failing, keep_failing;
static size_t until, failures;

static void* allocate(size_t n)
{
    if (failing && ((failures > 0 && keep_failing) || (until > 0 && --until == 0)))
    {
        ++failures;
        return nullptr;
    }
    return std::malloc(n ? n : 1);
}
void* operator new(size_t n)
{
    if (void* p = allocate(n))
    {
        return p;
    }
    throw std::bad_alloc();
}
void* operator new[](size_t n)
{
    return operator new(n);
}
void* operator new(size_t n, const std::nothrow_t&) noexcept
{
    return allocate(n);
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept
{
    return allocate(n);
}
void operator delete(void* p) noexcept
{
    std::free(p);
}
void operator delete[](void* p) noexcept
{
    std::free(p);
}
void operator delete(void* p, size_t) noexcept
{
    std::free(p);
}
void operator delete[](void* p, size_t) noexcept
{
    std::free(p);
}
void operator delete(void* p, const std::nothrow_t&) noexcept
{
    std::free(p);
}
void operator delete[](void* p, const std::nothrow_t&) noexcept
{
    std::free(p);
}

// ---------------------------------------------------------------------------------------------------------------------
// Everything an object can show
// ---------------------------------------------------------------------------------------------------------------------
static std::string show_pool(const Pool& p)
{
    std::string out;
    for (auto& x : p.strings)
    {
        out += x.str() + "|";
    }
    for (auto& x : p.integers)
    {
        out += x.ToString().str() + "|";
    }
    for (auto& x : p.floats)
    {
        out += x.ToString().str() + "|";
    }
    for (auto& x : p.parsed)
    {
        out += x.ToString().str() + x.GetErrorString().str() + "|";
    }
    for (auto& x : p.results)
    {
        out += (x.HasValue() ? "+" + x.Get().str() : "-" + x.GetError().str()) + "|";
    }
    for (auto& x : p.numeric)
    {
        out += (x.HasValue() ? x.Get().ToString().str() : std::to_string(x.GetError())) + "|";
    }
    for (auto& x : p.map)
    {
        out += x.first.str() + std::to_string(x.second) + "|";
    }
    return out + p.data.ToString(true).str() + p.builder.str().str() + p.owner->str();
}

// Reads whatever a thread of work owns; what it holds after a failure is not promised, only that it can be read
static size_t read_own(const Own& w)
{
    size_t n = w.text.str().size() + w.text.ByteCount() + w.data.ToString().size() + w.number.ToString().size() + w.decimal.ToString().size();
    try
    {
        n += w.builder.str().size();
    }
    catch (const std::exception&)
    {
        // The stream inside may have kept a part of a character
    }
    n += w.document.ToString().size() + w.document.GetErrorString().size();
    n += (w.result.HasValue() ? w.result.Get() : w.result.GetError()).str().size();
    n += w.owner != nullptr ? w.owner->str().size() : 0;
    n += w.unique != nullptr ? w.unique->str().size() : 0;
    n += w.weak.expired() ? 0 : w.weak.lock()->str().size();
    return n;
}

static void reuse(Ctx& c, const Pool& s, Own& w)
{
    const String& text = s.strings[0];
    w.text = text;
    w.text.PushBack(Char("!"));
    c.eq(w.text.str(), text.str() + "!", "a string assigned to after running out of memory");
    w.data = s.data;
    c.eq(w.data.ToString().str(), s.data.ToString().str(), "a JSON value assigned to after running out of memory");
    w.data[String("again")] = 1;
    c.check(w.data.At(String("again")).GetIntegral() == 1, "a JSON value changed after running out of memory");
    w.document = s.parsed[0];
    c.eq(w.document.ToString().str(), s.parsed[0].ToString().str(), "a document assigned to after running out of memory");
    w.number = s.integers[0];
    c.eq(w.number.ToString().str(), s.integers[0].ToString().str(), "an integer assigned to after running out of memory");
    w.decimal = s.floats[0];
    c.eq(w.decimal.ToString().str(), s.floats[0].ToString().str(), "a decimal assigned to after running out of memory");
    w.result = Expected<String, String>(text);
    c.eq(w.result.Get().str(), text.str(), "a result assigned to after running out of memory");
    w.result = Expected<String, String>(MakeError(text));
    c.eq(w.result.GetError().str(), text.str(), "a result assigned to after running out of memory");
    w.owner = s.owner;
    w.weak = w.owner;
    w.unique = new String(text);
    c.check(w.owner.Get() == s.owner.Get() && w.weak.lock() == s.owner && w.unique->str() == text.str(), "an owner assigned to after running out of memory");
}

static std::string everything(const Pool& s, Own&, const Op&)
{
    const Pool again(s.texts, s.numbers, s.documents, s.file);
    return again.owner->str();
}

static void run(Src& s, Ctx& c)
{
    std::vector<std::string> texts, numbers, documents;
    for (size_t n = 1 + s.below(3); n > 0; --n)
    {
        texts.push_back(utf8_text(s, 25));
    }
    for (size_t n = 1 + s.below(3); n > 0; --n)
    {
        numbers.push_back(number(s));
    }
    for (size_t n = 1 + s.below(2); n > 0; --n)
    {
        documents.push_back(document(s, texts));
    }
    for (auto* list : {&texts, &numbers, &documents})
    {
        for (auto& x : *list)
        {
            c.log << "  " << pbt::show(x) << "\n";
        }
    }
    const std::string base = "x01." + std::to_string(getpid());
    {
        std::ofstream out(base + ".shared", std::ios::binary | std::ios::trunc);
        for (auto& x : texts)
        {
            out << x << "\n";
        }
    }
    size_t failed = 0, reported = 0;
    {
        const Pool shared(texts, numbers, documents, base + ".shared");
        const std::string before = show_pool(shared);
        Own own;
        own.file = base + ".own";
        for (size_t n = 1 + s.below(5); n > 0; --n)
        {
            const Op op{s.below(Steps + 1), s.below(4), s.below(4), s.below(13)};
            const Step step = op.what < Steps ? steps[op.what].step : everything;
            const char* const name = op.what < Steps ? steps[op.what].name : "make objects of all kinds";
            const size_t stride = s.pick<size_t>({1, 1, 2, 3, 7, 20});
            const bool keep = s.flip();
            c.log << name << " (" << op.a << " " << op.b << " " << op.n << "), " << (keep ? "out of memory from" : "no memory for") << " allocation ";
            const size_t first = 1 + s.below(stride);
            size_t points = 0, tried = 0;
            for (size_t at = first; tried < 150; at += stride + tried / 20, ++tried)
            {
                until = at;
                failures = 0;
                keep_failing = keep;
                failing = true;
                bool out_of_memory = false, other = false;
                try
                {
                    const std::string result = step(shared, own, op);
                    failing = false;
                }
                catch (const std::bad_alloc&)
                {
                    failing = false;
                    out_of_memory = true;
                }
                catch (const std::exception&)
                {
                    failing = false;
                    other = true;
                }
                (void)other;
                c.check(failures > 0 || !out_of_memory, std::string(name) + ": reports the lack of memory without one");
                read_own(own);
                points += failures > 0;
                reported += out_of_memory;
                if (failures == 0)
                {
                    break;
                }
            }
            c.log << first << ", +" << stride << " (" << points << " points)\n";
            failed += points;
            c.check(show_pool(shared) == before, std::string(name) + " changed an object it only reads, out of memory");
        }
        reuse(c, shared, own);
        read_own(own);
    }
    std::remove((base + ".own").c_str());
    std::remove((base + ".shared").c_str());
    c.label_if(failed > 20, "more than 20 points of failure");
    c.label_if(reported < failed, "a lack of memory some operation got over");
    c.nontrivial = reported > 4;
}

static const Config cfg{"X01", run, 0, nullptr, true, 120};
PBT_MAIN(cfg)
