// F03: malformed templates are refused, and no template text whatsoever reads outside or crashes.
#include "fmt.h"

using namespace pbt;
using Caitlyn::String;

struct Formatting
{
    const char* fmt;
    size_t calls;
    String result;
    template <typename... A>
    void operator()(A&&... a)
    {
        result = String::Format(fmt, std::forward<A>(a)...);
    }
};

// Long digit runs would only ask for that much padding; they are either short or beyond every integer type
static void tame(std::string& t)
{
    std::string r;
    size_t run = 0;
    for (char ch : t)
    {
        run = ch >= '0' && ch <= '9' ? run + 1 : 0;
        if (run <= 4)
        {
            r += ch;
        }
    }
    t = r;
}

static void run(Src& s, Ctx& c)
{
    const auto& all = few_shapes<Formatting>();
    const auto& shape = all[s.below(all.size())];
    std::vector<Value> values;
    for (auto k : shape.kinds)
    {
        values.push_back(any_value(s, k));
    }
    const size_t n = shape.kinds.size();
    std::string t;
    bool must = false;
    const size_t kind = s.below(8);
    if (kind < 3)
    {
        // odd text from pieces that mean something to the parser
        const size_t len = s.length(30);
        bool huge = false;
        for (size_t i = 0; i < len; ++i)
        {
            switch (s.weighted({6, 3, 2, 1}))
            {
                case 0:
                    t += "{}{}::<>^.fsd0123"[s.below(17)];
                    break;
                case 1:
                    t += s.pick<const char*>({"{}", "{0}", "{:", "{{", "}}", "{1:>", "{:^7", ".3f", "{:.", "{:*", "{0:", ":}", "{:5}", "{:.2f}", "{-1}", "{ }", "{x}", "{0x}", "{1 :3}", "{:\xD9\xA3}", "{\xD9\xA1}", "{:.\xD9\xA3""f}"});
                    break;
                case 2:
                    put_utf8(t, code_point(s));
                    break;
                default:
                    t += static_cast<char>(s.range(1, 0x7F));
            }
        }
        tame(t);
        if (s.chance(1, 8))
        {
            huge = true;
            t += s.pick<const char*>({"{99999999999999999999}", "{18446744073709551615}", "{18446744073709551616}", "{0:99999999999999999999999}", "{:10000000000000000000}", "{:.99999999999f}", "{:.99999999999999999999f}", "{4294967296}", "{2147483648}"});
        }
        (void)huge;
        c.label("arbitrary");
        c.nontrivial = t.find('{') != std::string::npos || t.find('}') != std::string::npos;
    }
    else
    {
        must = true;
        // a well-formed template with one defect
        Template a = any_template(s, shape.kinds, values, true), b = any_template(s, shape.kinds, values, true);
        switch (kind)
        {
            case 3: // unclosed: nothing behind it closes it
            {
                std::string tail;
                const size_t len = s.below(6);
                for (size_t i = 0; i < len; ++i)
                {
                    const uint32_t cp = s.flip() ? s.pick<uint32_t>({':', '0', '<', '5', '.'}) : code_point(s);
                    if (cp != '{' && cp != '}')
                    {
                        put_utf8(tail, cp);
                    }
                }
                tame(tail);
                t = a.text + "{" + tail;
                c.label("unclosed placeholder");
                break;
            }
            case 4: // a lone closing brace between texts without any
                t = a.text + (s.flip() ? "x" : "") + "}" + (s.flip() ? "" : "y" + b.text);
                if (t.size() >= a.text.size() + 2 && t[a.text.size()] == '}' && t[a.text.size() + 1] == '}')
                {
                    throw Discard{};
                }
                c.label("lone closing brace");
                break;
            case 5: // number beyond the arguments
            {
                const uint64_t beyond = s.flip() ? n + s.below(3) : s.pick<uint64_t>({n + 1000, 4294967295u, 4294967296u, 4294967296u + (n ? n - 1 : 0), 18446744073709551615u, 9223372036854775808u, 256, 65536});
                if (beyond < n)
                {
                    throw Discard{};
                }
                t = a.text + "{" + std::to_string(beyond) + (s.flip() ? text_of(any_spec(s, Str)) : "") + "}" + b.text;
                c.label("number beyond the arguments");
                break;
            }
            case 6: // more automatic placeholders than arguments
            {
                if (n < 2)
                {
                    t = s.flip() ? "{}" : "{:5}";
                    if (n == 1)
                    {
                        t = "{1}";
                    }
                }
                else
                {
                    for (size_t i = 0; i <= n + s.below(2); ++i)
                    {
                        t += s.chance(1, 3) ? "{0}" : "";
                        t += s.flip() ? "{}" : "{" + text_of(any_spec(s, Str)) + "}";
                        t += s.flip() ? "," : "";
                    }
                }
                c.label("more placeholders than arguments");
                break;
            }
            default: // a huge number
                t = a.text + s.pick<const char*>({"{99999999999999999999}", "{18446744073709551616:>3}", "{340282366920938463463374607431768211456}"}) + b.text;
                c.label("number beyond every type");
        }
        c.nontrivial = t.size() > 2;
    }
    c.log << show(t) << " " << describe(shape.kinds, values);
    const CText text(t);
    Formatting f{text.get(), 0, {}};
    if (must)
    {
        c.must_throw([&] { shape.call(f, values); }, "malformed template");
        return;
    }
    try
    {
        shape.call(f, values);
        c.label("accepted");
    }
    catch (const std::exception&)
    {
        c.label("refused");
    }
}

static const Config cfg{"F03", run, 0, nullptr, true, 20};
PBT_MAIN(cfg)
