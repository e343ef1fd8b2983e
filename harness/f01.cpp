// F01: well-formed templates put the right arguments in the right places and keep everything else.
#include "fmt.h"

using namespace pbt;
using Caitlyn::String;

struct Formatting
{
    const char* fmt;
    String result;
    template <typename... A>
    void operator()(A&&... a)
    {
        result = String::Format(fmt, std::forward<A>(a)...);
    }
};

static void run(Src& s, Ctx& c)
{
    const auto& all = shapes<Formatting>();
    const auto& shape = all[s.below(all.size())];
    std::vector<Value> values;
    for (auto k : shape.kinds)
    {
        values.push_back(any_value(s, k));
    }
    const Template t = any_template(s, shape.kinds, values, s.flip());
    c.log << show(t.text) << " " << describe(shape.kinds, values);
    const CText text(t.text);
    Formatting f{text.get(), {}};
    shape.call(f, values);
    c.eq(f.result.str(), t.expected, "formatted text");
    c.label_if(t.placeholders > 1, "several placeholders");
    c.label_if(t.braces > 0, "doubled braces");
    c.label_if(t.specs > 0, "with specification");
    c.label_if(t.reordered, "arguments out of order");
    c.label_if(shape.kinds.size() == 1 && t.placeholders > 1, "sole argument used several times");
    c.label_if(shape.kinds.empty(), "no arguments");
    c.nontrivial = t.placeholders > 1 || (t.placeholders && t.braces);
}

static const Config cfg{"F01", run, 0, nullptr, true, 20};
PBT_MAIN(cfg)
