// F02: one specified placeholder: alignment, fill, width and precision.
#include "fmt.h"

using namespace pbt;
using Caitlyn::String;

struct Formatting
{
    const char* fmt;
    String result;
    template <typename... A>
    void operator()(A&&... a)
    {
        result = String::Format(fmt, std::forward<A>(a)...);
    }
};

static void run(Src& s, Ctx& c)
{
    const auto& all = shapes<Formatting>();
    const Shape<Formatting>* shape;
    do
    {
        shape = &all[s.below(all.size())];
    } while (shape->kinds.size() != 1);
    std::vector<Value> values{any_value(s, shape->kinds[0])};
    const Kind k = shape->kinds[0];
    const std::string value = plain(k, values[0]);
    const Spec p = any_spec(s, k);
    const std::string fmt = std::string(s.chance(1, 4) ? "{0" : "{") + text_of(p) + "}";
    c.log << show(fmt) << " " << show(value);
    const CText text(fmt);
    Formatting f{text.get(), {}};
    shape->call(f, values);
    c.eq(f.result.str(), render(value, p), "formatted text");
    Cps v;
    split_utf8(value, v);
    const bool pads = p.width > static_cast<int>(v.size());
    c.label_if(pads, "padded");
    c.label_if(pads && p.align == '^', "centred");
    c.label_if(pads && p.align == '^' && (p.width - static_cast<int>(v.size())) % 2, "centred with an odd rest");
    c.label_if(p.precision >= 0, "precision");
    c.label_if(p.precision >= 0 && p.width > 0, "precision and width");
    c.label_if(p.fill > 0x7F, "multi-byte fill");
    c.label_if(p.width >= 0 && !pads, "already wide enough");
    c.label_if(v.size() != value.size(), "multi-byte text");
    c.nontrivial = pads || p.precision >= 0;
}

static const Config cfg{"F02", run, 0, nullptr, true, 20};
PBT_MAIN(cfg)
