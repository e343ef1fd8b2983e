// F04: a text builder holds the concatenation of what was appended.
#include <memory>
#include "fmt.h"

using namespace pbt;
using Caitlyn::String;
using Caitlyn::StringBuilder;

struct Appending
{
    StringBuilder* b;
    const char* fmt;
    int way; // 0 Append, 1 AppendLine, 2 constructor, 3 MakeText
    template <typename... A>
    void operator()(A&&... a)
    {
        switch (way)
        {
            case 0:
                b->Append(fmt, std::forward<A>(a)...);
                break;
            default:
                b->AppendLine(fmt, std::forward<A>(a)...);
        }
    }
};
struct Making
{
    std::unique_ptr<StringBuilder> made;
    const char* fmt;
    int way;
    template <typename... A>
    void operator()(A&&... a)
    {
        if (way == 0)
        {
            made.reset(new StringBuilder(fmt, std::forward<A>(a)...));
        }
        else
        {
            made.reset(new StringBuilder(Caitlyn::MakeText(fmt, std::forward<A>(a)...)));
        }
    }
};

struct Slot
{
    std::unique_ptr<StringBuilder> b;
    std::string model;
};

static void run(Src& s, Ctx& c)
{
    std::vector<Slot> slots;
    size_t appended = 0, copies = 0;
    auto make = [&](Slot& slot)
    {
        switch (s.below(8))
        {
            case 0:
                slot.b.reset(new StringBuilder());
                slot.model.clear();
                c.log << "new; ";
                break;
            case 1:
            {
                const std::string t = stretched(s, utf8_text(s, 12));
                const CText ct(t);
                slot.b.reset(new StringBuilder(ct.get()));
                slot.model = t;
                c.log << "new " << show(t) << "; ";
                break;
            }
            case 2:
            {
                const std::string t = stretched(s, utf8_text(s, 12));
                slot.b.reset(new StringBuilder(String(t)));
                slot.model = t;
                c.log << "new String " << show(t) << "; ";
                break;
            }
            case 3:
            {
                const char ch = static_cast<char>(s.range(0x20, 0x7E));
                slot.b.reset(s.flip() ? new StringBuilder(ch) : new StringBuilder(Caitlyn::MakeText(ch)));
                slot.model = std::string(1, ch);
                c.log << "new '" << ch << "'; ";
                break;
            }
            case 4:
                slot.b.reset(new StringBuilder(Caitlyn::MakeText()));
                slot.model.clear();
                c.log << "MakeText; ";
                break;
            case 5:
            {
                std::string t = utf8_text(s, 12) + s.pick<const char*>({"", "{}", "}{"});
                slot.b.reset(new StringBuilder(Caitlyn::MakeText(String(t))));
                slot.model = t;
                c.log << "MakeText " << show(t) << "; ";
                break;
            }
            default:
            {
                const auto& all = few_shapes<Making>();
                const auto* shape = &all[s.below(all.size())];
                if (shape->kinds.empty())
                {
                    shape = &all[0];
                }
                std::vector<Value> values;
                for (auto k : shape->kinds)
                {
                    values.push_back(any_value(s, k));
                }
                const Template t = any_template(s, shape->kinds, values, true);
                const CText ct(t.text);
                Making m{nullptr, ct.get(), static_cast<int>(s.below(2))};
                shape->call(m, values);
                slot.b = std::move(m.made);
                slot.model = t.expected;
                c.log << "new formatted " << show(t.text) << "; ";
            }
        }
    };
    slots.emplace_back();
    make(slots[0]);
    const size_t steps = 1 + s.below(20);
    for (size_t i = 0; i < steps; ++i)
    {
        const size_t at = s.below(slots.size());
        c.log << "\n  b" << at << ": ";
        switch (s.weighted({4, 4, 4, 2, 1, 1, 1}))
        {
            case 0:
            {
                const std::string t = stretched(s, utf8_text(s, 20)) + s.pick<const char*>({"", "", "{}", "{", "\n"});
                c.log << "Append " << show(t);
                if (s.flip())
                {
                    const CText ct(t);
                    slots[at].b->Append(ct.get());
                }
                else
                {
                    slots[at].b->Append(String(t));
                }
                slots[at].model += t;
                ++appended;
                break;
            }
            case 1:
            {
                const std::string t = stretched(s, utf8_text(s, 20)) + s.pick<const char*>({"", "", "{}", "{", "\n"});
                c.log << "AppendLine " << show(t);
                if (s.flip())
                {
                    const CText ct(t);
                    slots[at].b->AppendLine(ct.get());
                }
                else
                {
                    slots[at].b->AppendLine(String(t));
                }
                slots[at].model += t + "\n";
                ++appended;
                break;
            }
            case 2:
            {
                const auto& all = few_shapes<Appending>();
                const auto& shape = all[s.below(all.size())];
                if (shape.kinds.empty())
                {
                    break;
                }
                std::vector<Value> values;
                for (auto k : shape.kinds)
                {
                    values.push_back(any_value(s, k));
                }
                const Template t = any_template(s, shape.kinds, values, true);
                const CText ct(t.text);
                Appending a{slots[at].b.get(), ct.get(), static_cast<int>(s.below(2))};
                c.log << (a.way ? "AppendLine " : "Append ") << show(t.text) << " " << describe(shape.kinds, values);
                shape.call(a, values);
                slots[at].model += t.expected + (a.way ? "\n" : "");
                ++appended;
                break;
            }
            case 3:
                if (slots.size() < 5)
                {
                    c.log << "copy to b" << slots.size();
                    Slot n;
                    n.b.reset(new StringBuilder(*slots[at].b));
                    n.model = slots[at].model;
                    slots.push_back(std::move(n));
                    ++copies;
                }
                break;
            case 4:
            {
                c.log << "move";
                std::unique_ptr<StringBuilder> n(new StringBuilder(std::move(*slots[at].b)));
                slots[at].b = std::move(n);
                break;
            }
            case 5:
                if (slots.size() < 5)
                {
                    slots.emplace_back();
                    make(slots.back());
                }
                break;
            default:
                if (slots.size() > 1)
                {
                    c.log << "destroy";
                    slots.erase(slots.begin() + static_cast<long>(at));
                }
        }
        for (size_t k = 0; k < slots.size(); ++k)
        {
            c.eq(slots[k].b->str().str(), slots[k].model, ("content of builder " + std::to_string(k)).c_str());
            if (s.chance(1, 4))
            {
                c.eq(slots[k].b->str().str(), slots[k].model, "content read again");
            }
        }
    }
    c.label_if(copies > 0, "copied");
    c.label_if(appended > 3, "more than three appends");
    c.nontrivial = appended > 2;
}

static const Config cfg{"F04", run, 0, nullptr, true, 20};
PBT_MAIN(cfg)
