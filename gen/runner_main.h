// The one translation unit with the plan reader.
#ifndef GEN_RUNNER_MAIN_H_
#define GEN_RUNNER_MAIN_H_

#include "runner.h"

Stage& stage()
{
    static Stage s = Stage();
    return s;
}

static void helper(int depth)
{
    if (depth > 0)
    {
        helper(depth - 1);
        return;
    }
    ASSERT_EQ(depth, 1);
}

void act(int id)
{
    ++stage().counts[id];
    const Deed d = stage().deeds[id];
    const std::string& k = d.kind;
    if (k == "pass" || k == "") return;
    if (k == "PASS") { PASS(); return; }
    if (k == "holds") { ASSERT_TRUE(id >= 0); ASSERT_FALSE(id < 0); ASSERT_EQ(id, id); ASSERT_NE(id, id + 1); ASSERT_STREQ("a", "a"); return; }
    if (k == "caught") { try { ASSERT_TRUE(false); } catch (const std::exception&) {} return; }
    if (k == "prints") { std::cout << "some text of the test\n"; return; }
    if (k == "true") { ASSERT_TRUE(id < 0); }
    if (k == "false") { ASSERT_FALSE(id >= 0); }
    if (k == "eq") { ASSERT_EQ(d.text, d.text + "x"); }
    if (k == "deep") { helper(5); }
    if (k == "FAIL") { FAIL(); }
    if (k == "message") { FAIL_MESSAGE() << d.text << " and more"; }
    if (k == "streq") { ASSERT_STREQ(d.text.c_str(), nullptr); }
    if (k == "printsfail") { std::cout << "some text of the test\n"; FAIL(); }
    if (k == "runtime") throw std::runtime_error(d.text);
    if (k == "odd") throw Odd(d.text);
    if (k == "base") throw std::exception();
    if (k == "alloc") throw std::bad_alloc();
    if (k == "range") throw std::out_of_range(d.text);
    if (k == "int") throw id;
    if (k == "text") throw "a text";
    if (k == "string") throw d.text;
    if (k == "object") throw Plain();
    if (k == "nested")
    {
        try { throw std::logic_error(d.text); }
        catch (...) { std::throw_with_nested(Odd(d.text)); }
    }
    std::cout << "@@ survived " << id << "\n";
}

template <int N>
struct Slots
{
    static void fill(std::vector<void (*)()>& v)
    {
        Slots<N - 1>::fill(v);
        v.push_back(slot<N - 1>);
    }
};
template <>
struct Slots<0>
{
    static void fill(std::vector<void (*)()>&) {}
};

static std::string unhex(const std::string& h)
{
    std::string r;
    for (std::size_t i = 1; i + 1 < h.size(); i += 2)
    {
        r += char(std::strtol(h.substr(i, 2).c_str(), nullptr, 16));
    }
    return r;
}

int main()
{
    std::vector<void (*)()> slots;
    Slots<300>::fill(slots);
    std::ifstream in("plan.txt");
    std::string line;
    int rc = 0;
    while (std::getline(in, line))
    {
        std::istringstream w(line);
        std::string what;
        w >> what;
        if (what == "deed")
        {
            int id;
            std::string kind, text;
            w >> id >> kind >> text;
            stage().deeds[id] = Deed{kind, unhex(text)};
        }
        else if (what == "add")
        {
            int id;
            std::string suite, name;
            w >> id >> suite >> name;
            Caitlyn::Test::TestRegistry::Instance().AddTest(unhex(suite).c_str(), unhex(name).c_str(), slots[id - 1000]);
        }
        else if (what == "run")
        {
            stage().counts.clear();
            stage().built = 0;
            rc = Caitlyn::Test::TestRegistry::Instance().RunAll();
            std::cout << "\n@@ result " << rc << "\n";
            for (const auto& c : stage().counts)
            {
                std::cout << "@@ count " << c.first << " " << c.second << "\n";
            }
            std::cout << "@@ built " << stage().built << " alive " << stage().alive << "\n";
        }
    }
    std::cout << "@@ end" << std::endl;
    return rc;
}

#endif
