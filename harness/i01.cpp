// I01: console output goes to the right stream, in order and flushed; console input is read line by line.
#include <iostream>
#include <streambuf>
#include <Caitlyn/IO>
#include <Caitlyn/String>
#include "fmt.h"

using namespace pbt;
using Caitlyn::Char;
using Caitlyn::String;

// Shows what has been flushed separately from what has been written
class Sink : public std::streambuf
{
public:
    std::string pending, visible;

protected:
    int_type overflow(int_type ch) override
    {
        if (ch != traits_type::eof())
        {
            pending += static_cast<char>(ch);
        }
        return 0;
    }
    std::streamsize xsputn(const char* p, std::streamsize n) override
    {
        pending.append(p, static_cast<size_t>(n));
        return n;
    }
    int sync() override
    {
        visible += pending;
        pending.clear();
        return 0;
    }
};

// Hands out one byte at a time and remembers what standard output showed when the first byte of a call was asked for
class Feed : public std::streambuf
{
public:
    std::string data;
    size_t at = 0;
    const Sink* out = nullptr;
    bool asked = false;
    std::string shown;
    char ch = 0;

    std::string rest()
    {
        return data.substr(at - (gptr() < egptr() ? 1 : 0));
    }

protected:
    int_type underflow() override
    {
        if (!asked)
        {
            asked = true;
            shown = out->visible;
        }
        if (at == data.size())
        {
            return traits_type::eof();
        }
        ch = data[at++];
        setg(&ch, &ch, &ch + 1);
        return traits_type::to_int_type(ch);
    }
};

struct Redirect
{
    std::ios& s;
    std::streambuf* old;
    Redirect(std::ios& stream, std::streambuf* b) : s(stream), old(stream.rdbuf(b))
    {
        s.clear();
    }
    ~Redirect()
    {
        s.rdbuf(old);
        s.clear();
    }
};

template <typename S>
struct Writing
{
    const char* fmt;
    bool line;
    template <typename... A>
    void operator()(A&&... a)
    {
        if (line)
        {
            S::WriteLine(fmt, std::forward<A>(a)...);
        }
        else
        {
            S::Write(fmt, std::forward<A>(a)...);
        }
    }
};

static std::string line_text(Src& s, size_t max)
{
    Cps v = text(s, max);
    for (auto& x : v)
    {
        if (x == '\n')
        {
            x = 'n';
        }
    }
    return utf8(v);
}

template <typename S>
static std::string write(Src& s, Ctx& c)
{
    const bool line = s.flip();
    const std::string end = line ? "\n" : "";
    c.log << (line ? "WriteLine " : "Write ");
    const size_t kind = s.below(7);
    if (kind == 0)
    {
        // plain text is not a template
        const std::string t = stretched(s, utf8_text(s, 30)) + s.pick<const char*>({"", "", "{}", "{", "}", "\n", "%d"});
        const CText ct(t);
        c.log << show(t);
        line ? S::WriteLine(ct.get()) : S::Write(ct.get());
        return t + end;
    }
    if (kind == 1)
    {
        const std::string t = stretched(s, utf8_text(s, 30)) + s.pick<const char*>({"", "", "{}", "{", "}", "\n"});
        c.log << "String " << show(t);
        const String str(t);
        line ? S::WriteLine(str) : S::Write(str);
        return t + end;
    }
    if (kind == 2)
    {
        const std::string t = utf8_text(s, 10) + s.pick<const char*>({"", "{}", "{"});
        const size_t way = s.below(4);
        c.log << "object " << way << " " << show(t);
        switch (way)
        {
            case 0:
                line ? S::WriteLine(WithToString{t}) : S::Write(WithToString{t});
                return t + end;
            case 1:
                line ? S::WriteLine(WithStr{t}) : S::Write(WithStr{t});
                return t + end;
            case 2:
                line ? S::WriteLine(WithText{t}) : S::Write(WithText{t});
                return t + end;
            default:
            {
                const uint32_t cp = code_point(s);
                const Char ch(static_cast<Caitlyn::CodePoint>(cp));
                line ? S::WriteLine(ch) : S::Write(ch);
                return utf8(cp) + end;
            }
        }
    }
    if (kind == 3 && line)
    {
        c.log << "empty";
        S::WriteLine();
        return end;
    }
    const auto& all = few_shapes<Writing<S>>();
    const auto* shape = &all[s.below(all.size())];
    if (shape->kinds.empty())
    {
        shape = &all[0];
    }
    std::vector<Value> values;
    for (auto k : shape->kinds)
    {
        values.push_back(any_value(s, k));
    }
    const Template t = any_template(s, shape->kinds, values, true);
    const CText ct(t.text);
    c.log << show(t.text) << " " << describe(shape->kinds, values);
    Writing<S> w{ct.get(), line};
    shape->call(w, values);
    return t.expected + end;
}

static void run(Src& s, Ctx& c)
{
    Sink out, err, log;
    Feed in;
    in.out = &out;
    Redirect r1(std::cout, &out), r2(std::cerr, &err), r3(std::clog, &log), r4(std::cin, &in);
    std::vector<std::string> lines;
    const size_t n = s.below(9);
    for (size_t i = 0; i < n; ++i)
    {
        std::string t = s.chance(1, 5) ? "" : stretched(s, line_text(s, 30));
        if (s.chance(1, 10))
        {
            t += "\r";
        }
        if (s.chance(1, 10))
        {
            t = (s.flip() ? " " : "\t") + t + " ";
        }
        lines.push_back(t);
        in.data += t + "\n";
    }
    const bool unterminated = !lines.empty() && !lines.back().empty() && s.chance(1, 4);
    if (unterminated)
    {
        in.data.pop_back();
    }
    c.log << "input " << show(in.data);
    std::string want_out, want_err, want_log;
    size_t writes = 0, reads = 0, streams = 0;
    const size_t steps = 1 + s.below(14);
    for (size_t i = 0; i < steps; ++i)
    {
        c.log << "\n  ";
        const size_t op = s.weighted({3, 3, 3, 4, 2});
        if (op < 3)
        {
            ++writes;
            streams |= size_t{1} << op;
            c.log << (op == 0 ? "out " : op == 1 ? "err " : "log ");
            switch (op)
            {
                case 0:
                    want_out += write<Caitlyn::OutputStream>(s, c);
                    break;
                case 1:
                    want_err += write<Caitlyn::ErrorStream>(s, c);
                    break;
                default:
                    want_log += write<Caitlyn::LogStream>(s, c);
            }
        }
        else if (reads < lines.size())
        {
            const std::string want = lines[reads++];
            std::string prompt;
            in.asked = false;
            const size_t way = s.below(4);
            const int number = static_cast<int>(s.range(-5, 1000));
            std::string expected_prompt;
            if (way == 1 || way == 2)
            {
                prompt = expected_prompt = utf8_text(s, 10) + s.pick<const char*>({"", "{}", "{"});
            }
            else if (way == 3)
            {
                prompt = "n{{{}: ";
                expected_prompt = "n{" + std::to_string(number) + ": ";
            }
            const CText p(prompt);
            c.log << (op == 3 ? "ReadLine" : "ReadChar") << " prompt " << show(expected_prompt);
            want_out += expected_prompt;
            if (op == 3)
            {
                const String got = way == 0 ? Caitlyn::InputStream::ReadLine()
                                            : way == 1 ? Caitlyn::InputStream::ReadLine(p.get())
                                                       : way == 2 ? Caitlyn::InputStream::ReadLine(String(prompt))
                                                                  : Caitlyn::InputStream::ReadLine(p.get(), number);
                c.eq(got.str(), want, "line read");
            }
            else
            {
                const Char got = way == 0 ? Caitlyn::InputStream::ReadChar()
                                          : way == 1 ? Caitlyn::InputStream::ReadChar(p.get())
                                                     : way == 2 ? Caitlyn::InputStream::ReadChar(String(prompt))
                                                                : Caitlyn::InputStream::ReadChar(p.get(), number);
                Cps v;
                split_utf8(want, v);
                c.eq(got.str(), v.empty() ? std::string() : utf8(v[0]), "character read");
            }
            c.check(in.asked, "nothing was read from standard input");
            c.eq(in.shown, want_out, "standard output at the time of reading");
            std::string rest;
            for (size_t k = reads; k < lines.size(); ++k)
            {
                rest += lines[k] + (k + 1 < lines.size() || !unterminated ? "\n" : "");
            }
            c.eq(in.rest(), rest, "input left over");
        }
        c.eq(out.visible, want_out, "standard output");
        c.eq(err.visible, want_err, "standard error");
        c.eq(log.visible, want_log, "standard log");
    }
    c.label_if(reads > 0, "reads");
    c.label_if(writes > 2, "three or more writes");
    c.label_if(streams == 7, "all three streams");
    c.nontrivial = writes > 1 && (streams & (streams - 1)) != 0;
}

static const Config cfg{"I01", run, 0, nullptr, false, 20};
PBT_MAIN(cfg)
