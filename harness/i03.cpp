// I03: writes that cannot be carried out completely. The file system has no room left after a point that moves about
// (a limit on the size of files stands in for it), or never has any (/dev/full).
#include <csignal>
#include <fstream>
#include <memory>
#include <sys/resource.h>
#include <sys/stat.h>
#include <Caitlyn/File>
#include "fmt.h"

using namespace pbt;
using Caitlyn::File;
using Caitlyn::String;

// No file grows beyond the given size while one of these lives
struct Limit
{
    rlimit old;
    explicit Limit(size_t n)
    {
        getrlimit(RLIMIT_FSIZE, &old);
        rlimit now = old;
        now.rlim_cur = n;
        setrlimit(RLIMIT_FSIZE, &now);
    }
    ~Limit()
    {
        setrlimit(RLIMIT_FSIZE, &old);
    }
};

struct Scratch
{
    std::string name;
    explicit Scratch(const std::string& n) : name(n)
    {
        unlink(name.c_str());
    }
    ~Scratch()
    {
        unlink(name.c_str());
    }
};

struct Writing
{
    File* f;
    const char* fmt;
    int way;
    template <typename... A>
    void operator()(A&&... a)
    {
        switch (way)
        {
            case 0:
                f->Write(fmt, std::forward<A>(a)...);
                break;
            case 1:
                f->WriteLine(fmt, std::forward<A>(a)...);
                break;
            case 2:
                f->Append(fmt, std::forward<A>(a)...);
                break;
            default:
                f->AppendLine(fmt, std::forward<A>(a)...);
        }
    }
};
template <typename T>
static void put(File& f, int way, const T& t)
{
    switch (way)
    {
        case 0:
            f.Write(t);
            break;
        case 1:
            f.WriteLine(t);
            break;
        case 2:
            f.Append(t);
            break;
        default:
            f.AppendLine(t);
    }
}

static std::string on_disk(const std::string& name)
{
    std::ifstream f(name, std::ios::binary);
    std::ostringstream o;
    o << f.rdbuf();
    return o.str();
}

static std::string some_text(Src& s)
{
    if (s.chance(1, 10))
    {
        // longer than any stream buffer
        std::string t(8000 + s.below(60000), 'x');
        t[s.below(t.size())] = '\n';
        return t;
    }
    return stretched(s, utf8_text(s, 12), 200) + s.pick<const char*>({"", "", "\n"});
}

// One text of any form, and the call that writes it
struct Call
{
    int way, form;
    std::string text;
    const Shape<Writing>* shape;
    std::vector<Value> values;
    std::string fmt;

    Call(Src& s, Ctx& c)
    {
        way = static_cast<int>(s.below(4));
        form = static_cast<int>(s.below(6));
        static const char* const names[] = {"Write ", "WriteLine ", "Append ", "AppendLine "};
        c.log << names[way];
        if (form < 5)
        {
            text = some_text(s);
            c.log << "form " << form << " " << text.size() << " bytes " << show(text.substr(0, 60));
        }
        else
        {
            const auto& all = few_shapes<Writing>();
            shape = &all[s.below(all.size())];
            if (shape->kinds.empty())
            {
                shape = &all[0];
            }
            for (auto k : shape->kinds)
            {
                values.push_back(any_value(s, k));
            }
            const Template tt = any_template(s, shape->kinds, values, true);
            fmt = tt.text;
            text = tt.expected;
            c.log << show(fmt) << " " << describe(shape->kinds, values);
        }
    }
    std::string bytes() const
    {
        return text + (way & 1 ? "\n" : "");
    }
    void operator()(File& f) const
    {
        switch (form)
        {
            case 0:
            {
                const CText ct(text);
                put(f, way, ct.get());
                break;
            }
            case 1:
                put(f, way, String(text));
                break;
            case 2:
                put(f, way, WithToString{text});
                break;
            case 3:
                put(f, way, WithStr{text});
                break;
            case 4:
                put(f, way, WithText{text});
                break;
            default:
            {
                const CText ct(fmt);
                Writing w{&f, ct.get(), way};
                shape->call(w, values);
            }
        }
    }
};

static bool always_full()
{
    struct stat st;
    return stat("/dev/full", &st) == 0 && S_ISCHR(st.st_mode);
}

// a device without any room
static void full_case(Src& s, Ctx& c)
{
    const Scratch scratch("i03-full-" + std::to_string(getpid()));
    if (symlink("/dev/full", scratch.name.c_str()) != 0)
    {
        return;
    }
    File f(scratch.name);
    const size_t steps = 1 + s.below(4);
    for (size_t i = 0; i < steps; ++i)
    {
        c.log << "\n  full: ";
        const Call call(s, c);
        if (call.bytes().empty())
        {
            call(f);
        }
        else
        {
            c.must_throw([&] { call(f); }, "writing to a device that is full");
        }
    }
    c.label("full device");
    c.nontrivial = true;
}

static void run(Src& s, Ctx& c)
{
    signal(SIGXFSZ, SIG_IGN);
    if (s.chance(1, 12) && always_full())
    {
        full_case(s, c);
        return;
    }
    const Scratch scratch("i03-" + std::to_string(getpid()) + ".txt");
    std::string disk;
    std::vector<std::unique_ptr<File>> files(s.chance(1, 3) ? 2 : 1);
    for (auto& f : files)
    {
        f.reset(new File(scratch.name));
    }
    bool whole = true; // not cut within a character
    size_t limit = s.below(400), failures = 0, partial = 0, afterwards = 0, reads = 0;
    const size_t steps = 5 + s.below(25);
    for (size_t step = 0; step < steps; ++step)
    {
        const size_t which = s.below(files.size());
        File& f = *files[which];
        c.log << "\n  handle " << which << ": ";
        switch (s.weighted({10, 6, 1, 1, 1, 1, 1}))
        {
            case 0:
            {
                const Call call(s, c);
                const std::string bytes = call.bytes();
                c.log << " with room for " << (limit > disk.size() ? limit - disk.size() : 0);
                bool thrown = false;
                const auto position = std::streamoff(f.GetPosition());
                {
                    const Limit now(limit);
                    try
                    {
                        call(f);
                    }
                    catch (const std::exception&)
                    {
                        thrown = true;
                    }
                }
                const std::string now = on_disk(scratch.name);
                c.eq(static_cast<long>(std::streamoff(f.GetPosition())), static_cast<long>(position), "position after a write");
                if (bytes.empty() || disk.size() + bytes.size() <= limit)
                {
                    c.check(!thrown, "a write that has room is refused");
                    disk += bytes;
                    afterwards += failures > 0 && !bytes.empty();
                    c.eq(now.size(), disk.size(), "size on disk");
                    c.check(now == disk, "content on disk after a write");
                }
                else
                {
                    c.check(thrown, "a write that has no room is not reported");
                    ++failures;
                    // of the failed text, a beginning may have been written
                    c.check(now.size() >= disk.size() && now.compare(0, disk.size(), disk) == 0,
                            "a failed write changes what was there before");
                    const std::string more = now.substr(disk.size());
                    c.check(bytes.compare(0, more.size(), more) == 0, "something else than a beginning of a failed text is on disk");
                    partial += !more.empty();
                    whole = whole && (static_cast<unsigned char>(bytes[more.size()]) & 0xC0) != 0x80;
                    disk = now;
                }
                break;
            }
            case 1:
                // room is made, or taken away
                limit = s.flip() ? disk.size() + s.below(600) : s.chance(1, 3) ? 1000000 : s.below(disk.size() + 1);
                c.log << "limit " << limit;
                break;
            case 2:
                if (!whole)
                {
                    break;
                }
                c.log << "Read";
                c.check(f.Read().str() == disk, "whole content read");
                ++reads;
                break;
            case 3:
            {
                if (!whole)
                {
                    break;
                }
                c.log << "read every line from the start";
                f.Open();
                f.SetPosition(0);
                std::string all;
                for (;;)
                {
                    all += f.ReadLine().str();
                    if (f.IsEof())
                    {
                        break;
                    }
                    all += '\n';
                    c.check(all.size() <= disk.size(), "reading line by line does not end with the file");
                }
                c.check(all == disk, "content read line by line");
                ++reads;
                break;
            }
            case 4:
                c.log << "reopen";
                f.Close();
                if (s.flip())
                {
                    f.Open();
                }
                break;
            case 5:
                c.log << "Erase";
                f.Erase();
                disk.clear();
                whole = true;
                break;
            default:
                c.log << "a new handle";
                files[which].reset();
                c.check(on_disk(scratch.name) == disk, "content on disk after a handle is gone");
                files[which].reset(new File(scratch.name));
        }
        c.check(on_disk(scratch.name) == disk, "content on disk");
    }
    {
        const Limit now(limit);
        files.clear();
    }
    c.check(on_disk(scratch.name) == disk, "content on disk after the handles are gone");
    c.label_if(failures > 0, "a write without room");
    c.label_if(partial > 0, "a beginning written");
    c.label_if(afterwards > 0, "written again after a failure");
    c.label_if(failures > 0 && reads > 0, "failed and read");
    c.nontrivial = failures > 0 && afterwards > 0;
}

static const Config cfg{"I03", run, 0, nullptr, true, 20};
PBT_MAIN(cfg)
