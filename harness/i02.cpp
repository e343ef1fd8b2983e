// I02: a file handle against a model of the bytes on disk and a line cursor.
#include <fstream>
#include <memory>
#include <Caitlyn/File>
#include "fmt.h"

using namespace pbt;
using Caitlyn::File;
using Caitlyn::String;

struct Scratch
{
    std::string name;
    explicit Scratch(const std::string& n) : name(n)
    {
        unlink(name.c_str());
    }
    ~Scratch()
    {
        unlink(name.c_str());
    }
};

struct Writing
{
    File* f;
    const char* fmt;
    int way;
    template <typename... A>
    void operator()(A&&... a)
    {
        switch (way)
        {
            case 0:
                f->Write(fmt, std::forward<A>(a)...);
                break;
            case 1:
                f->WriteLine(fmt, std::forward<A>(a)...);
                break;
            case 2:
                f->Append(fmt, std::forward<A>(a)...);
                break;
            default:
                f->AppendLine(fmt, std::forward<A>(a)...);
        }
    }
};
template <typename T>
static void put(File& f, int way, const T& t)
{
    switch (way)
    {
        case 0:
            f.Write(t);
            break;
        case 1:
            f.WriteLine(t);
            break;
        case 2:
            f.Append(t);
            break;
        default:
            f.AppendLine(t);
    }
}

static std::string on_disk(const std::string& name)
{
    const int fd = open(name.c_str(), O_RDONLY);
    std::string r;
    char b[4096];
    ssize_t n;
    while (fd >= 0 && (n = read(fd, b, sizeof b)) > 0)
    {
        r.append(b, static_cast<size_t>(n));
    }
    if (fd >= 0)
    {
        close(fd);
    }
    return r;
}

// texts of several lines
static std::string lines_text(Src& s)
{
    std::string t;
    if (s.chance(1, 25))
    {
        // longer than any stream buffer
        t.assign(8000 + s.below(1000), 'x');
        t[s.below(t.size())] = '\n';
    }
    const size_t n = s.below(5);
    for (size_t i = 0; i < n; ++i)
    {
        t += s.chance(1, 4) ? "" : stretched(s, utf8_text(s, 12), i == 0 ? 70000 : 100);
        t += s.pick<const char*>({"\n", "\n", ";", "\r\n", ""});
    }
    return t;
}

// One handle and what it should show
struct Handle
{
    std::unique_ptr<File> file;
    size_t cursor = 0;
    bool eof = false, grown = false, closed = false;
};

static std::unique_ptr<File> open_one(Src& s, const std::string& name)
{
    switch (s.below(3))
    {
        case 0:
            return std::unique_ptr<File>(new File(name));
        case 1:
            return std::unique_ptr<File>(new File("i02-\xC3\xA9-{}{}", static_cast<long>(getpid()), ".txt"));
        default:
            return std::unique_ptr<File>(new File(Caitlyn::MakeFile(name)));
    }
}

static void run(Src& s, Ctx& c)
{
    const Scratch scratch("i02-\xC3\xA9-" + std::to_string(getpid()) + ".txt");
    std::string disk;
    if (s.chance(1, 3))
    {
        disk = lines_text(s);
        std::ofstream(scratch.name, std::ios::binary) << disk;
        c.log << "existing " << show(disk);
    }
    std::vector<Handle> handles(s.chance(1, 3) ? 2 + s.below(2) : 1);
    for (auto& h : handles)
    {
        h.file = open_one(s, scratch.name);
    }
    size_t writes = 0, reads = 0, moves = 0, ends = 0;
    const size_t steps = 1 + s.below(25);
    for (size_t step = 0; step < steps; ++step)
    {
        Handle& h = handles[s.below(handles.size())];
        auto& file = h.file;
        size_t& cursor = h.cursor;
        bool &eof = h.eof, &grown = h.grown, &closed = h.closed;
        const std::string before = disk;
        c.log << "\n  ";
        if (handles.size() > 1)
        {
            c.log << "handle " << (&h - &handles[0]) << ": ";
        }
        const size_t op = s.weighted({6, 3, 3, 9, 3, 3, 1, 1, 1, 1, 1});
        switch (op)
        {
            case 0:
            case 1:
            case 2:
            {
                const int way = static_cast<int>(s.below(4));
                static const char* const names[] = {"Write ", "WriteLine ", "Append ", "AppendLine "};
                c.log << names[way];
                std::string t;
                if (op == 0)
                {
                    t = lines_text(s) + (s.chance(1, 8) ? "{}" : "");
                    const CText ct(t);
                    c.log << show(t);
                    put(*file, way, ct.get());
                }
                else if (op == 1)
                {
                    t = lines_text(s) + (s.chance(1, 8) ? "{" : "");
                    c.log << "object " << show(t);
                    switch (s.below(4))
                    {
                        case 0:
                            put(*file, way, String(t));
                            break;
                        case 1:
                            put(*file, way, WithToString{t});
                            break;
                        case 2:
                            put(*file, way, WithStr{t});
                            break;
                        default:
                            put(*file, way, WithText{t});
                    }
                }
                else
                {
                    const auto& all = few_shapes<Writing>();
                    const auto* shape = &all[s.below(all.size())];
                    if (shape->kinds.empty())
                    {
                        shape = &all[0];
                    }
                    std::vector<Value> values;
                    for (auto k : shape->kinds)
                    {
                        values.push_back(any_value(s, k));
                    }
                    const Template tt = any_template(s, shape->kinds, values, true);
                    const CText ct(tt.text);
                    c.log << show(tt.text) << " " << describe(shape->kinds, values);
                    Writing w{file.get(), ct.get(), way};
                    shape->call(w, values);
                    t = tt.expected;
                }
                disk += t + (way & 1 ? "\n" : "");
                grown |= !t.empty() || (way & 1);
                if (closed)
                {
                    // writing opened it again
                    closed = false;
                    eof = false;
                }
                ++writes;
                break;
            }
            case 3:
            {
                const char delim = s.weighted({4, 1}) == 0 ? '\n' : s.pick<char>({';', 'a', 'b', '\r'});
                if (closed)
                {
                    closed = eof = false;
                }
                else if (eof && grown)
                {
                    // what a handle at its end shows after more was written is left open: resume there
                    c.log << "resume; ";
                    file->SetPosition(file->GetPosition());
                    eof = false;
                }
                grown = false;
                c.log << "ReadLine " << int(delim);
                const String got = delim == '\n' && s.flip() ? file->ReadLine() : file->ReadLine(delim);
                if (eof)
                {
                    c.eq(got.str(), std::string(), "line read behind the end");
                    ++ends;
                    break;
                }
                const size_t at = disk.find(delim, cursor);
                std::string want = disk.substr(cursor, at == std::string::npos ? std::string::npos : at - cursor);
                eof = at == std::string::npos;
                cursor = eof ? disk.size() : at + 1;
                c.eq(got.str(), want, "line read");
                ++reads;
                ends += eof;
                break;
            }
            case 4:
            {
                if (closed)
                {
                    closed = eof = false;
                }
                c.log << "Read";
                c.eq(file->Read().str(), disk, "whole content read");
                ++reads;
                break;
            }
            case 5:
            {
                if (closed)
                {
                    break;
                }
                // a character boundary
                size_t p = s.below(disk.size() + 1);
                while (p < disk.size() && (static_cast<unsigned char>(disk[p]) & 0xC0) == 0x80)
                {
                    ++p;
                }
                c.log << "SetPosition " << p;
                file->SetPosition(static_cast<std::streamoff>(p));
                cursor = p;
                eof = false;
                ++moves;
                break;
            }
            case 6:
            {
                if (closed)
                {
                    break;
                }
                c.log << "SetPosition(negative)";
                const long p = s.range(-3, -1);
                c.must_throw([&] { file->SetPosition(static_cast<std::streamoff>(p)); }, "SetPosition before the beginning");
                break;
            }
            case 7:
                c.log << "Erase";
                file->Erase();
                disk.clear();
                cursor = 0;
                eof = grown = closed = false;
                break;
            case 8:
                c.log << "Close";
                file->Close();
                closed = true;
                break;
            case 9:
                c.log << "Open";
                file->Open();
                closed = false;
                eof = false;
                break;
            default:
            {
                c.log << "copy and visit every line";
                File copy(*file);
                c.eq(copy.Read().str(), disk, "content read through a copy");
                std::vector<std::string> want, got;
                size_t from = 0, at;
                while ((at = disk.find('\n', from)) != std::string::npos)
                {
                    want.push_back(disk.substr(from, at - from));
                    from = at + 1;
                }
                want.push_back(disk.substr(from));
                while (!copy.IsEof())
                {
                    got.push_back(copy.ReadLine().str());
                    c.check(got.size() <= want.size(), "reading line by line does not end with the file");
                }
                c.check(got == want, "lines visited until the end of the file");
                if (s.flip())
                {
                    const std::string t = utf8_text(s, 5);
                    copy.Append(t);
                    disk += t;
                    grown |= !t.empty();
                }
            }
        }
        if (disk != before)
        {
            for (Handle& other : handles)
            {
                if (&other != &h)
                {
                    other.grown = true;
                }
            }
        }
        if (op == 7)
        {
            // where the others stand is nowhere now: they start again
            for (Handle& other : handles)
            {
                if (&other != &h)
                {
                    if (other.closed)
                    {
                        other.file->Open();
                    }
                    other.file->SetPosition(0);
                    other.cursor = 0;
                    other.eof = other.grown = other.closed = false;
                }
            }
        }
        c.eq(on_disk(scratch.name), disk, "content on disk");
        c.eq(static_cast<long>(std::streamoff(file->GetPosition())), static_cast<long>(cursor), "position");
        if (!closed && !(eof && grown))
        {
            c.eq(file->IsEof(), eof, "end-of-file state");
            c.eq(static_cast<bool>(*file), !eof, "state as a condition");
        }
    }
    if (s.chance(1, 10))
    {
        c.must_throw([] { File f(""); }, "opening a file without a name");
        c.must_throw([] { File f("no-such-directory/x"); }, "opening a file in a missing directory");
    }
    const bool several = handles.size() > 1;
    handles.clear();
    c.eq(on_disk(scratch.name), disk, "content on disk after the handle is gone");
    c.label_if(several, "several handles");
    c.label_if(ends > 0, "end of file reached");
    c.label_if(ends > 0 && writes > 1, "end reached and written");
    c.label_if(moves > 0 && reads > 1, "repositioned and read");
    c.nontrivial = writes > 0 && reads > 0;
}

static const Config cfg{"I02", run, 0, nullptr, true, 20};
PBT_MAIN(cfg)
