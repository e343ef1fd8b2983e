// One part of the program of A01: everything it does to and asks of the application.
#ifndef GEN_APP_UNIT_H_
#define GEN_APP_UNIT_H_

#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

struct Shared
{
    const Caitlyn::Application* app;
    int argc;
    char** argv;
    std::vector<char*> memory;     // arguments in memory of our own
    std::vector<const char*> list;
};
Shared& shared();

inline std::string app_unhex(const std::string& h)
{
    std::string r;
    for (std::size_t i = 1; i + 1 < h.size(); i += 2)
    {
        r += char(std::strtol(h.substr(i, 2).c_str(), nullptr, 16));
    }
    return r;
}

namespace
{
void show(const Caitlyn::Application* app)
{
    if (app == nullptr)
    {
        std::printf("none\n");
        return;
    }
    const auto& a = app->GetArgs();
    std::printf("args %lu", static_cast<unsigned long>(a.size()));
    for (const char* s : a)
    {
        std::printf(" h");
        for (const char* p = s; *p; ++p)
        {
            std::printf("%02x", static_cast<unsigned char>(*p));
        }
    }
    std::printf("\n");
    std::printf("info %d\n", int(app->GetSystemName() != nullptr && app->GetCompilerInfo() != nullptr && app->GetCaitlynInfo() != nullptr &&
                                 app->GetSystemName()[0] != 0 && app->GetCompilerInfo()[0] != 0 && app->GetCaitlynInfo()[0] != 0));
}

// one step of the plan
void step(const std::string& line)
{
    Shared& s = shared();
    std::istringstream w(line);
    std::string unit, what;
    w >> unit >> what;
    try
    {
        const Caitlyn::Application* got = nullptr;
        if (what == "plain")
        {
            got = Caitlyn::Application::Initialise();
        }
        else if (what == "real")
        {
            got = Caitlyn::Application::Initialize(s.argc, const_cast<const char**>(s.argv));
        }
        else if (what == "memory")
        {
            int n = 0;
            w >> n;
            got = Caitlyn::Application::Initialize(n, s.list.data());
        }
        else if (what == "prepare")
        {
            std::string h;
            while (w >> h)
            {
                const std::string t = app_unhex(h);
                char* m = new char[t.size() + 1];
                std::memcpy(m, t.c_str(), t.size() + 1);
                s.memory.push_back(m);
                s.list.push_back(m);
            }
            return;
        }
        else if (what == "scramble")
        {
            for (char* m : s.memory)
            {
                for (char* p = m; *p; ++p)
                {
                    *p = '#';
                }
            }
            return;
        }
        else if (what == "free")
        {
            for (char* m : s.memory)
            {
                delete[] m;
            }
            s.memory.clear();
            s.list.clear();
            s.list.shrink_to_fit();
            return;
        }
        else if (what == "overwrite")     // the real command line
        {
            for (int i = 0; i < s.argc; ++i)
            {
                std::memset(s.argv[i], '#', std::strlen(s.argv[i]));
                s.argv[i] = nullptr;
            }
            s.argc = 0;
            return;
        }
        else if (what == "forget")
        {
            for (const char*& p : s.list)
            {
                p = "other";
            }
            return;
        }
        else if (what == "show")
        {
            show(s.app);
            return;
        }
        std::printf("made %d\n", int(got != nullptr));
        if (s.app == nullptr)
        {
            s.app = got;
        }
    }
    catch (const std::exception& e)
    {
        std::printf("refused\n");
    }
    catch (...)
    {
        std::printf("refused oddly\n");
    }
}
}

#endif
