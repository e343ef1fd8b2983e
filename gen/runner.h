// What the generated tests of R01 do: each acts as the plan read at the start says.
#ifndef GEN_RUNNER_H_
#define GEN_RUNNER_H_

#include <cstdio>
#include <cstdlib>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <new>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include <Caitlyn/Testing>

struct Deed
{
    std::string kind;
    std::string text;
};

struct Stage
{
    std::map<int, Deed> deeds;
    std::map<int, int> counts;
    int alive;
    int built;
};

Stage& stage();
void act(int id);

struct Odd : std::exception
{
    std::string text;
    explicit Odd(const std::string& t) : text(t) {}
    ~Odd() noexcept {}
    const char* what() const noexcept override { return text.c_str(); }
};

struct Plain
{
    int n;
};

template <int N>
void slot()
{
    act(1000 + N);
}

// a fresh object for every test
template <class Tag>
struct Fresh
{
    int uses;
    std::string text;
    Fresh() : uses(0), text("ready")
    {
        ++stage().built;
        ++stage().alive;
    }
    ~Fresh() { --stage().alive; }
    Fresh(const Fresh&) = delete;
    void use(int id)
    {
        if (uses++ != 0 || text != "ready")
        {
            std::cout << "@@ stale " << id << "\n";
        }
        text = "used";
        act(id);
    }
};

// throws while it is constructed if the plan says so
template <int N>
struct Prepared
{
    Prepared()
    {
        if (stage().deeds.count(900 + N))
        {
            act(900 + N);
        }
    }
    void use(int id) { act(id); }
};

#endif
