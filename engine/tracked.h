// Payloads that know whether they are alive, and whose copies can be made to throw.
#ifndef PBT_TRACKED_H_
#define PBT_TRACKED_H_

#include <map>
#include <stdexcept>
#include <string>

#include "pbt.h"

namespace pbt {

struct CopyFailed : std::runtime_error
{
    CopyFailed() : std::runtime_error("copy failed")
    {
    }
};

// What is alive, over all payload kinds of the running case
struct World
{
    std::map<const void*, int> live; // address -> kind
    std::string broken;              // first rule broken
    long throw_after = -1;           // this many copies succeed, the next one throws
    size_t copies = 0, moves = 0, made = 0, destroyed = 0;

    static World& get()
    {
        static World w;
        return w;
    }
    void reset()
    {
        live.clear();
        broken.clear();
        throw_after = -1;
        copies = moves = made = destroyed = 0;
    }
    void rule(bool ok, const char* text)
    {
        if (!ok && broken.empty())
        {
            broken = text;
        }
    }
    size_t count(int kind) const
    {
        size_t n = 0;
        for (auto& l : live)
        {
            n += l.second == kind;
        }
        return n;
    }
};

// A value of kind K holding a number on the heap
template <int K>
class Tracked
{
public:
    Tracked() : Tracked(0)
    {
    }
    explicit Tracked(int v) : p_(new int(v))
    {
        born();
    }
    Tracked(const Tracked& o)
    {
        World& w = World::get();
        o.must_live("a payload is copied from after its destruction or before its construction");
        if (w.throw_after == 0)
        {
            w.throw_after = -1;
            throw CopyFailed();
        }
        if (w.throw_after > 0)
        {
            --w.throw_after;
        }
        p_ = o.p_ ? new int(*o.p_) : nullptr;
        ++w.copies;
        born();
    }
    Tracked(Tracked&& o) noexcept
    {
        o.must_live("a payload is moved from after its destruction or before its construction");
        p_ = o.p_;
        o.p_ = nullptr;
        ++World::get().moves;
        born();
    }
    Tracked& operator=(const Tracked& o)
    {
        must_live("a payload is assigned to after its destruction or before its construction");
        if (this != &o)
        {
            Tracked t(o);
            std::swap(p_, t.p_);
        }
        return *this;
    }
    Tracked& operator=(Tracked&& o) noexcept
    {
        must_live("a payload is assigned to after its destruction or before its construction");
        o.must_live("a payload is moved from after its destruction or before its construction");
        if (this != &o)
        {
            delete p_;
            p_ = o.p_;
            o.p_ = nullptr;
        }
        return *this;
    }
    ~Tracked()
    {
        World& w = World::get();
        auto it = w.live.find(this);
        w.rule(it != w.live.end(), "a payload is destroyed that is not alive");
        if (it != w.live.end())
        {
            w.rule(it->second == K, "a payload is destroyed as one of another kind");
            w.live.erase(it);
            delete p_;
        }
        ++w.destroyed;
    }
    // -1000000: moved from
    int value() const
    {
        return must_live("a payload is read after its destruction or before its construction") && p_ ? *p_ : -1000000;
    }
    bool operator==(const Tracked& o) const
    {
        return value() == o.value();
    }

private:
    bool must_live(const char* text) const
    {
        World& w = World::get();
        auto it = w.live.find(this);
        const bool ok = it != w.live.end() && it->second == K;
        w.rule(ok, text);
        return ok;
    }
    void born()
    {
        World& w = World::get();
        w.rule(w.live.emplace(this, K).second, "a payload is constructed over a live one");
        ++w.made;
    }
    int* p_;
};

// The same without a move operation of its own: moving it copies it
template <int K>
class CopyOnly : public Tracked<K>
{
public:
    CopyOnly() = default;
    explicit CopyOnly(int v) : Tracked<K>(v)
    {
    }
    CopyOnly(const CopyOnly& o) : Tracked<K>(static_cast<const Tracked<K>&>(o))
    {
    }
    CopyOnly& operator=(const CopyOnly& o)
    {
        Tracked<K>::operator=(static_cast<const Tracked<K>&>(o));
        return *this;
    }
    ~CopyOnly() = default;
};

} // namespace pbt

#endif // PBT_TRACKED_H_
