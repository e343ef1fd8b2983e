// Histories over shared owners (M01) and weak references (M04): a graph of objects that own each other through fields,
// owners in slots and in a growing list, against a model of plain ids.
#ifndef OWNERS_H_
#define OWNERS_H_

#include <map>
#include <memory>
#include <set>
#include <vector>

#include <Caitlyn/Memory>

#include "gen.h"

namespace owners {

using namespace pbt;

struct Obj;
using Shared = Caitlyn::SharedPtr<Obj>;
using Weak = Caitlyn::WeakPtr<Obj>;

struct Registry
{
    std::map<const Obj*, int> live;
    std::string broken;
    static Registry& get()
    {
        static Registry r;
        return r;
    }
    void rule(bool ok, const std::string& text)
    {
        if (!ok && broken.empty())
        {
            broken = text;
        }
    }
};

struct Obj
{
    explicit Obj(int id) : id(id), text(new std::string("object " + std::to_string(id)))
    {
        Registry::get().live[this] = id;
    }
    Obj(const Obj&) = delete;
    ~Obj()
    {
        Registry& r = Registry::get();
        auto it = r.live.find(this);
        if (it == r.live.end())
        {
            r.rule(false, "an object is destroyed twice");
            return;
        }
        if (self)
        {
            r.rule(back.expired(), "during the destruction of object " + std::to_string(id) + " its own weak reference is not expired");
            r.rule(back.lock() == nullptr, "object " + std::to_string(id) + " can be locked during its destruction");
        }
        r.live.erase(it);
        delete text;
    }
    const int id;
    std::string* text;
    int data = 0;
    Shared next[2];
    Weak back;
    bool self = false; // the weak reference refers to this object
};

struct Place
{
    int obj; // -1: slot, -2: list
    size_t at;
};

struct Model
{
    struct O
    {
        bool alive = true;
        int next[2] = {-1, -1};
        int back = -1;
        int data = 0;
    };
    std::vector<O> objs;
    std::vector<int> slots, list, weak;

    int& at(Place p)
    {
        return p.obj == -1 ? slots[p.at] : p.obj == -2 ? list[p.at] : objs[static_cast<size_t>(p.obj)].next[p.at];
    }
    int& weak_at(Place p)
    {
        return p.obj == -1 ? weak[p.at] : objs[static_cast<size_t>(p.obj)].back;
    }
    bool expired(int id) const
    {
        return id < 0 || !objs[static_cast<size_t>(id)].alive;
    }
    // Everything without an owner is destroyed and lets go of what it owned
    void collect()
    {
        for (bool again = true; again;)
        {
            again = false;
            std::set<int> owned(slots.begin(), slots.end());
            owned.insert(list.begin(), list.end());
            for (auto& o : objs)
            {
                if (o.alive)
                {
                    owned.insert(o.next[0]);
                    owned.insert(o.next[1]);
                }
            }
            for (size_t i = 0; i < objs.size(); ++i)
            {
                if (objs[i].alive && !owned.count(static_cast<int>(i)))
                {
                    objs[i].alive = false;
                    objs[i].next[0] = objs[i].next[1] = -1;
                    again = true;
                }
            }
        }
    }
};

class History
{
public:
    History(Src& s, Ctx& c, bool weak) : s(s), c(c), weak(weak)
    {
    }
    void run()
    {
        Registry::get() = Registry();
        const size_t n = 2 + s.below(3);
        for (size_t i = 0; i < n; ++i)
        {
            slots.emplace_back(new Shared());
            m.slots.push_back(-1);
        }
        for (size_t i = 0; weak && i < 3; ++i)
        {
            weaks.emplace_back(new Weak());
            m.weak.push_back(-1);
        }
        const bool filled = s.flip();
        for (size_t i = 0; filled && i < n; ++i)
        {
            const int id = fresh();
            *slots[i] = raw.back();
            m.slots[i] = id;
            if (i < weaks.size())
            {
                *weaks[i] = *slots[i];
                m.weak[i] = id;
            }
        }
        c.log << (filled ? "filled; " : "");
        verify();
        const size_t steps = 3 + s.below(30);
        for (size_t i = 0; i < steps; ++i)
        {
            if (weak && s.below(2))
            {
                weak_step();
            }
            else
            {
                step();
            }
            c.log << "; ";
            verify();
        }
        finish();
        c.label_if(most_owners >= 3, "three or more owners of one object");
        c.label_if(died > 0, "last owner gone");
        c.label_if(cascades > 0, "objects destroyed in turn");
        c.label_if(selfs > 0, "assigned to itself");
        c.label_if(from_part > 0, "assigned from a part of what it owns");
        if (weak)
        {
            c.label_if(locked > 0, "locked a live object");
            c.label_if(lock_failed > 0, "lock after the last owner");
            c.nontrivial = locked > 0 || lock_failed > 0;
        }
        else
        {
            c.nontrivial = most_owners >= 2 && died > 0;
        }
    }

private:
    static std::string name(Place p, bool w = false)
    {
        return (p.obj == -1 ? w ? "w" : "s" : p.obj == -2 ? "list" : "o" + std::to_string(p.obj) + (w ? ".back" : ".next")) + (w && p.obj >= 0 ? "" : std::to_string(p.at));
    }
    Shared& real(Place p)
    {
        return p.obj == -1 ? *slots[p.at] : p.obj == -2 ? list[p.at] : raw[static_cast<size_t>(p.obj)]->next[p.at];
    }
    Weak& real_weak(Place p)
    {
        return p.obj == -1 ? *weaks[p.at] : raw[static_cast<size_t>(p.obj)]->back;
    }
    std::vector<int> alive() const
    {
        std::vector<int> v;
        for (size_t i = 0; i < m.objs.size(); ++i)
        {
            if (m.objs[i].alive)
            {
                v.push_back(static_cast<int>(i));
            }
        }
        return v;
    }
    Place place()
    {
        const auto v = alive();
        const uint64_t k = s.below(8);
        if (k >= 5 && !v.empty())
        {
            return {v[s.below(v.size())], s.below(2)};
        }
        if (k == 4 && !list.empty())
        {
            return {-2, s.below(list.size())};
        }
        return {-1, s.below(slots.size())};
    }
    Place weak_place()
    {
        const auto v = alive();
        if (s.below(3) == 2 && !v.empty())
        {
            return {v[s.below(v.size())], 0};
        }
        return {-1, s.below(weaks.size())};
    }
    // A place that mostly holds something
    Place source()
    {
        Place p = place();
        for (int i = 0; i < 3 && m.at(p) < 0; ++i)
        {
            p = place();
        }
        return p;
    }
    Place weak_source()
    {
        Place p = weak_place();
        for (int i = 0; i < 3 && m.weak_at(p) < 0; ++i)
        {
            p = weak_place();
        }
        return p;
    }
    int fresh()
    {
        raw.push_back(new Obj(static_cast<int>(raw.size())));
        m.objs.emplace_back();
        return static_cast<int>(raw.size()) - 1;
    }
    // The model after the given change. The place written to must live on.
    void apply(const Model& next, Place target)
    {
        (void)target;
        const size_t before = alive().size();
        m = next;
        const size_t after = alive().size();
        died += before > after;
        cascades += before > after + 1;
    }
    bool survives(const Model& next, Place p)
    {
        return p.obj < 0 || next.objs[static_cast<size_t>(p.obj)].alive;
    }
    Model with(Place p, int id)
    {
        Model next = m;
        next.at(p) = id;
        next.collect();
        return next;
    }
    bool is_part(Place part, Place whole)
    {
        return part.obj >= 0 && m.at(whole) == part.obj;
    }
    static Shared pass(Shared p)
    {
        return p;
    }

    void step()
    {
        const Place a = place();
        const std::string an = name(a);
        switch (s.below(15))
        {
            case 0:
            case 1:
            case 2: // a new object
            {
                Model next = m;
                next.objs.emplace_back();
                next.at(a) = static_cast<int>(next.objs.size()) - 1;
                next.collect();
                if (!survives(next, a))
                {
                    return;
                }
                const int id = fresh();
                Obj* p = raw.back();
                const uint64_t how = s.below(a.obj == -1 ? 5 : 4);
                c.log << an << " gets new o" << id << " (" << how << ")";
                if (how == 0)
                {
                    real(a) = p;
                }
                else if (how == 1)
                {
                    real(a).Reset(p);
                }
                else if (how == 2)
                {
                    real(a) = Shared(p);
                }
                else if (how == 3)
                {
                    const Shared t(p);
                    real(a) = t;
                }
                else
                {
                    slots[a.at].reset(new Shared(p));
                }
                apply(next, a);
                break;
            }
            case 3:
            case 4:
            case 5: // copy
            {
                const Place b = source();
                const Model next = with(a, m.at(b));
                if (!survives(next, a))
                {
                    return;
                }
                from_part += is_part(b, a);
                const uint64_t how = s.below(a.obj == -1 ? 4 : 3);
                c.log << an << " = " << name(b) << " (" << how << ")";
                if (how == 0)
                {
                    real(a) = real(b);
                }
                else if (how == 1)
                {
                    real(a) = Shared(real(b));
                }
                else if (how == 2)
                {
                    real(a) = pass(real(b));
                }
                else
                {
                    std::unique_ptr<Shared> t(new Shared(real(b)));
                    slots[a.at] = std::move(t);
                }
                apply(next, a);
                break;
            }
            case 6:
            case 7: // move
            {
                const Place b = source();
                if (&real(a) == &real(b))
                {
                    return;
                }
                Model next = m;
                next.at(a) = m.at(b);
                next.at(b) = -1;
                next.collect();
                if (!survives(next, a))
                {
                    return;
                }
                from_part += is_part(b, a);
                const uint64_t how = s.below(a.obj == -1 ? 4 : 3);
                c.log << an << " = move(" << name(b) << ") (" << how << ")";
                if (how == 0)
                {
                    real(a) = std::move(real(b));
                }
                else if (how == 1)
                {
                    real(a) = Shared(std::move(real(b)));
                }
                else if (how == 2)
                {
                    real(a) = pass(std::move(real(b)));
                }
                else
                {
                    std::unique_ptr<Shared> t(new Shared(std::move(real(b))));
                    c.check(real(b).Get() == nullptr && real(b) == nullptr, "an owner moved from is not empty");
                    slots[a.at] = std::move(t);
                }
                apply(next, a);
                break;
            }
            case 8: // to itself
            {
                ++selfs;
                Shared& x = real(a);
                Shared& same = x;
                switch (s.below(4))
                {
                    case 0:
                        c.log << an << " = itself";
                        x = same;
                        break;
                    case 1:
                        c.log << an << " = move(itself)";
                        x = std::move(same);
                        break;
                    case 2:
                        c.log << an << " = its raw object";
                        x = x.Get();
                        break;
                    default:
                        c.log << an << ".Reset(its raw object)";
                        x.Reset(x.Get());
                        break;
                }
                break;
            }
            case 9:
            case 10: // empty
            {
                const Model next = with(a, -1);
                if (!survives(next, a))
                {
                    return;
                }
                const uint64_t how = s.below(5);
                c.log << an << " emptied (" << how << ")";
                if (how == 0)
                {
                    real(a).Reset();
                }
                else if (how == 1)
                {
                    real(a).Reset(nullptr);
                }
                else if (how == 2)
                {
                    real(a) = Shared();
                }
                else if (how == 3)
                {
                    real(a) = static_cast<Obj*>(nullptr);
                }
                else
                {
                    const Shared none(nullptr);
                    real(a) = none;
                }
                apply(next, a);
                break;
            }
            case 11: // swap
            {
                const Place b = place();
                c.log << "swap " << an << " and " << name(b);
                std::swap(real(a), real(b));
                std::swap(m.at(a), m.at(b));
                break;
            }
            case 12: // the list grows
            {
                const int id = m.at(a);
                const uint64_t how = s.below(4);
                c.log << "list gets " << an << " (" << how << ")";
                if (list.size() > 6)
                {
                    c.log << " full";
                    return;
                }
                if (how == 0)
                {
                    const Shared copy = real(a); // the source may be in the list
                    list.push_back(copy);
                    m.list.push_back(id);
                }
                else if (how == 1)
                {
                    const Shared copy = real(a);
                    list.insert(list.begin(), copy);
                    m.list.insert(m.list.begin(), id);
                }
                else if (how == 2)
                {
                    const Shared copy = real(a);
                    list.insert(list.begin() + static_cast<long>(list.size() / 2), 2, copy);
                    m.list.insert(m.list.begin() + static_cast<long>(m.list.size() / 2), 2, id);
                }
                else
                {
                    list.emplace_back();
                    m.list.push_back(-1);
                }
                break;
            }
            case 13: // the list shrinks
            {
                if (list.empty())
                {
                    return;
                }
                const size_t k = s.below(list.size());
                Model next = m;
                next.list.erase(next.list.begin() + static_cast<long>(k));
                if (s.chance(1, 4))
                {
                    c.log << "list cleared";
                    next.list.clear();
                    next.collect();
                    list.clear();
                }
                else
                {
                    c.log << "list loses " << k;
                    next.collect();
                    list.erase(list.begin() + static_cast<long>(k));
                }
                apply(next, {-2, 0});
                break;
            }
            default: // write through one owner
            {
                const int id = m.at(a);
                if (id < 0)
                {
                    return;
                }
                const int v = static_cast<int>(s.range(1, 99));
                c.log << an << "->data = " << v;
                if (s.flip())
                {
                    real(a)->data = v;
                }
                else
                {
                    (*real(a)).data = v;
                }
                m.objs[static_cast<size_t>(id)].data = v;
                break;
            }
        }
    }

    void set_weak(Place w, int id)
    {
        m.weak_at(w) = id;
        if (w.obj >= 0)
        {
            raw[static_cast<size_t>(w.obj)]->self = id == w.obj;
        }
    }

    void weak_step()
    {
        const Place w = weak_place();
        const std::string wn = name(w, true);
        switch (s.below(10))
        {
            case 0:
            case 1:
            case 2: // from an owner
            {
                const Place a = source();
                const int id = m.at(a);
                const uint64_t how = s.below(w.obj == -1 ? 3 : 2);
                c.log << wn << " watches " << name(a) << " (" << how << ")";
                if (how == 0)
                {
                    real_weak(w) = real(a);
                }
                else if (how == 1)
                {
                    real_weak(w) = Weak(real(a));
                }
                else
                {
                    weaks[w.at].reset(new Weak(real(a)));
                }
                set_weak(w, id);
                break;
            }
            case 3:
            case 4: // copy
            {
                const Place v = weak_source();
                const int id = m.weak_at(v);
                const uint64_t how = s.below(w.obj == -1 ? 3 : 2);
                c.log << wn << " = " << name(v, true) << " (" << how << ")";
                if (how == 0)
                {
                    real_weak(w) = real_weak(v);
                }
                else if (how == 1)
                {
                    const Weak t(real_weak(v));
                    real_weak(w) = t;
                }
                else
                {
                    std::unique_ptr<Weak> t(new Weak(real_weak(v)));
                    weaks[w.at] = std::move(t);
                }
                set_weak(w, id);
                break;
            }
            case 5: // move
            {
                const Place v = weak_source();
                if (&real_weak(v) == &real_weak(w))
                {
                    return;
                }
                const int id = m.weak_at(v);
                c.log << wn << " = move(" << name(v, true) << ")";
                if (w.obj == -1 && s.flip())
                {
                    std::unique_ptr<Weak> t(new Weak(std::move(real_weak(v))));
                    weaks[w.at] = std::move(t);
                }
                else
                {
                    real_weak(w) = std::move(real_weak(v));
                }
                set_weak(v, -1);
                set_weak(w, id);
                break;
            }
            case 6:
            {
                Weak& x = real_weak(w);
                Weak& same = x;
                if (s.flip())
                {
                    c.log << wn << " = itself";
                    x = same;
                }
                else
                {
                    c.log << wn << " = move(itself)";
                    x = std::move(same);
                }
                break;
            }
            case 7:
                c.log << wn << " emptied";
                real_weak(w) = s.flip() ? Weak() : Weak(Shared());
                set_weak(w, -1);
                break;
            default: // lock
            {
                const Place v = weak_source();
                const Place a = place();
                const int id = m.expired(m.weak_at(v)) ? -1 : m.weak_at(v);
                const Model next = with(a, id);
                if (!survives(next, a))
                {
                    return;
                }
                c.log << name(a) << " = " << name(v, true) << ".lock()";
                locked += id >= 0;
                lock_failed += m.weak_at(v) >= 0 && id < 0;
                if (s.flip())
                {
                    real(a) = real_weak(v).lock();
                }
                else
                {
                    const Shared t = real_weak(v).lock();
                    c.check(t.Get() == (id < 0 ? nullptr : raw[static_cast<size_t>(id)]), "lock gives another object");
                    real(a) = t;
                }
                apply(next, a);
                break;
            }
        }
    }

    void verify_owner(Place p, bool refusals)
    {
        const Shared& x = real(p);
        const int id = m.at(p);
        const std::string n = "owner " + name(p);
        Obj* const want = id < 0 ? nullptr : raw[static_cast<size_t>(id)];
        c.check(x.Get() == want, n + (id < 0 ? " is not empty" : x.Get() ? " refers to another object" : " is empty"));
        c.check((x == nullptr) == (id < 0) && (x != nullptr) == (id >= 0), n + ": comparison with nullptr");
        if (id < 0 && refusals)
        {
            c.must_throw([&] { (void)*x; }, "dereferencing an empty owner");
            c.must_throw([&] { (void)x->data; }, "access through an empty owner");
        }
        if (id >= 0)
        {
            c.check(&*x == want && x->id == id && *x->text == "object " + std::to_string(id) && x->data == m.objs[static_cast<size_t>(id)].data, n + ": content of the object");
        }
    }
    void verify_weak(Place p, bool refusals)
    {
        const Weak& x = real_weak(p);
        const int id = m.weak_at(p);
        const std::string n = "weak reference " + name(p, true);
        const bool gone = m.expired(id);
        c.check(x.expired() == gone, n + (gone ? " is not expired" : " is expired"));
        {
            const Shared l = x.lock();
            c.check(l.Get() == (gone ? nullptr : raw[static_cast<size_t>(id)]), n + ": lock");
        }
        if (gone && refusals)
        {
            c.must_throw([&] { (void)*x; }, "dereferencing an expired weak reference");
            c.must_throw([&] { (void)x->data; }, "access through an expired weak reference");
        }
        if (!gone)
        {
            c.check(&*x == raw[static_cast<size_t>(id)] && x->id == id, n + ": access");
        }
        if (id < 0)
        {
            c.check(x == nullptr && !(x != nullptr), n + ": an empty reference compared with nullptr");
        }
        else if (!gone)
        {
            c.check(x != nullptr && !(x == nullptr), n + ": a live reference compared with nullptr");
        }
    }
    std::vector<Place> owner_places() const
    {
        std::vector<Place> v;
        for (size_t i = 0; i < slots.size(); ++i)
        {
            v.push_back({-1, i});
        }
        for (size_t i = 0; i < list.size(); ++i)
        {
            v.push_back({-2, i});
        }
        for (int id : alive())
        {
            v.push_back({id, 0});
            v.push_back({id, 1});
        }
        return v;
    }
    void verify()
    {
        Registry& r = Registry::get();
        c.check(r.broken.empty(), r.broken);
        for (size_t i = 0; i < raw.size(); ++i)
        {
            auto it = r.live.find(raw[i]);
            const bool is = it != r.live.end() && it->second == static_cast<int>(i);
            if (is != m.objs[i].alive)
            {
                c.fail("object " + std::to_string(i) + (is ? " is still alive without an owner" : " is destroyed although an owner refers to it"));
            }
        }
        std::map<int, size_t> owners;
        const auto places = owner_places();
        ++round; // an exception is slow: refusals are checked in turn
        for (size_t i = 0; i < places.size(); ++i)
        {
            const Place p = places[i];
            verify_owner(p, round % 2 == 0 && i == round / 2 % places.size());
            if (m.at(p) >= 0)
            {
                most_owners = std::max(most_owners, ++owners[m.at(p)]);
            }
        }
        for (size_t i = 1; i < places.size(); ++i)
        {
            const Shared &x = real(places[i - 1]), &y = real(places[i]);
            const bool eq = m.at(places[i - 1]) == m.at(places[i]);
            c.check((x == y) == eq && (x != y) == !eq, "comparison of two owners");
        }
        if (weak)
        {
            for (size_t i = 0; i < weaks.size(); ++i)
            {
                verify_weak({-1, i}, round % 6 == i);
                const size_t j = (i + 1) % weaks.size();
                const int p = m.weak[i], q = m.weak[j];
                if ((p < 0 || !m.expired(p)) && (q < 0 || !m.expired(q)))
                {
                    c.check((*weaks[i] == *weaks[j]) == (p == q) && (*weaks[i] != *weaks[j]) == (p != q), "comparison of two weak references");
                }
            }
            for (int id : alive())
            {
                verify_weak({id, 0}, round % 2 == 0 && static_cast<int>(round / 2 % m.objs.size()) == id);
            }
        }
        c.check(r.broken.empty(), r.broken);
    }
    void finish()
    {
        c.log << "end";
        slots.clear();
        list.clear();
        m.slots.clear();
        m.list.clear();
        const size_t before = alive().size();
        m.collect();
        died += before > alive().size();
        verify();
        // only cycles are left: take them apart
        std::vector<Shared> keep;
        for (int id : alive())
        {
            keep.push_back(raw[static_cast<size_t>(id)]->next[0]);
            keep.push_back(raw[static_cast<size_t>(id)]->next[1]);
        }
        for (int id : alive())
        {
            raw[static_cast<size_t>(id)]->next[0].Reset();
            raw[static_cast<size_t>(id)]->next[1].Reset();
        }
        for (int id : alive())
        {
            c.check(Registry::get().live.count(raw[static_cast<size_t>(id)]) == 1, "object " + std::to_string(id) + " is destroyed although an owner refers to it");
        }
        keep.clear();
        for (auto& o : m.objs)
        {
            o.alive = false;
        }
        verify();
        weaks.clear();
        c.check(Registry::get().live.empty(), "an object is never destroyed");
    }

    Src& s;
    Ctx& c;
    const bool weak;
    Model m;
    std::vector<Obj*> raw;
    std::vector<std::unique_ptr<Shared>> slots;
    std::vector<Shared> list;
    std::vector<std::unique_ptr<Weak>> weaks;
    size_t round = 0;
    size_t most_owners = 0, died = 0, cascades = 0, selfs = 0, from_part = 0, locked = 0, lock_failed = 0;
};

} // namespace owners

#endif // OWNERS_H_
