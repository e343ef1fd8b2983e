// M02: exclusive and non-owning handles follow ownership to the letter.
#include <map>
#include <memory>
#include <set>
#include <type_traits>
#include <vector>

#include <Caitlyn/Memory>

#include "gen.h"

using namespace pbt;

struct Obj;
using Unique = Caitlyn::UniquePtr<Obj>;
using Handle = Caitlyn::Ptr<Obj>;

static std::map<const Obj*, int> living;
static std::string broken;

struct Obj
{
    explicit Obj(int id) : id(id), text(new std::string("object " + std::to_string(id)))
    {
        living[this] = id;
    }
    Obj(const Obj&) = delete;
    ~Obj()
    {
        if (!living.erase(this))
        {
            broken = "an object is destroyed twice";
            return;
        }
        delete text;
    }
    const int id;
    std::string* text;
    int data = 0;
    Unique next[2];
};

// Where an exclusive owner is: a slot (obj -1), the list (-2) or a field of an object
struct Place
{
    int obj;
    size_t at;
    bool operator==(const Place& o) const
    {
        return obj == o.obj && at == o.at;
    }
};

struct Model
{
    struct O
    {
        bool alive = true;
        int next[2] = {-1, -1};
        int data = 0;
    };
    std::vector<O> objs;
    std::vector<int> slots, list;
    std::set<int> loose; // owned by the caller

    int& at(Place p)
    {
        return p.obj == -1 ? slots[p.at] : p.obj == -2 ? list[p.at] : objs[static_cast<size_t>(p.obj)].next[p.at];
    }
    void destroy(int id)
    {
        if (id < 0)
        {
            return;
        }
        O& o = objs[static_cast<size_t>(id)];
        o.alive = false;
        destroy(o.next[0]);
        destroy(o.next[1]);
        o.next[0] = o.next[1] = -1;
    }
    bool inside(int id, int whole) const
    {
        return id >= 0 && whole >= 0 && (id == whole || inside(id, objs[static_cast<size_t>(whole)].next[0]) || inside(id, objs[static_cast<size_t>(whole)].next[1]));
    }
};

class History
{
public:
    History(Src& s, Ctx& c) : s(s), c(c)
    {
    }
    void run()
    {
        living.clear();
        broken.clear();
        c.check(!std::is_copy_constructible<Unique>::value && !std::is_copy_assignable<Unique>::value, "an exclusive owner can be copied");
        const size_t n = 2 + s.below(3);
        const bool filled = s.flip();
        for (size_t i = 0; i < n; ++i)
        {
            slots.emplace_back(new Unique());
            m.slots.push_back(-1);
            if (filled)
            {
                const int id = fresh();
                *slots[i] = raw.back();
                m.slots[i] = id;
            }
            handles.emplace_back(new Handle());
            m_handles.push_back(nullptr);
        }
        c.log << (filled ? "filled; " : "");
        verify();
        const size_t steps = 3 + s.below(30);
        for (size_t i = 0; i < steps; ++i)
        {
            if (s.below(3) == 2)
            {
                handle_step();
            }
            else
            {
                step();
            }
            c.log << "; ";
            verify();
        }
        c.log << "end";
        handles.clear();
        m_handles.clear();
        verify();
        slots.clear();
        for (int id : m.slots)
        {
            m.destroy(id);
        }
        m.slots.clear();
        verify();
        list.clear();
        for (int id : m.list)
        {
            m.destroy(id);
        }
        m.list.clear();
        verify();
        for (int id : m.loose)
        {
            c.check(living.count(raw[static_cast<size_t>(id)]) == 1, "a released object is destroyed");
            delete raw[static_cast<size_t>(id)];
        }
        c.check(living.empty() && broken.empty(), "objects alive at the end");
        c.label_if(moved > 0, "moved a held object");
        c.label_if(released > 0, "released");
        c.label_if(died > 0, "destroyed by its owner");
        c.label_if(selfs > 0, "given what it holds");
        c.label_if(from_part > 0, "moved from a part of what it owns");
        c.label_if(handle_destroyed > 0, "destroyed through a handle");
        c.nontrivial = (moved > 0 && died > 0) || released > 0 || handle_destroyed > 0;
    }

private:
    static std::string name(Place p)
    {
        return (p.obj == -1 ? "u" : p.obj == -2 ? "list" : "o" + std::to_string(p.obj) + ".next") + std::to_string(p.at);
    }
    Unique& real(Place p)
    {
        return p.obj == -1 ? *slots[p.at] : p.obj == -2 ? list[p.at] : raw[static_cast<size_t>(p.obj)]->next[p.at];
    }
    std::vector<int> alive() const
    {
        std::vector<int> v;
        for (size_t i = 0; i < m.objs.size(); ++i)
        {
            if (m.objs[i].alive)
            {
                v.push_back(static_cast<int>(i));
            }
        }
        return v;
    }
    Place place()
    {
        const auto v = alive();
        const uint64_t k = s.below(8);
        if (k >= 5 && !v.empty())
        {
            return {v[s.below(v.size())], s.below(2)};
        }
        if (k == 4 && !list.empty())
        {
            return {-2, s.below(list.size())};
        }
        return {-1, s.below(slots.size())};
    }
    Place source()
    {
        Place p = place();
        for (int i = 0; i < 3 && m.at(p) < 0; ++i)
        {
            p = place();
        }
        return p;
    }
    int fresh()
    {
        raw.push_back(new Obj(static_cast<int>(raw.size())));
        m.objs.emplace_back();
        return static_cast<int>(raw.size()) - 1;
    }
    void replace(Place a, int id)
    {
        const int old = m.at(a);
        m.at(a) = id;
        died += old >= 0;
        m.destroy(old);
    }
    static Unique pass(Unique p)
    {
        return p;
    }
    int a_loose()
    {
        auto it = m.loose.begin();
        std::advance(it, static_cast<long>(s.below(m.loose.size())));
        return *it;
    }

    void step()
    {
        const Place a = place();
        const std::string an = name(a);
        switch (s.below(14))
        {
            case 0:
            case 1:
            case 2: // a new object, or one that was released
            {
                int id;
                if (!m.loose.empty() && s.below(3) != 0)
                {
                    id = a_loose();
                    if (a.obj >= 0 && m.inside(a.obj, id))
                    {
                        return; // it would own itself
                    }
                    m.loose.erase(id);
                }
                else
                {
                    id = fresh();
                }
                Obj* const p = raw[static_cast<size_t>(id)];
                const uint64_t how = s.below(a.obj == -1 ? 4 : 3);
                c.log << an << " gets o" << id << " (" << how << ")";
                if (how == 0)
                {
                    real(a) = p;
                }
                else if (how == 1)
                {
                    real(a).Reset(p);
                }
                else if (how == 2)
                {
                    real(a) = Unique(p);
                }
                else
                {
                    slots[a.at].reset(new Unique(p));
                }
                replace(a, id);
                break;
            }
            case 3:
            case 4:
            case 5:
            case 6: // move
            {
                const Place b = source();
                const int id = m.at(b);
                // not into itself, and not into a part of what the move destroys
                if (a == b || (a.obj >= 0 && id >= 0 && m.inside(a.obj, id)) || m.inside(a.obj, m.at(a)))
                {
                    return;
                }
                from_part += b.obj >= 0 && m.inside(b.obj, m.at(a));
                moved += id >= 0;
                const uint64_t how = s.below(a.obj == -1 ? 4 : 3);
                c.log << an << " = move(" << name(b) << ") (" << how << ")";
                if (how == 0)
                {
                    real(a) = std::move(real(b));
                }
                else if (how == 1)
                {
                    real(a) = Unique(std::move(real(b)));
                }
                else if (how == 2)
                {
                    real(a) = pass(std::move(real(b)));
                }
                else
                {
                    std::unique_ptr<Unique> t(new Unique(std::move(real(b))));
                    c.check(real(b).Get() == nullptr && real(b) == nullptr, "an owner moved from is not empty");
                    slots[a.at] = std::move(t);
                }
                m.at(b) = -1;
                replace(a, id);
                break;
            }
            case 7: // what it already holds
            {
                ++selfs;
                Unique& x = real(a);
                Unique& same = x;
                switch (s.below(3))
                {
                    case 0:
                        c.log << an << " = move(itself)";
                        x = std::move(same);
                        break;
                    case 1:
                        c.log << an << " = its raw object";
                        x = x.Get();
                        break;
                    default:
                        c.log << an << ".Reset(its raw object)";
                        x.Reset(x.Get());
                        break;
                }
                break;
            }
            case 8:
            case 9: // emptied
            {
                const uint64_t how = s.below(4);
                c.log << an << " emptied (" << how << ")";
                if (how == 0)
                {
                    real(a).Reset();
                }
                else if (how == 1)
                {
                    real(a).Reset(nullptr);
                }
                else if (how == 2)
                {
                    real(a) = Unique();
                }
                else
                {
                    real(a) = static_cast<Obj*>(nullptr);
                }
                replace(a, -1);
                break;
            }
            case 10:
            case 11: // released
            {
                c.log << an << ".Release()";
                const int id = m.at(a);
                Obj* const p = real(a).Release();
                c.check(p == (id < 0 ? nullptr : raw[static_cast<size_t>(id)]), "Release returns another object");
                m.at(a) = -1;
                if (id >= 0)
                {
                    m.loose.insert(id);
                    ++released;
                }
                break;
            }
            case 12: // swap
            {
                const Place b = place();
                if ((a.obj >= 0 && m.inside(a.obj, m.at(b))) || (b.obj >= 0 && m.inside(b.obj, m.at(a))))
                {
                    return;
                }
                c.log << "swap " << an << " and " << name(b);
                std::swap(real(a), real(b));
                std::swap(m.at(a), m.at(b));
                break;
            }
            default: // the list
            {
                if (list.size() < 5 && s.below(3) != 2)
                {
                    const int id = fresh();
                    const size_t at = s.below(list.size() + 1);
                    c.log << "list gets o" << id << " at " << at;
                    list.insert(list.begin() + static_cast<long>(at), Unique(raw.back()));
                    m.list.insert(m.list.begin() + static_cast<long>(at), id);
                }
                else if (!list.empty())
                {
                    const size_t at = s.below(list.size());
                    c.log << "list loses " << at;
                    list.erase(list.begin() + static_cast<long>(at));
                    m.destroy(m.list[at]);
                    m.list.erase(m.list.begin() + static_cast<long>(at));
                }
                break;
            }
        }
    }

    // What a handle refers to, if that is alive and owned by the caller
    int free_object(Obj* p) const
    {
        for (int id : m.loose)
        {
            if (raw[static_cast<size_t>(id)] == p)
            {
                return id;
            }
        }
        return -1;
    }
    Obj* any_object()
    {
        const auto v = alive();
        const uint64_t k = s.below(4);
        if (k == 0 && v.empty())
        {
            return nullptr;
        }
        if (k < 2 && !v.empty())
        {
            return raw[static_cast<size_t>(v[s.below(v.size())])];
        }
        if (k == 2 && !m.loose.empty())
        {
            return raw[static_cast<size_t>(a_loose())];
        }
        const int id = fresh();
        m.loose.insert(id);
        return raw[static_cast<size_t>(id)];
    }
    std::string object(Obj* p) const
    {
        auto it = living.find(p);
        return p == nullptr ? "null" : it == living.end() ? "a dead object" : "o" + std::to_string(it->second);
    }

    void handle_step()
    {
        const size_t i = s.below(handles.size());
        const std::string n = "h" + std::to_string(i);
        switch (s.below(9))
        {
            case 0:
            case 1: // refers to something
            {
                Obj* const p = any_object();
                const uint64_t how = s.below(3);
                c.log << n << " = " << object(p) << " (" << how << ")";
                if (how == 0)
                {
                    *handles[i] = p;
                }
                else if (how == 1)
                {
                    handles[i].reset(new Handle(p));
                }
                else
                {
                    *handles[i] = Handle(p);
                }
                m_handles[i] = p;
                break;
            }
            case 2:
            case 3: // copied
            {
                const size_t j = s.below(handles.size());
                const uint64_t how = s.below(4);
                c.log << n << " = h" << j << " (" << how << ")";
                Obj* const p = m_handles[j];
                if (how == 0)
                {
                    *handles[i] = *handles[j];
                }
                else if (how == 1)
                {
                    std::unique_ptr<Handle> t(new Handle(*handles[j]));
                    handles[i] = std::move(t);
                }
                else if (how == 2)
                {
                    std::vector<Handle> t(3, *handles[j]);
                    t.erase(t.begin());
                    *handles[i] = t.back();
                }
                else
                {
                    const Handle t(*handles[j]);
                    *handles[i] = t;
                }
                m_handles[i] = p;
                break;
            }
            case 4: // forgotten
                c.log << n << " destroyed and made anew";
                handles[i].reset();
                verify(i);
                handles[i].reset(new Handle());
                m_handles[i] = nullptr;
                break;
            case 5: // reset to what it refers to: nothing happens
                c.log << n << ".Reset(what it refers to)";
                handles[i]->Reset(m_handles[i]);
                break;
            case 6:
            case 7: // destroys its object, which must be the caller's, and refers to another one or nothing
            {
                const int id = m_handles[i] ? free_object(m_handles[i]) : -1;
                if (m_handles[i] && id < 0)
                {
                    return;
                }
                Obj* const p = s.flip() ? any_object() : nullptr;
                // what it is given must not be destroyed with the old one
                if (id >= 0 && p)
                {
                    const int pid = living.at(p);
                    if (m.inside(pid, id) && pid != id)
                    {
                        return;
                    }
                }
                c.log << n << ".Reset(" << object(p) << ") destroys " << object(m_handles[i]);
                if (p || s.flip())
                {
                    handles[i]->Reset(p);
                }
                else
                {
                    handles[i]->Reset();
                }
                if (id >= 0 && p != m_handles[i])
                {
                    m.loose.erase(id);
                    m.destroy(id);
                    ++handle_destroyed;
                }
                m_handles[i] = p;
                break;
            }
            default:
            {
                const int id = m_handles[i] ? free_object(m_handles[i]) : -1;
                if (m_handles[i] && id < 0)
                {
                    return;
                }
                c.log << n << ".Destroy() destroys " << object(m_handles[i]);
                handles[i]->Destroy();
                if (id >= 0)
                {
                    m.loose.erase(id);
                    m.destroy(id);
                    ++handle_destroyed;
                }
                m_handles[i] = nullptr;
                break;
            }
        }
    }

    std::vector<Place> places() const
    {
        std::vector<Place> v;
        for (size_t i = 0; i < m.slots.size(); ++i)
        {
            v.push_back({-1, i});
        }
        for (size_t i = 0; i < m.list.size(); ++i)
        {
            v.push_back({-2, i});
        }
        for (int id : alive())
        {
            v.push_back({id, 0});
            v.push_back({id, 1});
        }
        return v;
    }
    void verify(size_t no_handle = SIZE_MAX)
    {
        c.check(broken.empty(), broken);
        for (size_t i = 0; i < raw.size(); ++i)
        {
            auto it = living.find(raw[i]);
            const bool is = it != living.end() && it->second == static_cast<int>(i);
            if (is != m.objs[i].alive)
            {
                c.fail("object " + std::to_string(i) + (is ? " is still alive" : " is destroyed too early"));
            }
        }
        ++round;
        const auto all = places();
        for (size_t i = 0; i < all.size(); ++i)
        {
            const Place p = all[i];
            Unique& x = real(p);
            const int id = m.at(p);
            Obj* const want = id < 0 ? nullptr : raw[static_cast<size_t>(id)];
            const std::string n = "owner " + name(p);
            c.check(x.Get() == want, n + (id < 0 ? " is not empty" : x.Get() ? " holds another object" : " is empty"));
            c.check((x == nullptr) == (id < 0) && (x != nullptr) == (id >= 0), n + ": comparison with nullptr");
            if (id >= 0)
            {
                c.check(&*x == want && x->id == id && *x->text == "object " + std::to_string(id), n + ": content of the object");
            }
            else if (round % 2 == 0 && i == round / 2 % all.size())
            {
                c.must_throw([&] { (void)*x; }, "dereferencing an empty owner");
                c.must_throw([&] { (void)x->data; }, "access through an empty owner");
            }
            if (i > 0)
            {
                const Unique& y = real(all[i - 1]);
                const bool same = m.at(all[i - 1]) == id;
                c.check((x == y) == same && (x != y) == !same, "comparison of two owners");
            }
        }
        for (size_t i = 0; i < m_handles.size(); ++i)
        {
            if (i == no_handle)
            {
                continue;
            }
            const Handle& x = *handles[i];
            Obj* const want = m_handles[i];
            const std::string n = "handle " + std::to_string(i);
            c.check(x.Get() == want, n + " refers to something else");
            c.check((x == nullptr) == (want == nullptr) && (x != nullptr) == (want != nullptr), n + ": comparison with nullptr");
            if (want && living.count(want))
            {
                c.check(&*x == want && x->id == living[want], n + ": content of the object");
            }
            else if (!want && round % 4 == i)
            {
                c.must_throw([&] { (void)*x; }, "dereferencing an empty handle");
                c.must_throw([&] { (void)x->data; }, "access through an empty handle");
            }
            const size_t j = (i + 1) % m_handles.size();
            if (j != no_handle)
            {
                c.check((x == *handles[j]) == (want == m_handles[j]) && (x != *handles[j]) == (want != m_handles[j]), "comparison of two handles");
            }
        }
    }

    Src& s;
    Ctx& c;
    Model m;
    std::vector<Obj*> raw;
    std::vector<std::unique_ptr<Unique>> slots;
    std::vector<Unique> list;
    std::vector<std::unique_ptr<Handle>> handles;
    std::vector<Obj*> m_handles;
    size_t round = 0, moved = 0, released = 0, died = 0, selfs = 0, from_part = 0, handle_destroyed = 0;
};

static void run(Src& s, Ctx& c)
{
    History(s, c).run();
}

static const Config cfg{"M02", run, 0, nullptr, true};
PBT_MAIN(cfg)
