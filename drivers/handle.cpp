// conformance driver: containers over a handle-based heap whose blocks move whenever they are unlocked
#include "common.h"
#include <cassert>
#include <estd/vector.h>
#include <estd/string.h>
#include <estd/ostream.h>
#include <estd/sstream.h>

struct Heap
{
    struct Slot { void* stash = nullptr; void* live = nullptr; size_t bytes = 0; int locks = 0; bool used = false; };
    std::vector<Slot> s;
    std::string err;
    bool full = false, moving = false;
    Heap() { Slot z; z.used = true; z.stash = malloc(1); s.push_back(z); }     // what an empty container locks
    ~Heap() { for (auto& x : s) { free(x.stash); free(x.live); } }
    void fail(const char* e) { if (err.empty()) err = e; }
    int alloc(size_t b)
    {
        if (full) return 0;
        Slot x; x.used = true; x.bytes = b; x.stash = malloc(b ? b : 1); memset(x.stash, 0x5a, b);
        s.push_back(x); return (int)s.size() - 1;
    }
    bool good(int h) { if (h < 0 || h >= (int)s.size() || !s[h].used) { fail("stale handle"); return false; } return true; }
    void release(int h) { if (!good(h)) return; if (s[h].locks) fail("freed while locked"); free(s[h].stash); free(s[h].live); s[h].used = false; s[h].stash = s[h].live = nullptr; }
    int resize(int h, size_t b)
    {
        if (h == 0) { fail("resized nothing"); return 0; }
        if (!good(h) || full) return 0;
        if (s[h].locks) fail("resized while locked");
        int n = moving ? alloc(b) : h;
        void* p = malloc(b ? b : 1); memset(p, 0x5a, b); memcpy(p, s[h].stash, b < s[h].bytes ? b : s[h].bytes);
        if (moving) { release(h); free(s[n].stash); s[n].stash = p; }
        else { free(s[h].stash); s[h].stash = p; s[h].bytes = b; }
        return n;
    }
    void* lock(int h)
    {
        static char nowhere[64];
        if (!good(h)) return nowhere;
        Slot& x = s[h];
        if (x.locks++ == 0) { x.live = malloc(x.bytes ? x.bytes : 1); memcpy(x.live, x.stash, x.bytes); memset(x.stash, 0xEE, x.bytes); }
        return x.live;
    }
    void unlock(int h)
    {
        if (!good(h)) return;
        Slot& x = s[h];
        if (x.locks == 0) { fail("unlocked while not locked"); return; }
        if (--x.locks == 0) { memcpy(x.stash, x.live, x.bytes); free(x.live); x.live = nullptr; }
    }
    int locked() { int n = 0; for (auto& x : s) if (x.used) n += x.locks; return n; }
};
static Heap* heap = nullptr;

template <class T, class Self> struct HAllocBase
{
    typedef T value_type; typedef T* pointer; typedef const T* const_pointer; typedef const void* const_void_pointer;
    typedef size_t size_type; typedef ptrdiff_t difference_type; typedef int handle_type;
    typedef estd::internal::handle_with_offset<int, size_t> handle_with_offset;
    typedef void is_locking_tag; typedef void is_stateful_tag;
    Heap* hp = heap;
    struct iterator
    {
        typedef estd::internal::accessor<Self> accessor;
        typedef T value_type; typedef int difference_type; typedef T* pointer; typedef T& reference; typedef std::bidirectional_iterator_tag iterator_category;
        accessor a; explicit iterator(const accessor& a) : a(a) {}
        ptrdiff_t operator-(const iterator& o) const { return a.h_exp() - o.a.h_exp(); }
        iterator& operator+=(ptrdiff_t n) { a.h_exp() += n; return *this; }
        iterator operator+(ptrdiff_t n) const { iterator r(*this); r += n; return r; }
        iterator& operator++() { a.h_exp() += 1; return *this; }
        bool operator==(const iterator& o) const { return a.h_exp() == o.a.h_exp(); }
        bool operator!=(const iterator& o) const { return !(*this == o); }
        accessor& operator*() { return a; }
    };
    static constexpr handle_type invalid() { return 0; }
    handle_type allocate(size_t n) { return hp->alloc(n * sizeof(T)); }
    void deallocate(handle_type h, size_t) { hp->release(h); }
    void free(handle_type h) { hp->release(h); }
    handle_type reallocate(handle_type h, size_t n) { return hp->resize(h, n * sizeof(T)); }
    handle_with_offset offset(handle_type h, size_t n) const { return handle_with_offset(h, n); }
    T& lock(handle_type h, size_t pos = 0, size_t = 0) const { return ((T*)hp->lock(h))[pos]; }
    T& lock(const handle_with_offset& h, size_t pos = 0, size_t = 0) const { return ((T*)hp->lock(h.handle()))[h.offset() + pos]; }
    const T& clock(handle_type h, size_t pos = 0, size_t = 0) const { return lock(h, pos); }
    const T& clock(const handle_with_offset& h, size_t pos = 0, size_t = 0) const { return lock(h, pos); }
    void unlock(handle_type h) const { hp->unlock(h); }
    void cunlock(handle_type h) const { hp->unlock(h); }
    static size_t max_size() { return 99999; }
};
template <class T> struct HAlloc : HAllocBase<T, HAlloc<T>> {};
template <class T> struct SAlloc : HAllocBase<T, SAlloc<T>>
{ typedef void has_size_tag; size_t size(int h) const { return this->hp->good(h) ? this->hp->s[h].bytes / sizeof(T) : 0; } };

template <class C, class T, bool str> struct L1;
template <class C, class T> struct L1<C, T, false> { typedef estd::layer1::vector<T, 400> type; };
template <class C, class T> struct L1<C, T, true> { typedef estd::layer1::string<400, false> type; };

template <class C, class T, bool S>
struct D : Obj
{
    Heap hh;
    std::unique_ptr<C> a, b;
    typedef typename C::accessor A;
    typedef typename L1<C, T, S>::type F;
    std::vector<T*> held; std::vector<bool> heldc; std::vector<size_t> heldi; size_t acci = 0;
    std::unique_ptr<A> acc;
    template <bool X> using B = std::integral_constant<bool, X>;
    D(bool moving) { hh.moving = moving; heap = &hh; a.reset(new C); b.reset(new C); }
    static int num(T x) { return sizeof(T) == 1 ? (int)(unsigned char)x : (int)x; }
    static std::vector<T> tv(const J& j) { std::vector<T> r; for (auto& x : j.a) r.push_back((T)x.i); return r; }
    static std::unique_ptr<T[]> raw(const std::vector<T>& t, bool z = false) { std::unique_ptr<T[]> q(new T[t.size() + z]); for (size_t i = 0; i < t.size(); i++) q[i] = t[i]; if (z) q[t.size()] = 0; return q; }
    static F fixed(const J& j) { F f; for (auto& x : j.a) { const T c = (T)x.i; f.push_back(c); } return f; }
    static J list(const C& c)
    {
        J r = J::arr(); const size_t n = c.size();
        const T* p = c.clock(); for (size_t i = 0; i < n; i++) r.add(num(p[i])); c.cunlock();
        return r;
    }
    static int sgn(int x) { return x < 0 ? -1 : x > 0; }
    // ---- only vectors
    bool special(const std::string& o, const J& x, J& r, B<false>)
    {
        C& v = *a; const size_t n = v.size();
        if (o == "emplace") { auto c = v.emplace_back((T)x.n(0)); r = num(c.lock()); c.unlock(); }
        else if (o == "ins") { const T t = (T)x.n(1); auto i = v.insert(v.begin() + x.n(0), t); (void)i; }
        else if (o == "ins_move") { v.insert(v.begin() + x.n(0), (T)x.n(1)); }
        else if (o == "ins_s") { auto t = tv(x[1]); auto q = raw(t); v.insert(v.begin() + x.n(0), (const T*)q.get(), (const T*)q.get() + t.size()); }
        else if (o == "push_self") { auto c = v[x.n(0)]; const T& e = c.lock(); const T copy = e; c.unlock(); v.push_back(copy); }
        else if (o == "erase") { auto i = v.erase(v.begin() + x.n(0)); if (i - v.begin() != x.n(0)) r = "iterator"; }
        else if (o == "set_l1") { F f = fixed(x[0]); v.assign(f); }
        else if (o == "set_b") v.assign(*b);
        else if (o == "bset") b->assign(v);
        else if (o == "eq_s") { F f = fixed(x[0]); r = v == f; }
        else if (o == "search" || o == "rsearch" || o == "first_of" || o == "last_of")
        {
            auto t = tv(x[0]); auto q = raw(t); const size_t np = (size_t)-1; size_t p = x.n(1) == -1 ? np : (size_t)x.n(1), k;
            const C& c = v;
            k = o == "search" ? c.find(q.get(), p, t.size(), np) : o == "rsearch" ? c.rfind(q.get(), p, t.size(), np) : o == "first_of" ? c.find_first_of(q.get(), p, t.size(), np) : c.find_last_of(q.get(), p, t.size(), np);
            r = k == np ? J(-1) : J((int)k);
        }
        else return false;
        (void)n;
        return true;
    }
    bool refuse_insert(B<false>) { T t[600]; memset(t, 1, sizeof t); a->insert(a->begin(), (const T*)t, (const T*)t + 600); return true; }
    // ---- only strings
    bool special(const std::string& o, const J& x, J& r, B<true>)
    {
        C& v = *a; const C& c = v;
        auto z = [&](const J& j) { return raw(tv(j), true); };
        if (o == "app_c") { auto q = z(x[0]); v.append((const char*)q.get()); }
        else if (o == "plus_c") { auto q = z(x[0]); v += (const char*)q.get(); }
        else if (o == "plus_b") { v += *b; }
        else if (o == "set_c") { auto q = z(x[0]); v = (const char*)q.get(); }
        else if (o == "set_l1") { F f = fixed(x[0]); v = f; }
        else if (o == "set_b") { typedef estd::detail::basic_string<typename C::impl_type> DB; const DB& s = *b; static_cast<DB&>(v).template operator=<typename C::impl_type>(s); }
        else if (o == "bset") { b->assign(v); }
        else if (o == "ins_s") { auto t = tv(x[1]); if (x.n(0) % 2) { auto q = raw(t); v.insert((size_t)x.n(0), q.get(), t.size()); } else { auto q = z(x[1]); v.insert((size_t)x.n(0), (const char*)q.get()); } }
        else if (o == "ins_b") v.insert((size_t)x.n(0), *b);
        else if (o == "rep") v.append((size_t)x.n(0), (char)x.n(1));
        else if (o == "erase") v.erase((size_t)x.n(0), (size_t)x.n(1));
        else if (o == "eq_s") { auto q = z(x[0]); bool e = v == (const char*)q.get(); F f = fixed(x[0]); bool e2 = v == f; r = e == e2 ? J(e) : J("differ"); }
        else if (o == "cmp_b") r = sgn(c.compare(*b));
        else if (o == "cmp_s") { auto q = z(x[0]); r = sgn(c.compare((const char*)q.get())); }
        else if (o == "with_b") r = J::arr().add((bool)c.starts_with(*b)).add((bool)c.ends_with(*b));
        else if (o == "with_s") { auto q = z(x[0]); r = J::arr().add((bool)c.starts_with((const char*)q.get())).add((bool)c.ends_with((const char*)q.get())); }
        else if (o == "with_c") { const char ch = (char)x.n(0); r = J::arr().add((bool)c.starts_with(ch)).add((bool)c.ends_with(ch)); }
        else if (o == "find_c") { auto k = c.find((char)x.n(0), (size_t)x.n(1)); r = k == C::npos ? J(-1) : J((int)k); }
        else if (o == "search" || o == "rsearch" || o == "first_of" || o == "last_of" || o == "b")
        {
            const bool fb = o == "b"; const std::string w = fb ? x[0].s : o; const size_t p = x.n(1) == -1 ? C::npos : (size_t)x.n(1); size_t k;
            if (fb) k = w == "search" ? c.find(*b, p) : w == "rsearch" ? c.rfind(*b, p) : w == "first_of" ? c.find_first_of(*b, p) : c.find_last_of(*b, p);
            else { auto q = z(x[0]); const char* s = q.get(); k = w == "search" ? c.find(s, p) : w == "rsearch" ? c.rfind(s, p) : w == "first_of" ? c.find_first_of(s, p) : c.find_last_of(s, p); }
            r = k == C::npos ? J(-1) : J((int)k);
        }
        else if (o == "out") { estd::layer1::ostringstream<401> out; out << c; const auto& t = out.rdbuf()->str(); r = codes(t.data(), t.size()); }
        else return false;
        return true;
    }
    bool refuse_insert(B<true>) { std::string t(600, 'x'); a->insert((size_t)0, t.c_str(), t.size()); return true; }
    bool op(const std::string& o, const J& x, J& r) override
    {
        heap = &hh;
        C& v = *a; const size_t n = v.size();
        r = 0;
        if (o == "push") { const T t = (T)x.n(0); v.push_back(t); r = (int)v.size(); }
        else if (o == "push_move") { if (S) { const T t = (T)x.n(0); addc(t, B<S>()); } else v.push_back((T)x.n(0)); r = (int)v.size(); }
        else if (o == "app") { auto t = tv(x[0]); auto q = raw(t); v.append((const T*)q.get(), t.size()); }
        else if (o == "app_l1") { F f = fixed(x[0]); v.append(f); }
        else if (o == "app_b") v.append(*b);
        else if (o == "pop") v.pop_back();
        else if (o == "resize") { r = (bool)v.resize((size_t)x.n(0)); for (size_t i = n; i < (size_t)x.n(0); i++) v[i] = (T)x.n(1); }
        else if (o == "clear") v.clear();
        else if (o == "reserve") r = (bool)v.reserve((size_t)x.n(0));
        else if (o == "shrink") v.shrink_to_fit();
        else if (o == "refused")
        {
            hh.full = true; const size_t cap = v.capacity(); const std::string& h = x[0].s;
            if (h == "reserve") r = (bool)v.reserve(cap + 500); else if (h == "resize") r = (bool)v.resize(cap + 500); else refuse_insert(B<S>());
            hh.full = false;
            if (v.capacity() != cap) r = "capacity";
        }
        else if (o == "bpush") { const T t = (T)x.n(0); b->push_back(t); }
        else if (o == "bpop") b->pop_back();
        else if (o == "eq_b") { bool e = v == *b; r = (e == (*b == v)) ? J(e) : J("asym"); }
        else if (o == "eq_l1") { F f; f.append(*b); bool e = v == f; r = (e == (f == v)) ? J(e) : J("asym"); }
        else if (o == "copy") { auto t = std::unique_ptr<T[]>(new T[x.n(0) + 1]); size_t k = v.copy(t.get(), (size_t)x.n(0), (size_t)x.n(1)); r = J::arr(); for (size_t i = 0; i < k; i++) r.add(num(t[i])); }
        else if (o == "to_fixed") { F f; f.append(v); r = J::arr(); for (size_t i = 0; i < f.size(); i++) r.add(num(f[i].lock())); }
        else if (o == "get")
        {
            const std::string& h = x[0].s; size_t i = (size_t)x.n(1); const C& c = v;
            if (h == "iter") { auto it = v.begin(); it += (int)i; r = num((T)*it); auto e = v.begin() + (int)n; if (v.end() != e || (int)(v.end() - v.begin()) != (int)n) r = "iterators"; }
            else { auto g = h == "ix" ? c[i] : h == "at" ? c.at(i) : h == "front" ? c.front() : c.back(); r = num((T)g); }
        }
        else if (o == "put")
        {
            const std::string& h = x[0].s; size_t i = (size_t)x.n(1); const T t = (T)x.n(2);
            if (h == "lock") { *v.lock(i) = t; v.unlock(); }
            else if (h == "iter") { auto it = v.begin() + (int)i; *it = t; }
            else if (h == "ix") v[i] = t; else if (h == "at") v.at(i) = t; else if (h == "front") v.front() = t; else v.back() = t;
        }
        else if (o == "swap") { estd::swap<typename C::allocator_type>(v[x.n(0)], v[x.n(1)]); }
        else if (o == "hold") { size_t i = (size_t)x.n(1); bool cl = x[0].s == "clock"; const C& c = v; T* p = cl ? const_cast<T*>(c.clock(i, 1)) : v.lock(i, 1); held.push_back(p); heldc.push_back(cl); heldi.push_back(i); r = num(*p); }
        else if (o == "hget" && heldi.at(x.n(0) - 1) >= n) return false;
        else if (o == "hput" && heldi.at(x.n(0) - 1) >= n) return false;
        else if (o == "hget") r = num(*held.at(x.n(0) - 1));
        else if (o == "hput") *held.at(x.n(0) - 1) = (T)x.n(1);
        else if (o == "drop") { if (heldc.back()) v.cunlock(); else v.unlock(); held.pop_back(); heldc.pop_back(); heldi.pop_back(); }
        else if (o == "take") { acc.reset(new A(v[x.n(0)])); }
        else if (o == "aget")
        {
            const std::string& h = x[0].s; const A& c = *acc;
            if (h == "conv") { T t = *acc; r = num(t); } else if (h == "cconv") { const T t = c; r = num(t); }
            else if (h == "lock") { r = num(acc->lock()); acc->unlock(); } else if (h == "clock") { r = num(c.clock()); c.cunlock(); }
            else { A d(c); A e(v[0]); e = d; r = num((T)e); }
        }
        else if (o == "aput") *acc = (T)x.n(0);
        else if (o == "acmp") { const A& c = *acc; const T t = (T)x.n(0); r = J::arr().add((bool)(c == t)).add((bool)(c != t)).add((bool)(c < t)).add((bool)(c > t)); }
        else return special(o, x, r, B<S>());
        return true;
    }
    void addc(T t, B<true>) { *a += t; }
    void addc(T, B<false>) {}
    J obs() override
    {
        heap = &hh;
        J o = J::obj();
        const int l = hh.locked();
        o.set("a", list(*a)).set("b", list(*b)).set("n", J::arr().add((int)a->size()).add((int)b->size())).set("locked", hh.locked() == l ? J(l) : J("drift")).set("err", hh.err);
        o.set("room", (bool)(a->capacity() >= a->size() && a->empty() == (a->size() == 0) && hh.err.empty()));
        return o;
    }
};
template <template <class> class Al> Obj* mk(const std::string& c, bool mv)
{
    if (c == "v4") return new D<estd::vector<int, Al<int>>, int, false>(mv);
    if (c == "v2") return new D<estd::vector<short, Al<short>>, short, false>(mv);
    return new D<estd::basic_string<char, estd::char_traits<char>, Al<char>>, char, true>(mv);
}
Obj* make(const J& cfg) { const std::string c = cfg[0].s, al = cfg[1].s; if (al == "sz") return mk<SAlloc>(c, false); return mk<HAlloc>(c, al == "mv"); }
J end_report() { return 0; }
