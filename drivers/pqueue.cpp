// conformance driver: priority_queue and heap algorithms
#include "common.h"
#include <estd/queue.h>
#include <estd/algorithm.h>

struct Near { int p = 0; Near() {} Near(int p) : p(p) {}
    int d(int x) const { return x < p ? p - x : x - p; }
    // "a ranks below b"
    bool operator()(const int& a, const int& b) const { return d(a) != d(b) ? d(b) < d(a) : b < a; } };
struct Gt { bool operator()(const int& a, const int& b) const { return a > b; } };
struct Lt { bool operator()(const int& a, const int& b) const { return a < b; } };

// alt: a queue which orders differently, where the comparator has a state
template <class Q> struct Mk { static Q* mk(bool = false) { return new Q; } };
template <size_t N> struct Mk<estd::layer1::priority_queue<int, N, Near>> { static estd::layer1::priority_queue<int, N, Near>* mk(bool alt = false) { return new estd::layer1::priority_queue<int, N, Near>(Near(alt ? 1 : 5)); } };

template <class Q, size_t N> struct P : Obj
{
    std::unique_ptr<Q> q;
    P() : q(Mk<Q>::mk()) {}
    static int at(Q& q) { auto t = q.top(); int v = t.lock(); t.unlock(); return v; }
    bool op(const std::string& o, const J& a, J& r) override
    {
        r = 0;
        auto full = [&] { return q->size() >= N; };
        if (o == "push") { if (full()) return false; const int x = a.n(0); q->push(x); }
        else if (o == "push_m") { if (full()) return false; q->push(a.n(0)); }
        else if (o == "emplace") { if (full()) return false; q->emplace(a.n(0)); }
        else if (o == "emplace_notify") { if (full()) return false; int seen = -1; q->emplace_with_notify([&](int& x) { seen = x; }, a.n(0)); r = seen; }
        else if (o == "pop") { if (q->empty()) return false; q->pop(); }
        else if (o == "erase_if") { int x = a.n(0); r = q->erase_if([x](int v) { return v == x; }); }
        else if (o == "erase_top") { if (q->empty()) return false; q->erase(*q->container().begin()); }
        else if (o == "copy") { std::unique_ptr<Q> n(Mk<Q>::mk(true)); *n = *q; q = std::move(n); }
        else if (o == "move") { std::unique_ptr<Q> n(Mk<Q>::mk(true)); n->push(7); *n = std::move(*q); q = std::move(n); }
        else return false;
        return true;
    }
    J obs() override
    {
        J t = J::arr(), all = J::arr();
        if (!q->empty()) t.add(at(*q));
        std::unique_ptr<Q> c(Mk<Q>::mk()); *c = *q;
        for (int k = 0; k < 64 && !c->empty(); k++) { all.add(at(*c)); c->pop(); }
        J o = J::obj();
        o.set("n", (int)q->size()).set("e", (bool)q->empty()).set("t", t).set("all", all);
        return o;
    }
};

// equal priorities, different things: nothing may be duplicated at another's cost
struct Tagged { int key = 0, tag = 0; };
struct ByKey { bool operator()(const Tagged& a, const Tagged& b) const { return a.key < b.key; } };
struct Heap : Obj
{
    bool op(const std::string& o, const J& a, J& r) override
    {
        std::vector<int> s = a[0].ints(); int k = a.size() > 1 ? a.n(1) : 2;
        size_t n = s.size();
        std::unique_ptr<int[]> d(new int[n]); std::copy(s.begin(), s.end(), d.get());
        int* b = d.get(); int* e = b + n;
        typedef estd::internal::heap<int*, Lt> H;
        if (o == "heapsort")
        {
            estd::make_heap(b, e, Lt(), k);
            if (k == 2) for (int* l = e; l - b > 1; l--) estd::pop_heap(b, l, Lt());
            else { H h(b, e, k, Lt()); while (h.size() > 1) h.pop(); }
            r = J::arr(); while (e != b) r.add(*--e);
        }
        else if (o == "make")
        {
            if (k == 2) estd::make_heap(b, e); else estd::make_heap(b, e, Lt(), k);
            bool ok = true;
            for (size_t i = 1; i < n; i++) if (b[(i - 1) / k] < b[i]) ok = false;
            std::sort(b, e, std::greater<int>());
            J x = J::arr(); for (size_t i = 0; i < n; i++) x.add(b[i]);
            r = J::arr(); r.add(x).add(ok);
        }
        else if (o == "pushsort")
        {
            for (size_t i = 0; i < n; i++) estd::push_heap(b, b + i + 1);
            for (int* l = e; l != b; l--) estd::pop_heap(b, l);
            r = J::arr(); while (e != b) r.add(*--e);
        }
        else if (o == "pushsort_k")
        {
            H h(b, b, k, Lt());
            for (int x : s) h.push(x);
            r = J::arr();
            while (!h.empty()) { r.add(h.front()); h.pop(); }
        }
        else if (o == "tagsort")
        {
            J keys = J::arr(); std::vector<int> tags; bool match = true;
            auto out = [&](const Tagged& t) { keys.add(t.key); tags.push_back(t.tag); if (t.tag < 1 || t.tag > (int)n || s[t.tag - 1] != t.key) match = false; };
            if (k == 0)
            {
                if (n > 48) return false;
                estd::layer1::priority_queue<Tagged, 48, ByKey> q;
                for (size_t i = 0; i < n; i++) { Tagged t; t.key = s[i]; t.tag = (int)i + 1; if (i & 1) q.push(t); else q.emplace(t); }
                while (!q.empty()) { auto t = q.top(); Tagged v = t.lock(); t.unlock(); out(v); q.pop(); }
            }
            else
            {
                std::unique_ptr<Tagged[]> d(new Tagged[n]);
                for (size_t i = 0; i < n; i++) { d[i].key = s[i]; d[i].tag = (int)i + 1; }
                estd::make_heap(d.get(), d.get() + n, ByKey(), k);
                estd::internal::heap<Tagged*, ByKey> h(d.get(), d.get() + n, k, ByKey());
                while (!h.empty()) { out(h.front()); h.pop(); }
            }
            std::sort(tags.begin(), tags.end());
            for (size_t i = 0; i < n; i++) if (tags[i] != (int)i + 1) match = false;
            r = J::arr(); r.add(keys).add(match);
        }
        else return false;
        return true;
    }
    J obs() override { J o = J::obj(); o.set("n", 0).set("e", true).set("t", J::arr()).set("all", J::arr()); return o; }
};
J end_report() { return 0; }
template <size_t N> Obj* mk(const std::string& k)
{
    using namespace estd::layer1;
    if (k == "less") return new P<priority_queue<int, N>, N>;
    if (k == "greater") return new P<priority_queue<int, N, Gt>, N>;
    if (k == "state") return new P<priority_queue<int, N, Near>, N>;
    return nullptr;
}
Obj* make(const J& c)
{
    if (c[0].s == "heap") return new Heap;
    switch (c.n(1)) { case 3: return mk<3>(c[0].s); case 4: return mk<4>(c[0].s); case 6: return mk<6>(c[0].s); case 12: return mk<12>(c[0].s); case 40: return mk<40>(c[0].s); }
    return nullptr;
}
