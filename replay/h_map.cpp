// Executable form of the Map.h contracts: Map and UnorderedMap in both modes against the standard containers.
#include "common.hpp"
#include "Map.h"
using namespace mvlt;

struct Op { int k, a, b; };
static std::vector<Op> dec(const std::string& t, int& mode)
{
    std::vector<Op> r;
    std::stringstream ss(t);
    std::string x;
    std::getline(ss, x, ';');
    mode = std::atoi(x.c_str());
    while (std::getline(ss, x, ';')) { Op o{0, 0, 0}; std::sscanf(x.c_str(), "%d,%d,%d", &o.k, &o.a, &o.b); r.push_back(o); }
    return r;
}
static std::string enc(int mode, const std::vector<Op>& h)
{
    std::string r = std::to_string(mode) + ";";
    for (auto& o : h) r += std::to_string(o.k) + "," + std::to_string(o.a) + "," + std::to_string(o.b) + ";";
    return r;
}
typedef std::string K;
static K key(int a) { return a == 0 ? "" : "key_with_a_long_name_" + std::to_string(a); }
typedef std::vector<std::pair<K, int>> L;
static std::string show(const L& l) { std::string r; for (auto& p : l) r += "(" + p.first + "," + std::to_string(p.second) + ")"; return r; }
#define CHK(cond_, m) EXPECT(cond_, "P22", "op " << o.k << "," << o.a << "," << o.b << ": " << m)

template <class M, bool Ordered> struct Run
{
    template <class It> static L range(M&, It f, It l) { L r; for (; f != l; ++f) r.push_back(*f); return r; }
    static void bounds(Map<K, int>& m, const L& all, const Op& o, const K& k)
    {
        L lo, up;
        for (auto& p : all) { if (!(p.first < k)) lo.push_back(p); if (k < p.first) up.push_back(p); }
        CHK(range(m, m.LowerBound(k), m.end()) == lo, "lower bound");
        CHK(range(m, m.UpperBound(k), m.end()) == up, "upper bound");
        L back(all.rbegin(), all.rend());
        CHK(range(m, m.Rbegin(), m.Rend()) == back, "reverse iteration");
        if (!all.empty())
        {
            auto r = m.Rbegin(); ++r; --r;
            CHK(*r == all.back(), "reverse step back");
            auto e = m.end(); --e;
            CHK(*e == all.back(), "step back from the end");
        }
    }
    static void bounds(UnorderedMap<K, int>&, const L&, const Op&, const K&) {}
    static void run(bool multi, const std::vector<Op>& h)
    {
        M m(multi);
        L model;                                  // ordered: in order; hashed: any order
        auto norm = [](L l) { std::sort(l.begin(), l.end()); return l; };
        for (auto& o : h)
        {
            K k = key(o.a);
            CHK(m.IsMultiContainer() == multi, "mode");
            auto find = [&]() { return std::find_if(model.begin(), model.end(), [&](const std::pair<K, int>& p) { return p.first == k; }); };
            switch (o.k)
            {
            case 0: case 6: {
                auto it = find();
                bool had = it != model.end();
                K kk = k; int vv = o.b;
                auto r = o.k == 0 ? m.Emplace(k, o.b) : m.Emplace(std::move(kk), std::move(vv));
                CHK(r.second == (multi || !had), "Emplace reported " << r.second);
                int want = (!multi && had) ? it->second : o.b;
                if (multi || !had)
                {
                    auto pos = Ordered ? std::find_if(model.begin(), model.end(), [&](const std::pair<K, int>& p) { return k < p.first; }) : model.end();
                    model.insert(pos, {k, o.b});
                }
                CHK(r.first != m.end() && (*r.first).first == k && (*r.first).second == want, "iterator of Emplace");
                break; }
            case 1: {
                std::size_t n = std::size_t(std::count_if(model.begin(), model.end(), [&](const std::pair<K, int>& p) { return p.first == k; }));
                std::size_t r = m.Erase(k);
                CHK(r == n, "Erase by key reported " << r << " instead of " << n);
                model.erase(std::remove_if(model.begin(), model.end(), [&](const std::pair<K, int>& p) { return p.first == k; }), model.end());
                break; }
            case 2: {
                if (model.empty()) break;
                auto it = o.b % 2 ? m.begin() : m.Begin();
                std::size_t at = std::size_t(o.a + o.b) % model.size();
                for (std::size_t i = at; i > 0; --i) ++it;
                std::pair<K, int> v = *it;
                auto nx = it; ++nx;
                bool last = nx == m.end();
                std::pair<K, int> nv; if (!last) nv = *nx;
                auto r = m.Erase(it);
                CHK((r == m.end()) == last && (last || *r == nv), "iterator of Erase");
                auto f = std::find(model.begin(), model.end(), v);
                CHK(f != model.end(), "iteration gave an element which is not there");
                model.erase(Ordered ? model.begin() + long(at) : f);
                break; }
            case 3: {
                auto it = m.Find(k);
                bool had = find() != model.end();
                CHK((it != m.end()) == had && (it == m.End()) == !had, "Find");
                if (had)
                {
                    std::pair<K, int> v = *it;
                    CHK(v.first == k && std::find(model.begin(), model.end(), v) != model.end(), "Find gave " << v.first << "," << v.second);
                }
                break; }
            case 4: m.Clear(); model.clear(); break;
            case 5: {
                auto a = m.begin(); decltype(a) b; b = a; decltype(a) c(b), d(std::move(c)); b = std::move(d); auto& bb = b; b = bb;
                CHK(b == m.begin() && !(b != m.begin()), "copies of an iterator");
                break; }
            }
            // audit
            L all = range(m, m.begin(), m.end());
            CHK(norm(all) == norm(model), "content " << show(norm(all)) << " instead of " << show(norm(model)));
            if (Ordered)
            {
                CHK(std::is_sorted(all.begin(), all.end(), [](const std::pair<K, int>& x, const std::pair<K, int>& y) { return x.first < y.first; }), "order");
                CHK(all == model, "order of equal keys");
            }
            CHK(range(m, m.Begin(), m.End()) == all, "Begin/End");
            CHK(m.Size() == model.size(), "Size " << m.Size());
            for (int i = 0; i < 6; ++i)
            {
                auto r = m.EqualRange(key(i));
                L want;
                for (auto& p : model) if (p.first == key(i)) want.push_back(p);
                CHK(norm(range(m, r.first, r.second)) == norm(want), "EqualRange of " << key(i));
                bounds(m, all, o, key(i));
            }
        }
    }
};
int main(int argc, char** argv)
{
    CaseHarness c;
    c.make = [](Rng& g, long) {
        std::vector<Op> h;
        int n = 1 + g(30), dom = 2 + g(4);
        for (int i = 0; i < n; ++i) { int w = g(100); h.push_back({w < 40 ? 0 : w < 50 ? 6 : w < 65 ? 1 : w < 80 ? 2 : w < 92 ? 3 : w < 95 ? 4 : 5, g(dom), g(5)}); }
        return enc(g(4), h);
    };
    c.run = [](const std::string& t) {
        int mode; auto h = dec(t, mode);
        if (mode & 2) Run<Map<K, int>, true>::run(mode & 1, h); else Run<UnorderedMap<K, int>, false>::run(mode & 1, h);
    };
    c.shrink = [](const std::string& t) {
        std::vector<std::string> out; int mode; auto h = dec(t, mode);
        for (std::size_t i = 0; i < h.size(); ++i) { auto q = h; q.erase(q.begin() + long(i)); out.push_back(enc(mode, q)); }
        return out;
    };
    c.nontrivial = [](const std::string& t) { int m; return dec(t, m).size() > 3; };
    return caseMain(argc, argv, c);
}
