// Executable form of the DataSaver / DataContainer contracts, with counted instances.
#include "common.hpp"
#include "DataSaver.h"
#include "DataContainer.h"
using namespace mvlt;

static std::set<const void*> gLive;
static long gBad = 0;
template <int N> struct Val
{
    int v;
    Val(int x = 0) : v(x) { gLive.insert(this); }
    Val(const Val& o) : v(o.v) { if (!gLive.count(&o)) ++gBad; gLive.insert(this); }
    Val& operator=(const Val& o) { if (!gLive.count(&o) || !gLive.count(this)) ++gBad; v = o.v; return *this; }
    ~Val() { if (!gLive.erase(this)) ++gBad; v = -1; }
};
typedef Val<0> A; typedef Val<1> B;
namespace mvlt {
template <> std::string ToString(const A& a) noexcept { return "A" + std::to_string(a.v); }
template <> std::string ToString(const B& a) noexcept { return "B" + std::to_string(a.v); }
template <> bool FromString(const std::string& s, A& a) noexcept { if (s.empty() || s[0] != 'A') return false; a.v = std::atoi(s.c_str() + 1); return true; }
}
static std::vector<int> gCustom;                 // values the custom deleter saw
static void customA(const void* p) { gCustom.push_back(static_cast<const A*>(p)->v); }
static void customB(const void* p) { gCustom.push_back(100 + static_cast<const B*>(p)->v); }

struct MV { int t = -1, v = 0; bool cust = false; bool operator==(const MV& o) const { return t == o.t && (t < 0 || v == o.v); } };  // t: -1 none, 0 A, 1 B, 2 string
static std::string S(int v) { return v == 0 ? "" : "A" + std::to_string(v); }
static const int NS = 4;
struct Op { int k, a, b, c; };
#define CHK(cond_, m) EXPECT(cond_, "P14", "op " << o.k << "," << o.a << "," << o.b << "," << o.c << ": " << m)
static std::string str(const MV& m) { return m.t == 0 ? "A" + std::to_string(m.v) : m.t == 1 ? "B" + std::to_string(m.v) : S(m.v); }

static void checkHolder(const DataSaver& d, const MV& m, const Op& o, const std::string& where)
{
    std::type_index want = m.t < 0 ? std::type_index(typeid(void)) : m.t == 0 ? typeid(A) : m.t == 1 ? typeid(B) : std::type_index(typeid(std::string));
    CHK(d.GetDataType() == want, where << ": type " << d.GetDataType().name());
    A a(-7); B b(-7); std::string s = "untouched";
    bool ra = d.GetData(a), rb = d.GetData(b), rs = d.GetData(s);
    CHK(ra == (m.t == 0) && rb == (m.t == 1) && rs == (m.t == 2), where << ": GetData reported " << ra << rb << rs);
    CHK(a.v == (m.t == 0 ? m.v : -7) && b.v == (m.t == 1 ? m.v : -7) && s == (m.t == 2 ? S(m.v) : "untouched"), where << ": GetData gave A" << a.v << " B" << b.v << " '" << s << "'");
    if (m.t >= 0) CHK(d.Str() == str(m), where << ": Str " << d.Str());
}
template <class C> static bool multi() { return false; }
template <> bool multi<DataMultiHashMap>() { return true; }
template <> bool multi<DataMultiMap>() { return true; }
template <class C> static void setAny(C& c, const std::string& k, int t, int v)
{
    if (t == 0) c.SetData(k, A(v)); else if (t == 1) c.SetData(k, B(v)); else if (t == 2) c.SetData(k, S(v));
    else c.SetData(k, A(v), customA);
}
template <class C> static void addAny(C& c, const std::string& k, int t, int v)
{
    if (t == 0) c.AddData(k, A(v)); else if (t == 1) c.AddData(k, B(v)); else if (t == 2) c.AddData(k, S(v));
    else c.AddData(k, A(v), customA);
}
static std::string key(int a) { return a == 0 ? "" : "k" + std::to_string(a); }

template <class C> struct Run
{
    static const int NK = 4;
    std::vector<std::pair<int, MV>> m;           // in insertion order
    bool mul = multi<C>();
    std::vector<std::size_t> idx(int k) { std::vector<std::size_t> r; for (std::size_t i = 0; i < m.size(); ++i) if (m[i].first == k) r.push_back(i); return r; }
    // a multi container may pick any element of the key: find the one which changed
    void run(const std::vector<Op>& h)
    {
        std::unique_ptr<C> c(new C);
        std::unique_ptr<DataSaver> s[NS];
        MV ms[NS];
        for (auto& x : s) x.reset(new DataSaver);
        for (auto& o : h)
        {
            gCustom.clear();
            std::vector<int> wantCustom;
            int a = o.a % NS, b = o.b % NS, v = o.c % 5, k = o.a % NK;
            auto cust = [&](MV& x) { if (x.t >= 0 && x.cust) { wantCustom.push_back(x.v); } };
            switch (o.k)
            {
            case 0: s[a]->SetData(A(v)); ms[a] = MV{0, v, false}; break;
            case 1: s[a]->SetData(B(v)); ms[a] = MV{1, v, false}; break;
            case 2: s[a]->SetData(S(v)); ms[a] = MV{2, v, false}; break;
            case 3: s[a]->SetData(A(v), customA); ms[a] = MV{0, v, true}; break;
            case 4: *s[a] = *s[b]; ms[a] = ms[b]; break;
            case 5: s[a].reset(new DataSaver(*s[b == a ? (a + 1) % NS : b])); ms[a] = ms[b == a ? (a + 1) % NS : b]; break;
            case 6: s[a]->ResetData(); cust(ms[a]); ms[a] = MV(); break;
            case 7: s[a]->Swap(*s[b]); std::swap(ms[a], ms[b]); break;
            case 8: s[a].reset(new DataSaver(A(v))); ms[a] = MV{0, v, false}; break;
            case 9: s[a].reset(new DataSaver(B(v), [](const void* p) { customB(p); })); ms[a] = MV{1, v, false}; ms[a].cust = true; ms[a].v = v; break;
            case 10: {
                if (ms[a].t < 0) break;
                bool r = s[a]->SetDataFromString(o.b % 3 ? S(v) : "x");
                bool can = ms[a].t == 2 || (ms[a].t == 0 && o.b % 3 && v > 0);
                CHK(r == can, "SetDataFromString reported " << r);
                if (r) { ms[a].v = v; if (ms[a].t == 2 && !(o.b % 3)) { s[a]->SetData(S(v)); ms[a].cust = false; } }
                break; }
            // containers
            case 11: case 12: {
                auto ix = idx(k); int t = o.b % 4;
                MV nv{t == 3 ? 0 : t, v, t == 3};
                if (o.k == 12 || ix.empty()) { if (o.k == 12) addAny(*c, key(k), t, v); else setAny(*c, key(k), t, v); if (mul || ix.empty()) m.push_back({k, nv}); }
                else if (ix.size() == 1) { setAny(*c, key(k), t, v); m[ix[0]].second = nv; }
                break; }
            case 13: {
                auto ix = idx(k);
                if (ms[b].cust) break;
                if (ix.empty()) { c->SetDataFromDataSaver(key(k), *s[b]); m.push_back({k, ms[b]}); }
                else if (ix.size() == 1) { c->SetDataFromDataSaver(key(k), *s[b]); m[ix[0]].second = ms[b]; }
                break; }
            case 14: {
                if (ms[b].cust) break;
                c->AddDataFromDataSaver(key(k), *s[b]);
                if (mul || idx(k).empty()) m.push_back({k, ms[b]});
                break; }
            case 15: {
                auto ix = idx(k);
                if (ix.size() > 1) break;
                c->EraseData(key(k));
                if (!ix.empty()) { cust(m[ix[0]].second); m.erase(m.begin() + long(ix[0])); }
                break; }
            case 16: if (o.b % 4 == 0) { c->Clear(); m.clear(); } break;
            case 17: {
                auto ix = idx(k);
                if (ix.size() > 1) break;
                DataSaver out(A(77));
                bool r = c->GetDataSaver(key(k), out);
                CHK(r == !ix.empty(), "GetDataSaver reported " << r);
                checkHolder(out, r ? m[ix[0]].second : MV{0, 77, false}, o, "GetDataSaver");
                std::string st = "untouched";
                if (ix.empty() || m[ix[0]].second.t >= 0)
                {
                    bool r2 = c->GetDataAsString(key(k), st);
                    CHK(r2 == !ix.empty() && st == (r2 ? str(m[ix[0]].second) : "untouched"), "GetDataAsString gave " << st);
                }
                break; }
            case 18: {
                auto ix = idx(k);
                if (ix.size() > 1 || (!ix.empty() && m[ix[0]].second.t < 0)) break;
                bool r = c->SetDataFromString(key(k), S(v));
                bool can = !ix.empty() && (m[ix[0]].second.t == 2 || (m[ix[0]].second.t == 0 && v > 0));
                CHK(r == can, "SetDataFromString reported " << r);
                if (r) m[ix[0]].second.v = v;
                break; }
            case 19: {
                C copy(*c);
                if (o.b % 2) { C other; addAny(other, "zz", 0, 1); other = *c; *c = other; }
                copy.SetData(key(k), B(1234));
                copy.Clear();
                break; }
            }
            auto sc = gCustom; std::sort(sc.begin(), sc.end());
            (void)sc;
            CHK(gCustom.size() == wantCustom.size(), "custom deleter ran " << gCustom.size() << " times instead of " << wantCustom.size());
            if (!gCustom.empty()) CHK(gCustom[0] % 100 == wantCustom[0], "custom deleter saw " << gCustom[0]);
            // audit
            for (int i = 0; i < NS; ++i) checkHolder(*s[i], ms[i], o, "holder " + std::to_string(i));
            CHK(c->Size() == m.size(), "Size " << c->Size());
            std::vector<std::pair<std::string, const DataSaver*>> all;
            for (auto it = c->begin(); it != c->end(); ++it) all.push_back({it->first, &it->second});
            std::size_t cn = 0;
            for (auto it = c->cbegin(); it != c->cend(); ++it) ++cn;
            CHK(all.size() == m.size() && cn == all.size(), "iteration visits " << all.size());
            for (int i = 0; i < NK; ++i)
            {
                auto ix = idx(i);
                CHK(c->IsData(key(i)) == !ix.empty(), "IsData of " << key(i));
                std::vector<const DataSaver*> mine;
                for (auto& p : all) if (p.first == key(i)) mine.push_back(p.second);
                CHK(mine.size() == ix.size(), "elements of " << key(i));
                std::vector<bool> used(mine.size());
                for (std::size_t j : ix)
                {
                    bool ok = false;
                    for (std::size_t q = 0; q < mine.size() && !ok; ++q)
                        if (!used[q]) { try { checkHolder(*mine[q], m[j].second, o, ""); used[q] = true; ok = true; } catch (const Mismatch&) { if (mine.size() == 1) throw; } }
                    CHK(ok, "content of " << key(i));
                }
                if (ix.size() == 1)
                {
                    MV x = m[ix[0]].second;
                    A va(-5);
                    bool r = c->GetData(key(i), va);
                    CHK(r && va.v == (x.t == 0 ? x.v : -5), "GetData of " << key(i));
                }
                if (ix.empty()) { B vb(-5); CHK(!c->GetData(key(i), vb) && vb.v == -5, "GetData of a missing key"); }
            }
            CHK(gBad == 0, "a value was used or destroyed after its end of life");
            // live values: holders and container
            std::size_t want = 0;
            for (auto& x : ms) want += x.t == 0 || x.t == 1;
            for (auto& p : m) want += p.second.t == 0 || p.second.t == 1;
            CHK(gLive.size() == want, gLive.size() << " live values instead of " << want);
        }
        c.reset();
        for (auto& x : s) x.reset();
        Op o{-1, 0, 0, 0};
        CHK(gLive.empty() && gBad == 0, "values live at the end: " << gLive.size());
    }
};
static std::vector<Op> dec(const std::string& t, int& mode)
{
    std::vector<Op> r; std::stringstream ss(t); std::string x;
    std::getline(ss, x, ';'); mode = std::atoi(x.c_str());
    while (std::getline(ss, x, ';')) { Op o{0, 0, 0, 0}; std::sscanf(x.c_str(), "%d,%d,%d,%d", &o.k, &o.a, &o.b, &o.c); r.push_back(o); }
    return r;
}
static std::string enc(int mode, const std::vector<Op>& h)
{
    std::string r = std::to_string(mode) + ";";
    for (auto& o : h) r += std::to_string(o.k) + "," + std::to_string(o.a) + "," + std::to_string(o.b) + "," + std::to_string(o.c) + ";";
    return r;
}
int main(int argc, char** argv)
{
    CaseHarness c;
    c.make = [](Rng& g, long) {
        std::vector<Op> h; int n = 1 + g(30);
        for (int i = 0; i < n; ++i) h.push_back({g(20), g(100), g(100), g(100)});
        return enc(g(4), h);
    };
    c.run = [](const std::string& t) {
        int mode; auto h = dec(t, mode);
        gLive.clear(); gBad = 0;
        std::cerr.setstate(std::ios::failbit);
        if (mode == 0) Run<DataHashMap>().run(h); else if (mode == 1) Run<DataMap>().run(h); else if (mode == 2) Run<DataMultiHashMap>().run(h); else Run<DataMultiMap>().run(h);
    };
    c.shrink = [](const std::string& t) {
        std::vector<std::string> out; int mode; auto h = dec(t, mode);
        for (std::size_t i = 0; i < h.size(); ++i) { auto q = h; q.erase(q.begin() + long(i)); out.push_back(enc(mode, q)); }
        return out;
    };
    c.nontrivial = [](const std::string& t) { int m; return dec(t, m).size() > 3; };
    return caseMain(argc, argv, c);
}
