// Executable form of the contracts of ReadFile / SaveToFile.
// Case: "l SCHEMA MODE SEP EXTRA HEXTEXT" (load any text) or "s SCHEMA MODE SEP n fields..." (save and load)
#include "common.hpp"
#include "tmpdir.hpp"
#include "MVault.h"
using namespace mvlt;
static TmpDir* gT;
typedef std::vector<std::vector<std::string>> Rows;
struct Key { std::string name; int type; bool uniq; };          // types: 0 int 1 string 2 bool 3 int8 4 uint64
static std::string kname(int i) { static const char* n[] = {"id", "na,me", "q\"x\"", "line\nbreak", "last key "}; return n[i]; }
static std::vector<Key> schema(int s)
{
    std::vector<Key> r;
    int n = s % 6;                                   // 0..5 keys
    if (n > 5) n = 5;
    for (int i = 0, x = s / 6; i < n; ++i, x = x * 7 + 3) r.push_back({kname(i), (x + i) % 5, (x / 5) % 3 == 0 && ((x + i) % 5 != 2)});
    return r;
}
static std::string defText(int t) { return t == 0 ? "-3" : t == 1 ? "dflt" : t == 2 ? "false" : t == 3 ? "7" : "18446744073709551615"; }
static void addKeys(Vault& v, const std::vector<Key>& ks)
{
    for (auto& k : ks)
    {
        bool u = k.uniq;
        switch (k.type)
        {
        case 0: if (u) v.AddUniqueKey<int>(k.name); else v.AddKey(k.name, int(-3)); break;
        case 1: if (u) v.AddUniqueKey<std::string>(k.name); else v.AddKey(k.name, std::string("dflt")); break;
        case 2: if (u) v.AddUniqueKey<bool>(k.name); else v.AddKey(k.name, false); break;
        case 3: if (u) v.AddUniqueKey<std::int8_t>(k.name); else v.AddKey(k.name, std::int8_t(7)); break;
        case 4: if (u) v.AddUniqueKey<std::uint64_t>(k.name); else v.AddKey(k.name, std::uint64_t(-1)); break;
        }
    }
}
static std::string uniqDef(int t) { return t == 1 ? "" : t == 2 ? "false" : "0"; }
// text accepted by the type, normal form in out
static bool conv(int t, const std::string& s, std::string& out)
{
    if (t == 1) { out = s; return true; }
    if (t == 2) { if (s != "true" && s != "false") return false; out = s; return true; }
    std::string d = !s.empty() && s[0] == '-' ? s.substr(1) : s;
    if (d.empty() || d.size() > 30) return false;
    for (char c : d) if (c < '0' || c > '9') return false;
    if (s[0] == '-' && t == 4) return false;
    __int128 v = 0; for (char c : d) { v = v * 10 + (c - '0'); if (v > (__int128(1) << 70)) return false; }
    if (s[0] == '-') v = -v;
    __int128 lo = t == 0 ? std::numeric_limits<int>::min() : t == 3 ? -128 : 0, hi = t == 0 ? (__int128)std::numeric_limits<int>::max() : t == 3 ? 127 : (__int128)std::numeric_limits<std::uint64_t>::max();
    if (v < lo || v > hi) return false;
    bool n = v < 0; if (n) v = -v; std::string r; do r = char('0' + int(v % 10)) + r, v /= 10; while (v); out = n ? "-" + r : r;
    return true;
}
static std::string show(const Rows& r) { std::string s; for (auto& x : r) { s += "["; for (auto& f : x) s += "{" + f + "}"; s += "]"; } return s; }
static Rows content(Vault& v, const std::vector<Key>& ks)
{
    Rows r;
    v.GetSortedRecords("", {}); 
    std::vector<VaultRecordRef> refs;
    VaultRecordSet set;
    if (!ks.empty()) refs = v.GetSortedRecords(ks[0].name);
    for (auto& x : refs) { std::vector<std::string> row; for (auto& k : ks) { std::string s; x.GetDataAsString(k.name, s); row.push_back(s); } r.push_back(row); }
    std::sort(r.begin(), r.end());
    return r;
}
static void audit(Vault& v, const std::vector<Key>& ks, const Rows& rows)
{
    // every index knows every record
    EXPECT(v.Size() == rows.size(), "P17", "size " << v.Size() << " instead of " << rows.size());
    for (std::size_t i = 0; i < ks.size(); ++i)
    {
        EXPECT(v.GetSortedRecords(ks[i].name).size() == rows.size(), "P17 P04", "sorting by " << ks[i].name << " gives " << v.GetSortedRecords(ks[i].name).size());
        std::map<std::string, std::size_t> cnt;
        for (auto& r : rows) ++cnt[r[i]];
        for (auto& p : cnt)
        {
            std::size_t n = 0;
            std::vector<VaultRecordRef> out;
            auto get = [&](auto val) { v.GetRecords(ks[i].name, val, out); };
            switch (ks[i].type)
            {
            case 0: get(int(std::stoll(p.first))); break; case 1: get(p.first); break; case 2: get(p.first == "true"); break;
            case 3: get(std::int8_t(std::stoi(p.first))); break; case 4: get(std::uint64_t(std::stoull(p.first))); break;
            }
            n = out.size();
            EXPECT(n == p.second, "P17 P04", "lookup of " << ks[i].name << " = " << p.first << " finds " << n << " instead of " << p.second);
            if (ks[i].uniq) EXPECT(p.second == 1, "P17 P07", "value " << p.first << " of a unique key twice");
        }
    }
}
int main(int argc, char** argv)
{
    TmpDir t; gT = &t;
    CaseHarness c;
    auto field = [](Rng& g, int type) -> std::string {
        static const char* junk[] = {"", "-", "x", "1x", "999999999999999999999999", "-1", "true", "00012", "128", "-129", "4294967296", " 1"};
        if (g.chance(7)) return junk[g(12)];
        switch (type)
        {
        case 0: return std::to_string(g(6) - 2); case 1: { static const char* s[] = {"", "a", "b,c", "q\"", "\n", "\r\nz", "dflt", ";"}; return s[g(8)]; }
        case 2: return g.chance(50) ? "true" : "false"; case 3: return std::to_string(g(8) - 4); default: return g.chance(20) ? "18446744073709551615" : std::to_string(g(6));
        }
    };
    auto quote = [](Rng& g, const std::string& s) {
        if (s.find_first_of("\",\r\n;|") == std::string::npos && g.chance(80)) return s;
        std::string r = "\""; for (char ch : s) { r += ch; if (ch == '"') r += ch; } return r + "\"";
    };
    c.make = [&](Rng& g, long) {
        int sc = g(6 * 40);
        auto ks = schema(sc);
        char sep = ",;|"[g(3)];
        std::string r;
        if (g.chance(35))
        {
            r = "s " + std::to_string(sc) + " " + std::to_string(g(64)) + " " + std::to_string(int(sep)) + " " + std::to_string(g(6));
            int n = g(6);
            for (int i = 0; i < n; ++i) { r += " /"; for (auto& k : ks) { std::string s, o; do s = field(g, k.type); while (!conv(k.type, s, o)); r += " " + hexOf(o); } }
            return r;
        }
        int mode = g(3);                             // 0 header, 1 key order, 2 key list
        int handler = mode == 0 && g.chance(20);
        std::string text;
        auto eol = [&] { text += g.chance(70) ? "\r\n" : g.chance(50) ? "\n" : "\r"; };
        std::vector<int> order;
        for (int i = 0; i < int(ks.size()); ++i) order.push_back(i);
        for (std::size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[std::size_t(g(int(i)))]);
        if (g.chance(30) && !order.empty()) order.pop_back();
        if (g.chance(15)) order.push_back(g(5));     // unknown or repeated key
        if (mode == 1) { order.clear(); for (int i = 0; i < int(ks.size()); ++i) order.push_back(i); }
        std::string extra = mode == 2 ? "k" : handler ? "h" : "-";
        if (mode == 2) for (int i : order) extra += std::to_string(i);
        if (mode == 0) { for (std::size_t i = 0; i < order.size(); ++i) { if (i) text += sep; text += quote(g, kname(order[i])); } eol(); }
        int n = g(7);
        for (int i = 0; i < n; ++i)
        {
            int m = int(order.size());
            if (g.chance(15)) m += g(3) - 1;
            if (g.chance(6)) m = 0;
            for (int j = 0; j < m; ++j)
            {
                if (j) text += sep;
                int ty = j < int(order.size()) && order[std::size_t(j)] < int(ks.size()) ? ks[std::size_t(order[std::size_t(j)])].type : g(5);
                text += quote(g, field(g, ty));
            }
            if (i + 1 < n || g.chance(70)) eol();
        }
        if (g.chance(10) && !text.empty()) text[std::size_t(g(int(text.size())))] = "\",\n\rx"[g(5)];
        return "l " + std::to_string(sc) + " " + std::to_string(mode) + " " + std::to_string(int(sep)) + " " + extra + " " + hexOf(text);
    };
    c.run = [&](const std::string& text) {
        auto w = words(text);
        auto ks = schema(std::stoi(w[1]));
        int mode = std::stoi(w[2]);
        char sep = char(std::stoi(w[3]));
        if (w[0] == "s")
        {
            if (ks.empty()) return;
            std::size_t nk = ks.size();
            Rows rows; std::vector<std::set<std::string>> seen(nk);
            for (std::size_t i = 5; i < w.size();)
            {
                ++i; std::vector<std::string> row;
                for (std::size_t k = 0; k < nk && i < w.size() && w[i] != "/"; ++k) row.push_back(unhex(w[i++]));
                if (row.size() != nk) continue;
                bool dup = false;
                for (std::size_t k = 0; k < nk; ++k) if (ks[k].uniq && seen[k].count(row[k])) dup = true;
                if (dup) continue;
                for (std::size_t k = 0; k < nk; ++k) seen[k].insert(row[k]);
                rows.push_back(row);
            }
            Vault a; addKeys(a, ks);
            for (auto& r : rows)
            {
                std::vector<std::pair<std::string, VaultParamInput>> ps;
                for (std::size_t k = 0; k < nk; ++k)
                    switch (ks[k].type)
                    {
                    case 0: ps.push_back({ks[k].name, int(std::stoll(r[k]))}); break; case 1: ps.push_back({ks[k].name, r[k]}); break; case 2: ps.push_back({ks[k].name, r[k] == "true"}); break;
                    case 3: ps.push_back({ks[k].name, std::int8_t(std::stoi(r[k]))}); break; case 4: ps.push_back({ks[k].name, std::uint64_t(std::stoull(r[k]))}); break;
                    }
                EXPECT(a.CreateRecord(ps).IsOperationSuccess, "P02", "record not created");
            }
            Rows sorted = rows; std::sort(sorted.begin(), sorted.end());
            bool header = mode & 1, list = mode & 2, fromSet = mode & 4;
            std::vector<std::string> keys;
            if (list) for (auto& k : ks) keys.insert(mode & 8 ? keys.end() : keys.begin(), k.name);
            VaultRecordSet set;
            if (fromSet) switch (ks[0].type)
            {
            case 0: a.RequestGreaterOrEqual(ks[0].name, std::numeric_limits<int>::min(), set); break; case 1: a.RequestGreaterOrEqual(ks[0].name, std::string(), set); break;
            case 2: a.RequestGreaterOrEqual(ks[0].name, false, set); break; case 3: a.RequestGreaterOrEqual(ks[0].name, std::int8_t(-128), set); break; case 4: a.RequestGreaterOrEqual(ks[0].name, std::uint64_t(0), set); break;
            }
            std::string f = gT->file(1);
            bool ok = fromSet ? set.SaveToFile(f, keys, std::string(1, sep), header) : a.SaveToFile(f, keys, std::string(1, sep), header);
            EXPECT(ok, "P17", "file not saved");
            Vault b; addKeys(b, ks);
            EXPECT(b.ReadFile(f, sep, header, header ? std::vector<std::string>() : keys), "P17", "file not read");
            auto errs = b.GetErrorsInLastReadedFile();
            EXPECT(errs.empty(), "P17", "saved file has an error in line " << errs[0].first << " key " << errs[0].second << ", file " << hexOf(getFile(f)));
            Rows got = content(b, ks);
            EXPECT(got == sorted, "P17", "saved " << show(sorted) << " loaded " << show(got) << " file " << hexOf(getFile(f)));
            audit(b, ks, got);
            EXPECT(content(a, ks) == sorted, "P17", "saving changed the vault");
            return;
        }
        std::string s = unhex(w[5]);
        putFile(gT->file(0), s);
        Rows file = csvRows(s, sep);
        Vault v; addKeys(v, ks);
        // a record which is there before
        Rows want; std::vector<std::set<std::string>> seen(ks.size());
        auto idx = [&](const std::string& n) { for (std::size_t i = 0; i < ks.size(); ++i) if (ks[i].name == n) return int(i); return -1; };
        std::vector<std::pair<std::size_t, std::vector<std::string>>> werr;      // line, possible keys
        std::vector<std::string> keys, user;
        bool handler = w[4] == "h";
        if (w[4][0] == 'k') for (std::size_t i = 1; i < w[4].size(); ++i) user.push_back(kname(w[4][i] - '0'));
        if (mode == 0) { if (!file.empty()) { keys = file[0]; file.erase(file.begin()); } }
        else if (mode == 1 || user.empty()) for (auto& k : ks) keys.push_back(k.name);
        else keys = user;
        std::size_t line = 0;
        for (auto r : file)
        {
            ++line;
            if (handler && !r.empty()) { if (r.size() > 1) r.pop_back(); else r[0] = "1"; }
            std::vector<std::string> row;
            for (auto& k : ks) row.push_back(k.uniq ? uniqDef(k.type) : defText(k.type));
            bool bound = false, bad = false;
            for (std::size_t i = 0; i < keys.size() && i < r.size() && !bad; ++i)
            {
                int k = idx(keys[i]);
                bound = true;
                if (k < 0 || !conv(ks[std::size_t(k)].type, r[i], row[std::size_t(k)])) { werr.push_back({line + (mode == 0), {keys[i]}}); bad = true; }
            }
            if (bad || !bound) continue;
            std::vector<std::string> dup;
            for (std::size_t k = 0; k < ks.size(); ++k) if (ks[k].uniq && seen[k].count(row[k])) dup.push_back(ks[k].name);
            if (!dup.empty()) { werr.push_back({line, dup}); continue; }
            for (std::size_t k = 0; k < ks.size(); ++k) seen[k].insert(row[k]);
            want.push_back(row);
        }
        std::sort(want.begin(), want.end());
        bool ok;
        if (handler) ok = v.ReadFile(gT->file(0), sep, std::function<void(const std::vector<std::string>&, std::vector<std::string>&)>([](const std::vector<std::string>&, std::vector<std::string>& vals) { if (vals.size() > 1) vals.pop_back(); else if (!vals.empty()) vals[0] = "1"; }));
        else ok = v.ReadFile(gT->file(0), sep, mode == 0, user);
        EXPECT(ok, "P17", "file not read");
        Rows got = content(v, ks);
        EXPECT(got == want, "P17", "records " << show(got) << " instead of " << show(want));
        auto errs = v.GetErrorsInLastReadedFile();
        bool same = errs.size() == werr.size();
        for (std::size_t i = 0; same && i < errs.size(); ++i) same = errs[i].first == werr[i].first && std::count(werr[i].second.begin(), werr[i].second.end(), errs[i].second);
        std::string es; for (auto& e : errs) es += std::to_string(e.first) + ":" + e.second + " ";
        std::string we; for (auto& e : werr) we += std::to_string(e.first) + ":" + e.second[0] + " ";
        EXPECT(same, "P17", "errors " << es << "instead of " << we);
        audit(v, ks, got);
        // rejected rows left nothing: their values can be used now
        EXPECT(!v.ReadFile(gT->path + "/none", sep, true), "P17", "a missing file is read");
        EXPECT(content(v, ks) == want, "P17", "a missing file changed the vault");
    };
    c.shrink = [](const std::string& t) {
        std::vector<std::string> out; auto w = words(t);
        auto j = [&](const std::vector<std::string>& q) { std::string s; for (auto& x : q) s += (s.empty() ? "" : " ") + x; return s; };
        if (w[0] == "l") { for (std::size_t n = 32; n >= 2; n /= 2) for (std::size_t k = 0; k + n <= w[5].size(); k += 2) { auto q = w; q[5].erase(k, n); if (q[5].empty()) q[5] = "-"; out.push_back(j(q)); } }
        else for (std::size_t i = 5; i < w.size(); ++i) if (w[i] == "/") { auto q = w; std::size_t e = i + 1; while (e < q.size() && q[e] != "/") ++e; q.erase(q.begin() + long(i), q.begin() + long(e)); out.push_back(j(q)); }
        return out;
    };
    c.nontrivial = [](const std::string& t) { return t.size() > 30; };
    return caseMain(argc, argv, c);
}
