// Executable form of the JSON contracts. Case: "TYPE v DECIMAL|HEX" for single values, "vault HEX.." for whole vaults
#include "common.hpp"
#include "MVault.h"
using namespace mvlt;
struct Cj { std::string s; bool operator==(const Cj& o) const { return s == o.s; } bool operator<(const Cj& o) const { return s < o.s; } bool operator>(const Cj& o) const { return s > o.s; } };
struct Cn { int v = 0; };
namespace std { template <> struct hash<Cj> { size_t operator()(const Cj& c) const { return hash<string>()(c.s); } }; }
namespace mvlt { template <> std::string ToString(const Cj& c) noexcept { return c.s; } }
// decodes a JSON string literal at s[i]
static std::string lit(const std::string& s, std::size_t& i)
{
    EXPECT(i < s.size() && s[i] == '"', "P21", "no string literal at " << i << " of " << s);
    std::string r;
    for (++i; ; ++i)
    {
        EXPECT(i < s.size(), "P21", "string literal without end in " << s);
        unsigned char ch = (unsigned char)s[i];
        if (ch == '"') { ++i; return r; }
        EXPECT(ch >= 32, "P21", "raw control character " << int(ch) << " in " << s);
        if (ch != '\\') { r += char(ch); continue; }
        ++i;
        EXPECT(i < s.size(), "P21", "escape without end in " << s);
        static const char from[] = "\"\\/bfnrt", to[] = "\"\\/\b\f\n\r\t";
        const char* p = std::strchr(from, s[i]);
        if (p && *p) { r += to[p - from]; continue; }
        EXPECT(s[i] == 'u' && i + 4 < s.size(), "P21", "escape \\" << s[i] << " in " << s);
        int v = 0;
        for (int k = 1; k <= 4; ++k) { char h = s[i + std::size_t(k)]; EXPECT(std::isxdigit((unsigned char)h), "P21", "escape in " << s); v = v * 16 + (h <= '9' ? h - '0' : (h | 32) - 'a' + 10); }
        i += 4;
        EXPECT(v < 128, "P21", "escape of " << v);
        r += char(v);
    }
}
static std::string whole(const std::string& s) { std::size_t i = 0; std::string r = lit(s, i); EXPECT(i == s.size(), "P21", "text after the literal in " << s); return r; }
template <class T> void plain(T v, const std::string& want)
{
    EXPECT(ToJson(v) == want, "P21", "ToJson is " << ToJson(v) << " instead of " << want);
    DataSaver d(v);
    EXPECT(ToJson(d) == want, "P21", "ToJson of the holder is " << ToJson(d) << " instead of " << want);
}
template <class T> void quoted(const T& v, const std::string& want)
{
    EXPECT(whole(ToJson(v)) == want, "P21", "ToJson of " << hexOf(want) << " is " << ToJson(v));
    DataSaver d(v);
    EXPECT(whole(ToJson(d)) == want, "P21", "ToJson of the holder of " << hexOf(want) << " is " << ToJson(d));
}
static void ws(const std::string& s, std::size_t& i) { while (i < s.size() && (s[i] == ' ' || s[i] == '\n')) ++i; }
static void eat(const std::string& s, std::size_t& i, char ch) { ws(s, i); EXPECT(i < s.size() && s[i] == ch, "P21", "no " << ch << " at " << i << " of " << s); ++i; ws(s, i); }
struct Rec { std::vector<std::pair<std::string, std::string>> f; bool operator<(const Rec& o) const { return f < o.f; } bool operator==(const Rec& o) const { return f == o.f; } };
static Rec rec(const std::string& s, std::size_t& i)
{
    Rec r;
    eat(s, i, '{');
    while (i < s.size() && s[i] != '}')
    {
        if (!r.f.empty()) eat(s, i, ',');
        std::string k = lit(s, i);
        eat(s, i, ':');
        std::string v;
        if (s[i] == '"') v = "s:" + lit(s, i); else { v = "n:"; while (i < s.size() && std::strchr(",} \n", s[i]) == nullptr) v += s[i++]; }
        r.f.push_back({k, v});
        ws(s, i);
    }
    eat(s, i, '}');
    return r;
}
int main(int argc, char** argv)
{
    CaseHarness c;
    auto str = [](Rng& g) { std::string s; int n = g(8); for (int i = 0; i < n; ++i) { int w = g(6); s += w == 0 ? '"' : w == 1 ? '\\' : w == 2 ? char(g(32)) : w == 3 ? char(g(256)) : "az/u,"[g(5)]; } return s; };
    c.make = [&](Rng& g, long) {
        static const char* ty[] = {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "b", "f", "s", "s", "c", "c", "x", "vault", "vault", "vault"};
        std::string t = ty[g(18)];
        if (t == "vault")
        {
            std::string r = t; int k = 1 + g(3), n = g(3);
            r += " " + std::to_string(k) + " " + std::to_string(g(64));
            for (int i = 0; i < k + n * k; ++i) r += " " + hexOf(str(g));
            return r;
        }
        if (t == "s" || t == "c") return t + " v " + hexOf(str(g));
        return t + " v " + std::to_string((long long)(g.next() >> g(64)) * (g.chance(50) ? 1 : -1));
    };
    c.run = [&](const std::string& text) {
        auto w = words(text);
        if (w[0] == "vault")
        {
            int k = std::stoi(w[1]), fl = std::stoi(w[2]);
            Vault v;
            std::vector<std::string> keys;
            std::size_t at = 3;
            for (int i = 0; i < k; ++i) { std::string key = unhex(w[at++]) + std::to_string(i); keys.push_back(key); if (i % 3 == 1) v.AddKey(key, 7); else if (i % 3 == 0) v.AddKey(key, std::string()); else v.AddKey(key, Cj()); }
            std::vector<Rec> want;
            std::vector<VaultRecordRef> refs;
            for (; at < w.size(); )
            {
                Rec r; VaultRecordRef ref;
                v.CreateRecord(ref, {});
                for (int i = 0; i < k; ++i)
                {
                    std::string s = unhex(w[at++]);
                    if (i % 3 == 1) { ref.SetData(keys[std::size_t(i)], int(s.size())); r.f.push_back({keys[std::size_t(i)], "n:" + std::to_string(s.size())}); }
                    else { if (i % 3 == 0) ref.SetData(keys[std::size_t(i)], s); else ref.SetData(keys[std::size_t(i)], Cj{s}); r.f.push_back({keys[std::size_t(i)], "s:" + s}); }
                }
                std::string j = ref.ToJson(fl & 1, std::size_t(fl % 3));
                std::size_t p = 0;
                EXPECT(rec(j, p) == r, "P21", "json of a record: " << j);
                EXPECT(p == j.size(), "P21", "text after " << j);
                want.push_back(r);
                refs.push_back(ref);
            }
            VaultRecordSet set;
            v.RequestGreaterOrEqual(keys[0], std::string(), set);
            for (int pass = 0; pass < 2; ++pass)
            {
                
                bool arr = fl & 8;
                std::string j = pass == 0 ? v.ToJson(fl & 1, std::size_t(fl % 3), fl & 4, "Rec", arr) : set.ToJson(fl & 1, std::size_t(fl % 3), fl & 4, "Rec", arr);
                std::size_t p = 0;
                std::vector<Rec> got; std::set<std::string> names;
                eat(j, p, arr ? '[' : '{');
                while (p < j.size() && j[p] != (arr ? ']' : '}'))
                {
                    if (!got.empty()) eat(j, p, ',');
                    if (!arr) { EXPECT(names.insert(lit(j, p)).second, "P21", "a record name comes twice in " << j); eat(j, p, ':'); }
                    got.push_back(rec(j, p));
                }
                eat(j, p, arr ? ']' : '}');
                EXPECT(p == j.size(), "P21", "text after " << j);
                auto a = got, b = want; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
                EXPECT(a == b, "P21", "json of the vault: " << j);
            }
            return;
        }
        std::string a = w[2];
        if (w[0] == "s") { std::string s = unhex(a); quoted(s, s); return; }
        if (w[0] == "c") { quoted(Cj{unhex(a)}, unhex(a)); return; }
        if (w[0] == "x") { quoted(Cn(), ""); quoted('x', ToString('x')); return; }
        long long v = std::stoll(a);
        if (w[0] == "i8") plain(std::int8_t(v), std::to_string(int(std::int8_t(v)))); if (w[0] == "u8") plain(std::uint8_t(v), std::to_string(unsigned(std::uint8_t(v))));
        if (w[0] == "i16") plain(std::int16_t(v), std::to_string(std::int16_t(v))); if (w[0] == "u16") plain(std::uint16_t(v), std::to_string(std::uint16_t(v)));
        if (w[0] == "i32") plain(std::int32_t(v), std::to_string(std::int32_t(v))); if (w[0] == "u32") plain(std::uint32_t(v), std::to_string(std::uint32_t(v)));
        if (w[0] == "i64") plain(std::int64_t(v), std::to_string(std::int64_t(v))); if (w[0] == "u64") plain(std::uint64_t(v), std::to_string(std::uint64_t(v)));
        if (w[0] == "b") plain(bool(v & 1), v & 1 ? "true" : "false");
        if (w[0] == "f") { plain(float(v), std::to_string(float(v))); plain(double(v) / 8, std::to_string(double(v) / 8)); }
    };
    c.nontrivial = [](const std::string& t) { return t.size() > 8; };
    return caseMain(argc, argv, c);
}
