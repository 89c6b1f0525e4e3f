// Executable form of the FromString / ToString contracts. Case: "TYPE v DECIMAL" (round trip) or "TYPE t HEX" (any text)
#include "common.hpp"
#include "Strings/FromString.h"
#include "Strings/ToString.h"
#include <cmath>
using namespace mvlt;
typedef __int128 I;
static std::string dec(I v) { if (v == 0) return "0"; bool n = v < 0; std::string s; while (v != 0) { int d = int(v % 10); s = char('0' + (d < 0 ? -d : d)) + s; v /= 10; } return n ? "-" + s : s; }
static I und(const std::string& s) { I v = 0; bool n = s[0] == '-'; for (std::size_t i = n; i < s.size(); ++i) v = v * 10 + (s[i] - '0'); return n ? -v : v; }
// value of a text as a number: -?[0-9]+
static bool number(const std::string& s, bool& neg, std::string& digits)
{
    neg = !s.empty() && s[0] == '-';
    digits = s.substr(neg);
    if (digits.empty()) return false;
    for (char ch : digits) if (ch < '0' || ch > '9') return false;
    digits.erase(0, std::min(digits.find_first_not_of('0'), digits.size() - 1));
    return true;
}
template <class T> void one(const std::string& kind, const std::string& arg)
{
    const I lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    if (kind == "v")
    {
        T v = T(und(arg)), out = T(~v);
        std::string s = ToString(v);
        EXPECT(s == arg, "P18", "ToString of " << arg << " is " << s);
        bool ok = FromString(s, out);
        EXPECT(ok && out == v, "P18", "FromString of " << s << " is " << dec(out) << " reported " << ok);
        return;
    }
    std::string s = unhex(arg), d;
    bool neg, num = number(s, neg, d);
    for (T start : {T(0), T(77), std::numeric_limits<T>::max(), std::numeric_limits<T>::min()})
    {
        T out = start;
        bool ok = FromString(s, out);
        bool can = num && d.size() < 25;
        I v = 0;
        if (can) { v = und(d); if (neg) v = -v; can = v >= lo && v <= hi && !(neg && lo == 0); }
        EXPECT(ok == can, "P18", "FromString of '" << s << "' reported " << ok);
        EXPECT(out == (can ? T(v) : start), "P18", "FromString of '" << s << "' gave " << dec(out));
    }
}
int main(int argc, char** argv)
{
    CaseHarness c;
    static const char* types[] = {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "b", "s", "f", "d"};
    c.make = [&](Rng& g, long n) {
        int t = g(12);
        static const int bits[] = {8, 8, 16, 16, 32, 32, 64, 64};
        std::string ty = types[t];
        if (t < 8)
        {
            bool sg = t % 2 == 0; int b = bits[t];
            I hi = sg ? ((I(1) << (b - 1)) - 1) : ((I(1) << b) - 1), lo = sg ? -(I(1) << (b - 1)) : 0;
            int w = g(4);
            I v = w == 0 ? hi - g(12) : w == 1 ? lo + g(12) : lo + I(g.next() >> g(64)) % (hi - lo + 1);
            if (g.chance(25)) return ty + " v " + dec(v);
            std::string s;
            switch (g(6))
            {
            case 0: s = dec(hi + g(40) - 15); break;
            case 1: s = dec(lo - g(40) + 15); break;
            case 2: s = dec(hi * (1 + g(12)) + g(300)); if (g.chance(30)) s = "-" + s; break;
            case 3: s = std::string(g(3), '0') + dec(v); break;
            case 4: s = dec(v); s.insert(std::size_t(g(int(s.size()) + 1)), 1, "-+ .x\0/:"[g(8)]); break;
            default: { int m = g(6); for (int i = 0; i < m; ++i) s += g.chance(70) ? char('0' + g(10)) : g.chance(50) ? '-' : char(g(256)); }
            }
            if (n < 16) s = n < 8 ? "" : "-";
            return ty + " t " + hexOf(s);
        }
        std::string s; int m = g(10);
        static const char* bs[] = {"true", "false", "True", "truee", "tru", "", "0", "1", "fals", "false ", " true"};
        if (t == 8) s = g.chance(80) ? bs[g(11)] : std::string(1, char(g(256)));
        else if (t == 9) for (int i = 0; i < m; ++i) s += char(g(256));
        else { m = g.chance(10) ? 60 : m; for (int i = 0; i < m; ++i) s += g.chance(85) ? char('0' + g(10)) : g.chance(60) ? '.' : g.chance(50) ? '-' : char(g(256)); }
        return ty + " t " + hexOf(s);
    };
    c.run = [&](const std::string& text) {
        auto w = words(text);
        if (w[0] == "i8") one<std::int8_t>(w[1], w[2]); else if (w[0] == "u8") one<std::uint8_t>(w[1], w[2]);
        else if (w[0] == "i16") one<std::int16_t>(w[1], w[2]); else if (w[0] == "u16") one<std::uint16_t>(w[1], w[2]);
        else if (w[0] == "i32") one<std::int32_t>(w[1], w[2]); else if (w[0] == "u32") one<std::uint32_t>(w[1], w[2]);
        else if (w[0] == "i64") one<std::int64_t>(w[1], w[2]); else if (w[0] == "u64") one<std::uint64_t>(w[1], w[2]);
        else if (w[0] == "b")
        {
            std::string s = unhex(w[2]);
            for (bool start : {true, false})
            {
                bool out = start, ok = FromString(s, out), can = s == "true" || s == "false";
                EXPECT(ok == can && out == (can ? s == "true" : start), "P18", "FromString<bool> of '" << s << "' gave " << out << " reported " << ok);
                bool b2 = !start;
                EXPECT(ToString(start) == (start ? "true" : "false") && FromString(ToString(start), b2) && b2 == start, "P18", "round trip of a bool");
            }
        }
        else if (w[0] == "s")
        {
            std::string s = unhex(w[2]), out = "old";
            EXPECT(ToString(s) == s && FromString(s, out) && out == s, "P18", "round trip of a string");
        }
        else
        {
            std::string s = unhex(w[2]);
            float f = 7; double d = 7;
            // refused text leaves the target; accepted text is digits with at most one point
            std::string u = !s.empty() && s[0] == '-' ? s.substr(1) : s;
            bool bad = u.empty() || u.find_first_not_of("0123456789.") != std::string::npos || std::count(u.begin(), u.end(), '.') > 1;
            bool okf = FromString(s, f), okd = FromString(s, d);
            if (bad) EXPECT(!okf && !okd && f == 7 && d == 7, "P18", "'" << s << "' was read as a number");
            if (!bad && u != ".") EXPECT(okf && okd, "P18", "'" << s << "' was refused");
        }
    };
    c.shrink = [](const std::string& t) {
        std::vector<std::string> out; auto w = words(t);
        if (w[1] == "t" && w[2] != "-") for (std::size_t k = 0; k + 1 < w[2].size(); k += 2) { std::string q = w[2]; q.erase(k, 2); out.push_back(w[0] + " t " + (q.empty() ? "-" : q)); }
        return out;
    };
    c.nontrivial = [](const std::string& t) { return t.size() > 5; };
    return caseMain(argc, argv, c);
}
