// Executable form of the Uuid contracts. The random source is replaced: its draws come from the case.
#include "common.hpp"
#include <random>
static std::vector<unsigned> gDraws; static std::size_t gAt = 0; static Rng gR(1);
unsigned int std::random_device::_M_getval() { return gAt < gDraws.size() ? gDraws[gAt++] : unsigned(gR.next()); }
#include "Uuid/Uuid.h"
using namespace mvlt;
static void form(const std::string& u)
{
    EXPECT(u.size() == 36, "P20", "'" << u << "' has " << u.size() << " characters");
    for (std::size_t i = 0; i < 36; ++i)
    {
        bool dash = i == 8 || i == 13 || i == 18 || i == 23;
        char ch = u[i];
        EXPECT(dash ? ch == '-' : ((ch >= '0' && ch <= '9') || (ch >= 'a' && ch <= 'f')), "P20", "'" << u << "' at " << i);
    }
    EXPECT(u[14] == '4', "P20", "'" << u << "': version digit " << u[14]);
    EXPECT(std::string("89ab").find(u[19]) != std::string::npos, "P20", "'" << u << "': variant digit " << u[19]);
}
int main(int argc, char** argv)
{
    CaseHarness c;
    c.make = [](Rng& g, long n) {
        if (n == 0) return std::string("spread");
        std::string r = g.chance(30) ? "h" : "u";
        for (int i = 0; i < 4; ++i)
        {
            unsigned v; int w = g(5);
            v = w == 0 ? 0u : w == 1 ? ~0u : w == 2 ? 1u << g(32) : w == 3 ? ~(1u << g(32)) : unsigned(g.next());
            r += " " + std::to_string(v);
        }
        return r;
    };
    c.run = [](const std::string& t) {
        auto w = words(t);
        if (w[0] == "spread")
        {
            // over many draws every free digit takes many values and no identifier comes twice
            std::set<std::string> seen; std::set<char> at[36];
            for (int i = 0; i < 4000; ++i) { std::string u = Uuid(); form(u); EXPECT(seen.insert(u).second, "P20", "'" << u << "' was generated twice"); for (int k = 0; k < 36; ++k) at[k].insert(u[std::size_t(k)]); }
            for (int k = 0; k < 36; ++k)
            {
                std::size_t want = k == 8 || k == 13 || k == 18 || k == 23 || k == 14 ? 1 : k == 19 ? 4 : 16;
                EXPECT(at[k].size() == want, "P20", "digit " << k << " takes " << at[k].size() << " values instead of " << want);
            }
            return;
        }
        std::vector<unsigned> d;
        for (std::size_t i = 1; i < w.size(); ++i) d.push_back(unsigned(std::stoul(w[i])));
        if (w[0] == "h")
        {
            std::uint64_t v = (std::uint64_t(d[0]) << 32) | d[1], x = v;
            std::string s = ToHex(v), e(16, '0');
            for (int i = 15; i >= 0; --i, x /= 16) e[std::size_t(i)] = "0123456789abcdef"[x % 16];
            EXPECT(s == e, "P20", "ToHex of " << v << " is " << s);
            return;
        }
        gDraws = d; gAt = 0;
        form(Uuid());
        gDraws = d; gAt = 0;
        std::string pre = d[0] % 2 ? "" : "pre_" + std::to_string(d[1] % 10), f = GenTmpFileName(pre);
        EXPECT(f.compare(0, 5 + pre.size(), "/tmp/" + pre) == 0, "P20", "file name '" << f << "'");
        form(f.substr(5 + pre.size()));
        gDraws.clear();
    };
    c.nontrivial = [](const std::string&) { return true; };
    return caseMain(argc, argv, c);
}
