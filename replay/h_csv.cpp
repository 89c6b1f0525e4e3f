// Executable form of the CSV contracts. Case: "w SEP EOL FINAL row|row.." (fields in hex) or "r SEP HEX" (raw bytes)
#include "common.hpp"
#include "tmpdir.hpp"
#include "CsvParser/CsvParser.h"
using namespace mvlt;
static TmpDir* gT;
static std::string show(const std::vector<std::vector<std::string>>& r)
{
    std::string s;
    for (auto& x : r) { s += "["; for (auto& f : x) s += "{" + hexOf(f) + "}"; s += "]"; }
    return s;
}
static std::vector<std::vector<std::string>> parse(const std::string& text, char sep)
{
    putFile(gT->file(0), text);
    CsvParser p;
    EXPECT(p.OpenFile(gT->file(0)), "P15", "file does not open");
    std::vector<std::vector<std::string>> rows;
    std::vector<std::string> v(1, "old");
    while (p.GetNextVector(v, sep)) { rows.push_back(v); EXPECT(rows.size() <= text.size() + 1, "P15", "parser does not come to the end"); }
    EXPECT(v.empty(), "P15", "fields after the end");
    EXPECT(!p.GetNextVector(v, sep) && v.empty(), "P15", "a row after the end");
    return rows;
}
int main(int argc, char** argv)
{
    TmpDir t; gT = &t;
    CaseHarness c;
    auto bytes = [](Rng& g, int max, char sep) {
        std::string s; int n = g(max + 1); int kind = g(3);
        for (int i = 0; i < n; ++i)
        {
            int w = g(kind == 0 ? 12 : 8);
            s += w == 0 ? '"' : w == 1 ? sep : w == 2 ? '\n' : w == 3 ? '\r' : w == 4 ? ',' : w < 8 ? char('a' + g(3)) : char(g(256));
        }
        return s;
    };
    c.make = [&](Rng& g, long) {
        static const char seps[] = ",,,;\t|a \x01\xff";
        char sep = seps[g(10)];
        std::string r;
        if (g.chance(40))
        {
            r = "r " + std::to_string((unsigned char)sep) + " " + hexOf(bytes(g, g.chance(5) ? 300 : 14, sep));
            return r;
        }
        r = "w " + std::to_string((unsigned char)sep) + " " + std::to_string(g(3)) + " " + std::to_string(g(2));
        int n = 1 + g(4);
        for (int i = 0; i < n; ++i)
        {
            int m = 1 + g(4);
            r += " /";
            for (int j = 0; j < m; ++j) r += " " + hexOf(bytes(g, g.chance(10) ? 40 : 4, sep));
        }
        return r;
    };
    c.run = [&](const std::string& text) {
        auto w = words(text);
        char sep = char(std::stoi(w[1]));
        if (w[0] == "r")
        {
            std::string s = unhex(w[2]);
            auto got = parse(s, sep), want = csvRows(s, sep);
            EXPECT(got == want, "P15", "rows " << show(got) << " instead of " << show(want));
            return;
        }
        std::vector<std::vector<std::string>> rows;
        for (std::size_t i = 4; i < w.size(); ++i) { if (w[i] == "/") rows.push_back({}); else rows.back().push_back(unhex(w[i])); }
        static const char* eols[] = {"\r\n", "\n", "\r"};
        std::string s;
        for (std::size_t i = 0; i < rows.size(); ++i)
        {
            if (rows[i].size() == 1 && rows[i][0].empty()) rows[i].push_back("");   // a blank line is no row with a field
            for (std::size_t j = 0; j < rows[i].size(); ++j) { if (j) s += sep; s += sep == ',' ? FormatStringToCsv(rows[i][j]) : FormatStringToCsv(rows[i][j], std::string(1, sep)); }
            if (i + 1 < rows.size() || w[3] == "1") s += eols[std::stoi(w[2])];
        }
        auto got = parse(s, sep);
        EXPECT(got == rows, "P15", "text " << hexOf(s) << ": rows " << show(got) << " instead of " << show(rows));
    };
    c.shrink = [](const std::string& t) {
        std::vector<std::string> out;
        auto w = words(t);
        for (std::size_t i = w[0] == "r" ? 2 : 4; i < w.size(); ++i)
        {
            auto j = [&](const std::vector<std::string>& q) { std::string s; for (auto& x : q) s += (s.empty() ? "" : " ") + x; return s; };
            if (w[0] == "w" && w[i] != "/" && i + 1 < w.size()) { auto q = w; q.erase(q.begin() + long(i)); if (q[i - 1] != "/" || (q[i] != "/")) out.push_back(j(q)); }
            if (w[i] != "/" && w[i] != "-") for (std::size_t k = 0; k + 1 < w[i].size(); k += 2) { auto q = w; q[i].erase(k, 2); if (q[i].empty()) q[i] = "-"; out.push_back(j(q)); }
        }
        return out;
    };
    c.nontrivial = [](const std::string& t) { return t.size() > 12; };
    return caseMain(argc, argv, c);
}
