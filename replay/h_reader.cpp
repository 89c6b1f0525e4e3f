// Executable form of the StreamFileReader contracts. Case: "mode size seed [size seed ..]": files read by one reader in turn
#include "common.hpp"
#include "tmpdir.hpp"
#include "CsvParser/StreamFileReader.h"
using namespace mvlt;
static std::string content(long n, std::uint64_t seed)
{
    std::string s(std::size_t(n), '\0');
    std::uint64_t x = seed * 2654435761u + 1;
    for (auto& ch : s) { x = x * 6364136223846793005ull + 1442695040888963407ull; ch = char(x >> 56); }
    return s;
}
int main(int argc, char** argv)
{
    TmpDir t;
    std::vector<long> big;
    CaseHarness c;
    const long L = 10485760, B = 4096;
    c.make = [&](Rng& g, long n) {
        std::string r = std::to_string(g(3));
        int m = 1 + g(3);
        for (int i = 0; i < m; ++i)
        {
            long size;
            int w = n % 40 == 7 && i == 0 ? 99 : g(60);
            if (w == 99) { long k = g(4); long d = g(3) == 0 ? g(8192) : g(7) - 3; size = L + k * B + d; if (size < 0) size = 0; }
            else if (w < 15) size = g(5);
            else if (w < 40) size = g(600);
            else if (w < 50) size = B * g(4) + g(5) - 2;
            else size = g(20000);
            if (size < 0) size = 0;
            r += " " + std::to_string(size) + " " + std::to_string(g(1000));
        }
        return r;
    };
    c.run = [&](const std::string& text) {
        auto w = words(text);
        int mode = std::stoi(w[0]);
        StreamFileReader* own = nullptr;
        StreamFileReader shared;
        for (std::size_t f = 1; f + 1 < w.size(); f += 2)
        {
            std::string s = content(std::stol(w[f]), std::stoull(w[f + 1]));
            std::string name = t.file(0);
            putFile(name, s);
            StreamFileReader fresh2(name);
            StreamFileReader& r = mode == 1 ? fresh2 : shared;
            if (mode != 1) EXPECT(r.Open(name), "P16", "file does not open");
            EXPECT(r.IsOpen(), "P16", "not open");
            EXPECT(r.GetFileSize() == s.size(), "P16", "size " << r.GetFileSize() << " instead of " << s.size());
            std::size_t stop = mode == 2 && f + 3 < w.size() ? s.size() / 2 : s.size();   // mode 2: the next file is opened before the end
            std::size_t i = 0;
            if (!s.empty())
                for (; i < stop; ++i)
                {
                    if (!r.IsEnd()) EXPECT(false, "P16", "end after " << i << " of " << s.size() << " bytes");
                    if (r.GetChar() != s[i]) EXPECT(false, "P16", "byte " << i << " of " << s.size() << " is " << int(r.GetChar()) << " instead of " << int(s[i]));
                    if (r.GetCurrentPos() != i) EXPECT(false, "P16", "position " << r.GetCurrentPos() << " instead of " << i << " of " << s.size());
                    if (i + 1 < s.size() && r.GetNextChar() != s[i + 1]) EXPECT(false, "P16", "look-ahead after byte " << i << " of " << s.size() << " is " << int(r.GetNextChar()) << " instead of " << int(s[i + 1]));
                    bool m = r.Move();
                    if (!m) EXPECT(false, "P16", "no move from byte " << i << " of " << s.size());
                }
            if (stop == s.size() && !s.empty())
            {
                EXPECT(!r.IsEnd(), "P16", "no end after " << i << " bytes");
                EXPECT(!r.Move() && !r.IsEnd(), "P16", "a move beyond the end");
            }
            if (mode == 0) { r.Close(); EXPECT(!r.IsOpen(), "P16", "open after closing"); }
        }
        EXPECT(!shared.Open(t.path + "/none"), "P16", "a missing file opens");
        (void)own;
    };
    c.shrink = [](const std::string& t) {
        std::vector<std::string> out;
        auto w = words(t);
        auto j = [&](const std::vector<std::string>& q) { std::string s; for (auto& x : q) s += (s.empty() ? "" : " ") + x; return s; };
        for (std::size_t i = 1; i + 1 < w.size() && w.size() > 3; i += 2) { auto q = w; q.erase(q.begin() + long(i), q.begin() + long(i) + 2); out.push_back(j(q)); }
        return out;
    };
    c.nontrivial = [](const std::string& t) { return words(t).size() > 2 && words(t)[1] != "0"; };
    return caseMain(argc, argv, c);
}
