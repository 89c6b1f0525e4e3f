// Shared by the replay harnesses: allocation counting, property-tagged checks, deterministic random numbers.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <typeindex>
#include <unordered_set>
#include <vector>
#include <unistd.h>

struct Rng
{
    std::uint64_t s;
    explicit Rng(std::uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    std::uint64_t next()
    {
        s += 0x9E3779B97F4A7C15ull;
        std::uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int operator()(int n) { return n <= 0 ? 0 : int(next() % std::uint64_t(n)); }
    bool chance(int pct) { return (*this)(100) < pct; }
};

// A mismatch carries the ids of the properties it breaks. The first one ends the case.
struct Mismatch
{
    std::string props, what;
};

inline bool hasProp(const std::string& list, const std::string& p)
{
    std::stringstream ss(list);
    std::string x;
    while (ss >> x) if (x == p) return true;
    return false;
}

#define EXPECT(cond, props, msg) do { if (!(cond)) { std::stringstream ss_; ss_ << msg; throw Mismatch{props, ss_.str()}; } } while (0)

// Cases of harnesses which are not histories: a case is a line of text, run() throws Mismatch.
// usage: prog gen PROP SEED MILLISECONDS MAXCASES   |   prog replay PROP FILE
struct CaseHarness
{
    std::function<std::string(Rng&, long)> make;      // index -> case text (fixed corner cases first)
    std::function<void(const std::string&)> run;
    std::function<std::vector<std::string>(const std::string&)> shrink; // smaller candidates
    std::function<bool(const std::string&)> nontrivial;
};

inline std::string hexOf(const std::string& s)
{
    static const char* d = "0123456789abcdef";
    std::string r;
    for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
    return r.empty() ? "-" : r;
}
inline std::string unhex(const std::string& h)
{
    std::string r;
    if (h == "-") return r;
    for (std::size_t i = 0; i + 1 < h.size(); i += 2) r += char(std::stoi(h.substr(i, 2), nullptr, 16));
    return r;
}
inline std::vector<std::string> words(const std::string& s)
{
    std::stringstream ss(s);
    std::vector<std::string> r;
    std::string x;
    while (ss >> x) r.push_back(x);
    return r;
}

#include <chrono>
inline int caseMain(int argc, char** argv, const CaseHarness& h)
{
    if (argc < 4) { std::cerr << "usage\n"; return 2; }
    std::string mode = argv[1], prop = argv[2];
    auto tryCase = [&](const std::string& c, std::string& what) {
        try { h.run(c); }
        catch (const Mismatch& m) { if (hasProp(m.props, prop)) { what = m.what; return false; } }
        return true;
    };
    if (mode == "replay")
    {
        std::ifstream f(argv[3]);
        std::string line, what;
        while (std::getline(f, line))
        {
            if (line.empty() || line[0] == '#') continue;
            if (!tryCase(line, what)) { std::cout << "FAIL " << what << "\n"; return 1; }
        }
        std::cout << "PASS\n";
        return 0;
    }
    std::uint64_t seed = std::strtoull(argv[3], nullptr, 10);
    long ms = std::atol(argv[4]), maxCases = std::atol(argv[5]);
    const char* cur = argv[6];                   // file which always holds the running case
    auto t0 = std::chrono::steady_clock::now();
    Rng rng(seed);
    long n = 0, nt = 0;
    std::set<std::size_t> distinct;
    FILE* cf = std::fopen(cur, "w");
    for (; n < maxCases; ++n)
    {
        if ((n & 15) == 0 && std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count() > ms) break;
        std::string c = h.make(rng, n), what;
        std::rewind(cf);
        std::fprintf(cf, "%s\n", c.c_str());
        std::fflush(cf);
        if (ftruncate(fileno(cf), ftell(cf))) {}
        if (h.nontrivial(c) && distinct.insert(std::hash<std::string>()(c)).second) ++nt;
        if (!tryCase(c, what))
        {
            bool better = true;
            while (better && h.shrink)
            {
                better = false;
                for (const std::string& s : h.shrink(c))
                {
                    std::string w;
                    if (s.size() < c.size() && !tryCase(s, w)) { c = s; what = w; better = true; break; }
                }
            }
            std::cout << "CASE " << c << "\nFAIL " << what << "\n";
            return 1;
        }
        if (n < 3) std::cout << "SAMPLE " << c << "\n";
    }
    std::cout << "CASES " << n << " " << nt << "\nPASS\n";
    return 0;
}
