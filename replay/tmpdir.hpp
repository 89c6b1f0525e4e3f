#pragma once
#include <string>
#include <cstdlib>
#include <unistd.h>
#include <fstream>
// a scratch directory of this process, removed at exit
struct TmpDir
{
    std::string path;
    TmpDir() { char b[] = "/tmp/vph_XXXXXX"; path = mkdtemp(b); }
    ~TmpDir() { for (int i = 0; i < 8; ++i) ::unlink(file(i).c_str()); ::rmdir(path.c_str()); }
    std::string file(int i) const { return path + "/f" + std::to_string(i); }
};
inline void putFile(const std::string& p, const std::string& s) { std::ofstream f(p, std::ios::binary); f.write(s.data(), std::streamsize(s.size())); }
inline std::string getFile(const std::string& p) { std::ifstream f(p, std::ios::binary); return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); }
// the quoting rules: rows and fields of a text
#include <vector>
inline std::vector<std::vector<std::string>> csvRows(const std::string& s, char sep)
{
    std::vector<std::vector<std::string>> rows;
    std::size_t i = 0;
    while (i < s.size())
    {
        std::vector<std::string> row;
        std::string f;
        bool in = false, quoted = false, eol = false;
        while (i < s.size() && !eol)
        {
            char c = s[i++];
            if (in)
            {
                if (c != '"') f += c;
                else if (i < s.size() && s[i] == '"') { f += '"'; ++i; }
                else in = false;
            }
            else if (c == '\r' || c == '\n') { if (c == '\r' && i < s.size() && s[i] == '\n') ++i; eol = true; }
            else if (c == '"') { in = quoted = true; f.clear(); }
            else if (c == sep) { row.push_back(f); f.clear(); quoted = false; }
            else f += c;
        }
        if (!f.empty() || !row.empty() || quoted) row.push_back(f);
        if (eol || !row.empty()) rows.push_back(row);
    }
    return rows;
}
