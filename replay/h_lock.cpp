// Executable form of the lock contracts: one thread nests read and write locks, a second thread probes the lock from outside.
// Case: "D A B word" word over R r W w: lock/unlock (upper case opens); '?' marks the probe; D: disabled first; guards used when A
#include "common.hpp"
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <csignal>
#include "ReadWriteMutex.h"
using namespace mvlt;
typedef RecursiveReadWriteMutex M;
static std::string gCase;
static void onAlarm(int) { std::string s = "CASE " + gCase + "\nFAIL the thread blocks on a lock it holds itself\n"; if (::write(1, s.data(), s.size())) {} ::_exit(1); }
struct Probe
{
    std::mutex m; std::condition_variable cv; bool done = false; std::thread t;
    Probe(M& x, bool write) : t([this, &x, write] { if (write) { x.WriteLock(); x.WriteUnlock(); } else { x.ReadLock(); x.ReadUnlock(); } std::lock_guard<std::mutex> l(m); done = true; cv.notify_all(); }) {}
    bool wait(int ms) { std::unique_lock<std::mutex> l(m); return cv.wait_for(l, std::chrono::milliseconds(ms), [this] { return done; }); }
    ~Probe() { t.join(); }
};
static const int LONG = 4000, SHORT = 8;
static void expectState(M& m, char want, bool probeWrite, std::unique_ptr<Probe>& pending)
{
    bool free = want == 'n' || (want == 'r' && !probeWrite);
    pending.reset(new Probe(m, probeWrite));
    bool got = pending->wait(free ? LONG : SHORT);
    if (got) pending.reset();
    EXPECT(got == free, "P19", (probeWrite ? "a writer" : "a reader") << " of another thread " << (got ? "gets" : "does not get") << " the lock while it is " << (want == 'n' ? "free" : want == 'r' ? "read locked" : "write locked"));
}
static void nest(M& m, const std::string& w, std::size_t& i, int r, int wr, bool dis, bool guards, bool probeWrite, std::unique_ptr<Probe>& pending)
{
    while (i < w.size())
    {
        char ch = w[i++];
        if (ch == 'r' || ch == 'w') return;
        if (ch == '?') { expectState(m, dis ? 'n' : wr ? 'w' : r ? 'r' : 'n', probeWrite, pending); continue; }
        bool rd = ch == 'R';
        if (guards)
        {
            if (rd) { ReadLock<M> l(m); nest(m, w, i, r + 1, wr, dis, guards, probeWrite, pending); }
            else { WriteLock<M> l(m); nest(m, w, i, r, wr + 1, dis, guards, probeWrite, pending); }
        }
        else
        {
            if (rd) m.ReadLock(); else m.WriteLock();
            try { nest(m, w, i, r + rd, wr + !rd, dis, guards, probeWrite, pending); } catch (...) { if (rd) m.ReadUnlock(); else m.WriteUnlock(); throw; }
            if (rd) m.ReadUnlock(); else m.WriteUnlock();
        }
    }
}
int main(int argc, char** argv)
{
    std::signal(SIGALRM, onAlarm);
    CaseHarness c;
    c.make = [](Rng& g, long n) {
        std::string w; std::string open; int steps = 2 + g(n < 200 ? 6 : 14);
        std::size_t mark = std::size_t(g(steps));
        for (int i = 0; i < steps || !open.empty(); ++i)
        {
            if (std::size_t(i) == mark) w += '?';
            if (i < steps && (open.empty() || g.chance(60))) { char ch = g.chance(50) ? 'R' : 'W'; w += ch; open += char(ch | 32); }
            else { w += open.back(); open.pop_back(); }
        }
        return std::to_string(g.chance(8)) + " " + std::to_string(g(2)) + " " + std::to_string(g(2)) + " " + w;
    };
    c.run = [](const std::string& t) {
        gCase = t;
        auto w = words(t);
        std::unique_ptr<Probe> pending;
        auto m = std::make_shared<M>();
        bool dis = w[0] == "1";
        ::alarm(40);
        // a new thread has counters of its own
        Mismatch bad; bool failed = false;
        std::thread th([&] {
            try {
                if (dis) m->Disable();
                std::size_t i = 0;
                nest(*m, w[3], i, 0, 0, dis, w[1] == "1", w[2] == "1", pending);
                pending.reset();
                std::unique_ptr<Probe> p2;
                expectState(*m, 'n', true, p2);
                // the lock works again afterwards
                m->ReadLock(); expectState(*m, dis ? 'n' : 'r', true, p2); m->ReadUnlock();
                p2.reset();
            } catch (const Mismatch& x) { bad = x; failed = true; }
        });
        th.join();
        if (failed) { std::string s = "CASE " + t + "\nFAIL " + bad.what + "\n"; std::cout << s << std::flush; ::_exit(1); }
        pending.reset();
        ::alarm(0);
    };
    c.nontrivial = [](const std::string& t) { return words(t)[3].size() > 3; };
    return caseMain(argc, argv, c);
}
