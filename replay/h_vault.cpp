// Executable form of the vault contracts: a reference model of vaults, record sets and references, run side by side
// with the real library over a history of operations. usage:
//   h_vault gen PROP SEED MS MAXCASES CURFILE  |  h_vault replay PROP FILE
#include "common.hpp"
#include <malloc.h>
#include <new>
#include "MVault.h"

using namespace mvlt;
typedef VaultOperationResultCode RC;

// ------------------------------------------------------------------ allocation accounting
static long gLiveRecords = 0, gLive = 0;
static inline void noteAlloc(void* p, int d)
{
    if (!p) return;
    gLive += d;
    if (malloc_usable_size(p) == sizeof(VaultRecord)) gLiveRecords += d;
}
void* operator new(std::size_t n) { void* p = std::malloc(n); if (!p) std::abort(); noteAlloc(p, 1); return p; }
void* operator new[](std::size_t n) { void* p = std::malloc(n); if (!p) std::abort(); noteAlloc(p, 1); return p; }
void operator delete(void* p) noexcept { noteAlloc(p, -1); std::free(p); }
void operator delete[](void* p) noexcept { noteAlloc(p, -1); std::free(p); }
void operator delete(void* p, std::size_t) noexcept { noteAlloc(p, -1); std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { noteAlloc(p, -1); std::free(p); }

// ------------------------------------------------------------------ value types
struct Cu
{
    int* p;
    Cu(int v = 0) : p(new int(v)) {}
    Cu(const Cu& o) : p(new int(*o.p)) {}
    Cu& operator=(const Cu& o) { *p = *o.p; return *this; }
    ~Cu() { delete p; }
    bool operator==(const Cu& o) const { return *p == *o.p; }
    bool operator<(const Cu& o) const { return *p < *o.p; }
    bool operator>(const Cu& o) const { return *p > *o.p; }
};
namespace std { template <> struct hash<Cu> { size_t operator()(const Cu& c) const { return size_t(*c.p % 2); } }; }
namespace mvlt { template <> std::string ToString(const Cu& c) noexcept { return "c" + std::to_string(*c.p); } }

static const int D = 6;                          // values 0..D-1
template <class T> T mk(int n);
template <> int mk<int>(int n) { return n; }
template <> std::string mk<std::string>(int n) { return n == 0 ? "" : "s" + std::to_string(n); }
template <> Cu mk<Cu>(int n) { return Cu(n); }
static int un(const int& v) { return v; }
static int un(const std::string& v) { return v.empty() ? 0 : v[0] == 's' ? std::atoi(v.c_str() + 1) : -99; }
static int un(const Cu& v) { return *v.p; }
static std::string text(int type, int n)
{
    return type == 0 ? ToString(mk<int>(n)) : type == 1 ? mk<std::string>(n) : ToString(mk<Cu>(n));
}
template <class F> void byType(int t, F f)
{
    if (t == 0) f(int()); else if (t == 1) f(std::string()); else f(Cu());
}
static std::type_index tid(int t) { return t == 0 ? typeid(int) : t == 1 ? typeid(std::string) : std::type_index(typeid(Cu)); }

// ------------------------------------------------------------------ model
struct MKey { int type; bool uniq; int def; };
struct MVault { std::vector<std::string> order; std::map<std::string, MKey> keys; std::set<int> recs; };
struct MRec { std::map<std::string, int> vals; bool alive; int v; std::string uid; };
struct MSet { int v = -1; std::set<int> mem; std::string by; };           // by: properties of the operation that gave it its vault and members
struct MRef { int rec = -1; };

static std::string gProp;
static const int NV = 3, NS = 4, NR = 5;
struct Op { int k; int a[6]; };

enum {
    ADDKEY, ADDUNIQ, ADDUNIQF, UPDATEKEY, REMOVEKEY, CREATE, SETDATA, SETLIST, GETREC, GETRECS, REQ, REQC, ERASEREF, ERASEVAL, ERASEVALS,
    SREMREF, SREMVAL, SREMVALS, SADD, SRESET, SCLEAR, SNEW, SCOPYC, SCOPYA, SMOVEC, SMOVEA, JOIN, EXCLUDE, INTERSECT, UNION, INTERSECTION,
    SEQ, DROPDATA, DROPVAULT, VNEW, VCOPYC, VCOPYA, VMOVEC, VMOVEA, RCOPY, RMOVE, RRESET, RSELF, SORTED, SORTBY, REFOBS, KEYOBS, NOPS
};
static const char* opName[NOPS] = {
    "AddKey", "AddUniqueKey", "AddUniqueKeyF", "UpdateKey", "RemoveKey", "CreateRecord", "SetData", "SetDataList", "GetRecord", "GetRecords",
    "Request1", "Request", "EraseRecordRef", "EraseRecord", "EraseRecords", "Set.RemoveRecordRef", "Set.RemoveRecord", "Set.RemoveRecords",
    "Set.AddRecord", "Set.Reset", "Set.Clear", "Set.Recreate", "Set.CopyConstruct", "Set.CopyAssign", "Set.MoveConstruct", "Set.MoveAssign",
    "Join", "Exclude", "Intersect", "Union", "Intersection", "SetEquality", "DropData", "DropVault", "RecreateVault", "CopyConstructVault",
    "CopyAssignVault", "MoveConstructVault", "MoveAssignVault", "Ref.Copy", "Ref.Move", "Ref.Reset", "Ref.SelfAssign", "GetSortedRecords", "SortBy",
    "Ref.Observe", "KeyObserve" };
// properties whose statements the effects of an operation on fields, members and schema belong to
static const char* opOwn[NOPS] = {
    "P01", "P01", "P01", "P01", "P01", "P02", "P03", "P03", "P04", "P04",
    "P05", "P06", "P09", "P09", "P09", "P11", "P11", "P11",
    "P11", "P11", "P11", "P11", "P11", "P11", "P11", "P11",
    "P10", "P10", "P10", "P10", "P10", "P10", "P09", "P09", "P09 P11", "P13",
    "P13", "P13", "P13", "P12", "P12", "P12", "P12", "P08", "P08",
    "P12", "P01" };

struct World
{
    std::unique_ptr<Vault> vs[NV];
    std::unique_ptr<VaultRecordSet> ss[NS];
    std::unique_ptr<VaultRecordRef> rs[NR];
    MVault mv[NV];
    MSet ms[NS];
    MRef mr[NR];
    std::map<int, MRec> recs;                    // every record which is alive or still referenced
    int nextRec = 0;
    long recBase = 0;
    std::string own, lk, slk, srt;               // blame of the running operation
    std::vector<std::string> log;
    bool verbose = false, files = false;         // files: the running operation is one after which files are looked at

    World()
    {
        recBase = gLiveRecords;
        for (auto& v : vs) v.reset(new Vault);
        for (auto& s : ss) s.reset(new VaultRecordSet);
        for (auto& r : rs) r.reset(new VaultRecordRef);
    }
    ~World()
    {
        // refs first in one order, vaults before sets, so that every destructor path runs
        for (int i = 0; i < NR; i += 2) rs[i].reset();
        vs[1].reset();
        ss[0].reset();
        vs[0].reset();
        for (auto& s : ss) s.reset();
        for (auto& v : vs) v.reset();
        for (auto& r : rs) r.reset();
    }

    // -------------------------------------------------------------- choices, all relative to the current state
    std::string keyOf(int v, int a)
    {
        static const char* names[] = { "k0", "k1", "k2", "k3", "k4", "zz" };
        if (v >= 0 && !mv[v].order.empty() && a % 100 < 90) return mv[v].order[(a / 100) % mv[v].order.size()];
        return names[(a / 100) % 6];
    }
    int typeOf(int v, const std::string& k, int a)
    {
        if (v >= 0 && mv[v].keys.count(k) && a % 100 < 90) return mv[v].keys[k].type;
        return (a / 100) % 3;
    }
    int val(int i, const std::string& k) { auto& m = recs[i].vals; auto it = m.find(k); return it == m.end() ? -50 : it->second; }
    std::set<int> matching(int v, const std::set<int>& among, const std::string& k, int n)
    {
        std::set<int> r;
        for (int i : among) if (val(i, k) == n) r.insert(i);
        return r;
    }
    int byUid(const std::string& uid)
    {
        for (auto& x : recs) if (x.second.alive && x.second.uid == uid) return x.first;
        return -1;
    }
    // A record whose address is not known yet gets the address of one with the same field values
    int adopt(int v, const std::string& uid, const std::map<std::string, int>* vals)
    {
        for (int i : mv[v].recs)
            if (recs[i].uid.empty() && (!vals || recs[i].vals == *vals)) { recs[i].uid = uid; return i; }
        return -1;
    }
    int identify(int v, const VaultRecordRef& ref)
    {
        std::string uid = ref.GetRecordUniqueId();
        int i = byUid(uid);
        if (i >= 0) return i;
        bool unknown = false;
        for (int j : mv[v].recs) if (recs[j].uid.empty()) unknown = true;
        if (!unknown) return -1;
        std::map<std::string, int> vals;
        for (auto& k : mv[v].keys) vals[k.first] = field(ref, k.first, k.second.type);
        return adopt(v, uid, &vals);
    }
    int field(const VaultRecordRef& ref, const std::string& key, int type)
    {
        int out = -77;
        byType(type, [&](auto z) {
            typedef decltype(z) T;
            T x = mk<T>(D + 3);
            VaultOperationResult r = ref.GetData(key, x);
            if (r.IsOperationSuccess) out = un(x);
        });
        return out;
    }
    void res(const VaultOperationResult& r, bool ok, RC code, const std::string& okProps, const std::string& codeProps, const char* what)
    {
        EXPECT(r.IsOperationSuccess == ok, okProps + " P23", what << " reported " << (r.IsOperationSuccess ? "success" : "failure") << " (" << r.ResultCodeString() << "), expected " << (ok ? "success" : "failure") << " with code " << int(code));
        EXPECT(r.ResultCode == code, codeProps + " P23", what << " gave code " << r.ResultCodeString() << ", expected code " << int(code));
        EXPECT((r.ResultCode == RC::Success) == r.IsOperationSuccess, "P23", what << " flag and code disagree");
    }
    void resKey(const VaultOperationResult& r, const std::string& key, const char* what)
    {
        EXPECT(r.Key == key, "P23", what << " names key '" << r.Key << "' instead of '" << key << "'");
    }
    void resTypes(const VaultOperationResult& r, std::type_index req, std::type_index sav, const char* what)
    {
        EXPECT(r.RequestedType == req, "P23", what << " names a wrong requested type " << r.RequestedType.name());
        EXPECT(r.SavedType == sav, "P23", what << " names a wrong stored type " << r.SavedType.name());
    }
    // record, key, type: the common first conditions. Returns the code or Success.
    RC keyCode(int v, const std::string& k, int t)
    {
        if (!mv[v].keys.count(k)) return RC::WrongKey;
        if (mv[v].keys[k].type != t) return RC::WrongType;
        return RC::Success;
    }
    std::type_index savedOf(int v, const std::string& k) { return mv[v].keys.count(k) ? tid(mv[v].keys[k].type) : std::type_index(typeid(void)); }

    void killRec(int i)
    {
        MRec& r = recs[i];
        r.alive = false;
        mv[r.v].recs.erase(i);
        for (auto& s : ms) s.mem.erase(i);
    }
    void detachSets(int v)
    {
        for (auto& s : ms) if (s.v == v) { s.v = -1; s.mem.clear(); }
    }
    void gc()
    {
        std::set<int> used;
        for (auto& r : mr) if (r.rec >= 0) used.insert(r.rec);
        for (auto it = recs.begin(); it != recs.end();)
            if (!it->second.alive && !used.count(it->first)) it = recs.erase(it); else ++it;
    }
    void setRef(int r, int rec) { mr[r].rec = rec; }

    std::function<bool(const VaultRecordRef&)> pred(int mode, int v, const std::string& key, int type, bool& isDefault)
    {
        isDefault = false;
        World* w = this;
        if (mode % 4 == 1) return [=](const VaultRecordRef& r) { return w->field(r, key, type) % 2 == 0; };
        if (mode % 4 == 2) return [=](const VaultRecordRef& r) { int i = w->identify(v, r); return i >= 0 && i % 2 == 1; };
        if (mode % 4 == 3) return [](const VaultRecordRef&) { return false; };
        isDefault = true;
        return [](const VaultRecordRef&) { return true; };
    }
    bool mpred(int mode, const std::string& key, int i)
    {
        if (mode % 4 == 1) return val(i, key) % 2 == 0;
        if (mode % 4 == 2) return i % 2 == 1;
        if (mode % 4 == 3) return false;
        return true;
    }

    // -------------------------------------------------------------- references to all records of a vault, without trusting any index but the tree of the first key
    std::map<int, VaultRecordRef> allRefs(int v)
    {
        std::map<int, VaultRecordRef> out;
        if (mv[v].order.empty()) return out;
        for (auto& r : vs[v]->GetSortedRecords(mv[v].order[0]))
        {
            int i = identify(v, r);
            if (i >= 0) out.emplace(i, r);
        }
        return out;
    }
    std::multiset<std::string> rows(const std::vector<std::vector<std::pair<std::string, std::string>>>& x)
    {
        std::multiset<std::string> r;
        for (auto& row : x)
        {
            std::string s;
            for (auto& f : row) s += f.first + "=" + f.second + ";";
            r.insert(s);
        }
        return r;
    }
    std::multiset<std::string> mrows(int v, const std::set<int>& among)
    {
        std::multiset<std::string> r;
        for (int i : among)
        {
            std::string s;
            for (auto& k : mv[v].order) s += k + "=" + text(mv[v].keys[k].type, recs[i].vals[k]) + ";";
            r.insert(s);
        }
        return r;
    }
    std::string show(const std::multiset<std::string>& m) { std::string s; for (auto& x : m) s += "{" + x + "} "; return s; }
    std::string show(const std::set<int>& m) { std::string s = "{"; for (int x : m) s += std::to_string(x) + " "; return s + "}"; }

    template <class C> void auditContent(C& c, int v, const std::set<int>& mem, bool isSet, const std::string& name)
    {
        const std::string memb = isSet ? own + " P11" : own;
        EXPECT(c.Size() == mem.size(), memb, name << " has size " << c.Size() << ", expected " << mem.size());
        auto got = rows(c.ToStrings()), want = mrows(v, mem);
        EXPECT(got == want, own, name << " holds records " << show(got) << ", expected " << show(want));
        EXPECT(c.GetKeys() == mv[v].order, own, name << " key order differs");
        for (auto& k : mv[v].keys)
        {
            std::type_index t = typeid(void);
            EXPECT(c.IsKeyExist(k.first), own, name << " lost key " << k.first);
            EXPECT(c.GetKeyType(k.first, t) && t == tid(k.second.type), own, name << " key " << k.first << " has another type");
            byType(k.second.type, [&](auto z) {
                typedef decltype(z) T;
                T x = mk<T>(D + 1);
                VaultOperationResult r = c.GetKeyValue(k.first, x);
                if (k.second.uniq)
                    EXPECT(r.ResultCode == RC::UniqueKey && !r.IsOperationSuccess, own + " P07", name << " key " << k.first << " is not unique any more");
                else
                    EXPECT(r.IsOperationSuccess && un(x) == k.second.def, own, name << " key " << k.first << " has default " << un(x) << ", expected " << k.second.def);
            });
        }
        std::set<std::string> uk;
        for (auto& k : mv[v].keys) if (k.second.uniq) uk.insert(k.first);
        auto gu = c.GetUniqueKeys();
        EXPECT(std::set<std::string>(gu.begin(), gu.end()) == uk && gu.size() == uk.size(), own + " P07", name << " has other unique keys");
        EXPECT(!c.IsKeyExist("absent"), own, name << " has key 'absent'");
        for (const char* n : { "k0", "k1", "k2", "k3", "k4", "zz" })
            if (!mv[v].keys.count(n))
            {
                std::type_index t = typeid(void);
                EXPECT(!c.IsKeyExist(n) && !c.GetKeyType(n, t), own, name << " has key " << n);
                VaultRecordRef r;
                std::vector<VaultRecordRef> l;
                EXPECT(c.GetRecord(n, 0, r).ResultCode == RC::WrongKey, "P04 P23 " + own, name << " finds records by the absent key " << n);
                EXPECT(c.GetSortedRecords(n).empty(), "P08 " + own, name << " sorts by the absent key " << n);
            }
        // lookups
        const std::string lkp = "P04 " + (isSet ? slk : lk);
        for (auto& k : mv[v].keys)
            byType(k.second.type, [&](auto z) {
                typedef decltype(z) T;
                for (int n = 0; n < D; ++n)
                {
                    std::set<int> want = matching(v, mem, k.first, n), got;
                    std::vector<VaultRecordRef> l;
                    VaultOperationResult r = c.GetRecords(k.first, mk<T>(n), l);
                    for (auto& x : l)
                    {
                        EXPECT(x.IsValid(), lkp + " P12", name << " lookup " << k.first << "=" << n << " gives an invalid record");
                        got.insert(identify(v, x));
                    }
                    EXPECT(got == want && l.size() == want.size(), lkp + (k.second.uniq ? " P07" : ""), name << " lookup " << k.first << "=" << n << " gives " << show(got) << " (" << l.size() << "), expected " << show(want));
                    EXPECT(r.IsOperationSuccess == !want.empty(), "P23 P04", name << " lookup " << k.first << "=" << n << " reports " << r.IsOperationSuccess);
                    VaultRecordRef one;
                    VaultOperationResult r1 = c.GetRecord(k.first, mk<T>(n), one);
                    EXPECT(r1.IsOperationSuccess == !want.empty(), "P23 P04", name << " GetRecord " << k.first << "=" << n << " reports " << r1.IsOperationSuccess);
                    if (!want.empty()) EXPECT(want.count(identify(v, one)), lkp, name << " GetRecord " << k.first << "=" << n << " gives another record");
                    else EXPECT(!one.IsValid(), lkp, name << " GetRecord " << k.first << "=" << n << " gives a record");
                }
            });
        // sorted
        for (auto& k : mv[v].keys)
            for (int rev = 0; rev < 2; ++rev)
            {
                auto l = c.GetSortedRecords(k.first, rev == 1);
                std::set<int> got;
                int last = rev ? D + 9 : -1;
                bool ordered = true;
                for (auto& x : l)
                {
                    int i = identify(v, x);
                    got.insert(i);
                    int n = i >= 0 ? recs[i].vals[k.first] : -5;
                    if (rev ? n > last : n < last) ordered = false;
                    last = n;
                }
                EXPECT(got == mem && l.size() == mem.size(), "P08 " + srt, name << " sorted by " << k.first << " gives " << show(got) << " (" << l.size() << "), expected " << show(mem));
                EXPECT(ordered, "P08 " + srt, name << " sorted by " << k.first << " is out of order");
            }
    }

    // what the vault saves to a file: a line for the keys and one for each record, with a field for each key
    template <class C> void auditFile(C& c, int v, const std::set<int>& mem, const std::string& name)
    {
        if (mv[v].order.empty()) return;
        static const std::string file = "save." + std::to_string(long(getpid())) + ".csv";
        EXPECT(c.SaveToFile(file), own, name << " is not saved");
        std::ifstream is(file, std::ios::binary);
        std::string all((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>()), line;
        std::multiset<std::string> got, want;
        std::string head, keys;
        bool first = true;
        for (std::size_t b = 0, e; (e = all.find("\r\n", b)) != std::string::npos; b = e + 2)
        {
            if (first) head = all.substr(b, e - b); else got.insert(all.substr(b, e - b));
            first = false;
        }
        for (auto& k : mv[v].order) keys += (keys.empty() ? "" : ",") + k;
        for (int i : mem)
        {
            std::string l;
            for (std::size_t j = 0; j < mv[v].order.size(); ++j)
            {
                std::string f = text(mv[v].keys[mv[v].order[j]].type, recs[i].vals[mv[v].order[j]]);
                l += (j ? "," : "") + (f.empty() && mv[v].order.size() == 1 ? "\"\"" : f);
            }
            want.insert(l);
        }
        EXPECT(head == keys, own, name << " saves the keys " << head << ", expected " << keys);
        EXPECT(got == want, own, name << " saves the records " << show(got) << ", expected " << show(want));
    }

    void audit()
    {
        gc();
        long want = 0;
        for (auto& r : recs) { (void)r; ++want; }
        EXPECT(gLiveRecords - recBase == want, "P12 " + (own == "P02" || own == "P13" || own == "P09" ? own : std::string()), "records kept in memory: " << gLiveRecords - recBase << ", expected " << want);
        std::string save = own;
        std::map<int, VaultRecordRef> refs[NV];
        for (int v = 0; v < NV; ++v)
        {
            auditContent(*vs[v], v, mv[v].recs, false, "vault " + std::to_string(v));
            if (files) auditFile(*vs[v], v, mv[v].recs, "vault " + std::to_string(v));
            refs[v] = allRefs(v);
            for (auto& x : refs[v])
                for (auto& k : mv[v].keys)
                {
                    int n = field(x.second, k.first, k.second.type);
                    EXPECT(n == recs[x.first].vals[k.first], own, "record " << x.first << " field " << k.first << " reads " << n << ", expected " << recs[x.first].vals[k.first]);
                }
        }
        for (int s = 0; s < NS; ++s)
        {
            std::string name = "set " + std::to_string(s);
            std::string p = own + " P11 " + ms[s].by;
            own = save + " " + ms[s].by;
            EXPECT(ss[s]->GetIsParentVaultValid() == (ms[s].v >= 0), p, name << " attached: " << ss[s]->GetIsParentVaultValid());
            if (ms[s].v < 0)
            {
                EXPECT(ss[s]->Size() == 0 && ss[s]->GetKeys().empty() && !ss[s]->IsKeyExist("k0") && ss[s]->GetSortedRecords("k0").empty(), p, name << " is detached and not empty");
                continue;
            }
            std::stringstream id;
            id << vs[ms[s].v].get();
            EXPECT(ss[s]->GetParentVaultUniqueId() == id.str(), p, name << " belongs to another vault");
            for (int v = 0; v < NV; ++v)
                for (auto& x : refs[v])
                    EXPECT(ss[s]->CheckRecord(x.second) == (v == ms[s].v && ms[s].mem.count(x.first) > 0), p, name << (ms[s].mem.count(x.first) ? " lost record " : " contains record ") << x.first);
            auditContent(*ss[s], ms[s].v, ms[s].mem, true, name);
            if (files) auditFile(*ss[s], ms[s].v, ms[s].mem, name);
        }
        own = save;
        for (int r = 0; r < NR; ++r)
        {
            std::string name = "ref " + std::to_string(r);
            bool valid = mr[r].rec >= 0 && recs[mr[r].rec].alive;
            EXPECT(rs[r]->IsValid() == valid, "P12 " + own, name << " valid: " << rs[r]->IsValid());
            if (!valid) { EXPECT(rs[r]->GetKeys().empty() && !rs[r]->IsKeyExist("k0") && rs[r]->GetRecordUniqueId() == "null", "P12", name << " is invalid but answers"); continue; }
            MRec& m = recs[mr[r].rec];
            EXPECT(rs[r]->GetKeys() == mv[m.v].order, own + " P12", name << " has other keys");
            if (mv[m.v].keys.empty()) continue;
            EXPECT(identify(m.v, *rs[r]) == mr[r].rec, "P12 " + own, name << " denotes another record");
            for (auto& k : mv[m.v].keys)
            {
                int n = field(*rs[r], k.first, k.second.type);
                EXPECT(n == m.vals[k.first], own, name << " field " << k.first << " reads " << n << ", expected " << m.vals[k.first]);
            }
        }
        own = save;
    }

    typedef std::vector<std::pair<std::string, VaultParamInput>> Params;
    struct P1 { std::string k; int t, n; };
    std::vector<P1> params(int v, int seed)
    {
        Rng g(seed);
        std::vector<P1> r;
        int n = g(5);
        for (int i = 0; i < n; ++i)
        {
            std::string k = keyOf(v, g(10000));
            int bad = g(10000);
            if (bad % 100 >= 97) k = "zz";
            int t = v >= 0 && mv[v].keys.count(k) && g(100) < 95 ? mv[v].keys[k].type : g(3);
            r.push_back({ k, t, g(D) });
        }
        return r;
    }
    Params realParams(const std::vector<P1>& ps)
    {
        Params r;
        for (auto& p : ps) byType(p.t, [&](auto z) { typedef decltype(z) T; r.emplace_back(p.k, VaultParamInput(mk<T>(p.n))); });
        return r;
    }
    std::string show(const std::vector<P1>& ps)
    {
        std::string s = "{";
        for (auto& p : ps) s += p.k + ":" + "isc"[p.t] + std::to_string(p.n) + " ";
        return s + "}";
    }
    bool dup(int v, int self, const std::string& k, int n)
    {
        if (!mv[v].keys[k].uniq) return false;
        for (int i : mv[v].recs) if (i != self && val(i, k) == n) return true;
        return false;
    }
    int aliveOrSkip(int r) { return mr[r].rec; }

    // a value that a member has, or any
    int near(const std::set<int>& among, const std::string& k, int n, Rng& g)
    {
        if (among.empty() || g.chance(35)) return n;
        auto it = among.begin();
        std::advance(it, g(int(among.size())));
        int x = val(*it, k);
        return x >= 0 ? x : n;
    }
    // -------------------------------------------------------------- requests
    struct Leaf { int kind; std::string k; int t, n, p; };
    template <int K, class F> void leafK(const Leaf& l, int v, F f)
    {
        bool isDef;
        auto pr = pred(l.p, v, l.k, l.t, isDef);
        byType(l.t, [&](auto z) {
            typedef decltype(z) T;
            if constexpr (K == 0) { if (isDef) f(Less(l.k, mk<T>(l.n))); else f(Less(l.k, mk<T>(l.n), pr)); }
            if constexpr (K == 1) { if (isDef) f(LessOrEqual(l.k, mk<T>(l.n))); else f(LessOrEqual(l.k, mk<T>(l.n), pr)); }
            if constexpr (K == 2) { if (isDef) f(Equal(l.k, mk<T>(l.n))); else f(Equal(l.k, mk<T>(l.n), pr)); }
            if constexpr (K == 3) { if (isDef) f(GreaterOrEqual(l.k, mk<T>(l.n))); else f(GreaterOrEqual(l.k, mk<T>(l.n), pr)); }
            if constexpr (K == 4) { if (isDef) f(Greater(l.k, mk<T>(l.n))); else f(Greater(l.k, mk<T>(l.n), pr)); }
        });
    }
    // the leaf request, with its static type erased only by kind
    template <class F> void leaf(const Leaf& l, int v, F f)
    {
        switch (l.kind)
        {
        case 0: { std::unique_ptr<Less> q; leafK<0>(l, v, [&](const Less& x) { q.reset(new Less(x)); }); f(*q); break; }
        case 1: { std::unique_ptr<LessOrEqual> q; leafK<1>(l, v, [&](const LessOrEqual& x) { q.reset(new LessOrEqual(x)); }); f(*q); break; }
        case 2: { std::unique_ptr<Equal> q; leafK<2>(l, v, [&](const Equal& x) { q.reset(new Equal(x)); }); f(*q); break; }
        case 3: { std::unique_ptr<GreaterOrEqual> q; leafK<3>(l, v, [&](const GreaterOrEqual& x) { q.reset(new GreaterOrEqual(x)); }); f(*q); break; }
        default: { std::unique_ptr<Greater> q; leafK<4>(l, v, [&](const Greater& x) { q.reset(new Greater(x)); }); f(*q); break; }
        }
    }
    And mkAnd(const Leaf& a, const Leaf& b, int v)
    {
        std::unique_ptr<And> q;
        leaf(a, v, [&](const auto& x) { leaf(b, v, [&](const auto& y) { q.reset(new And(x && y)); }); });
        return *q;
    }
    Or mkOr(const Leaf& a, const Leaf& b, int v)
    {
        std::unique_ptr<Or> q;
        leaf(a, v, [&](const auto& x) { leaf(b, v, [&](const auto& y) { q.reset(new Or(x || y)); }); });
        return *q;
    }
    bool mrel(const Leaf& l, int i)
    {
        int x = val(i, l.k);
        bool b = l.kind == 0 ? x < l.n : l.kind == 1 ? x <= l.n : l.kind == 2 ? x == l.n : l.kind == 3 ? x >= l.n : x > l.n;
        return b && mpred(l.p, l.k, i);
    }
    std::set<int> mleaf(const Leaf& l, const std::set<int>& src)
    {
        std::set<int> r;
        for (int i : src) if (mrel(l, i)) r.insert(i);
        return r;
    }
    static std::set<int> inter(const std::set<int>& a, const std::set<int>& b) { std::set<int> r; for (int x : a) if (b.count(x)) r.insert(x); return r; }
    static std::set<int> uni(std::set<int> a, const std::set<int>& b) { a.insert(b.begin(), b.end()); return a; }

    // where a request is sent to: a vault or a set
    struct Src { int v; int s; };
    Src src(int a)
    {
        if (a % 100 < 60) return { (a / 100) % NV, -1 };
        int s = (a / 100) % NS;
        return { ms[s].v, s };
    }
    const std::set<int>& members(const Src& x) { return x.s >= 0 ? ms[x.s].mem : mv[x.v].recs; }
    // after a request the members of the destination are learned through CheckRecord
    std::set<int> learn(int d, int v)
    {
        std::set<int> got;
        for (auto& x : allRefs(v)) if (ss[d]->CheckRecord(x.second)) got.insert(x.first);
        return got;
    }

    void exec(const Op& op)
    {
        const int* a = op.a;
        own = opOwn[op.k]; lk = slk = srt = "";
        files = op.k == ADDKEY || op.k == ADDUNIQ || op.k == ADDUNIQF || op.k == REMOVEKEY || op.k == CREATE || (op.k >= VCOPYC && op.k <= VMOVEA);
        std::stringstream lg;
        lg << opName[op.k] << " ";
        auto note = [&]() { log.push_back(lg.str()); if (verbose) { std::cout << "  " << lg.str() << std::endl; } else { std::fprintf(stderr, "@op %s %s\n", opOwn[op.k], opName[op.k]); } };
        int v = a[0] % NV, s = a[0] % NS, r = a[0] % NR;
        MSet sets0[NS];
        for (int i = 0; i < NS; ++i) sets0[i] = ms[i];
        switch (op.k)
        {
        case ADDKEY: case ADDUNIQ: case ADDUNIQF:
        {
            lk = slk = srt = "P01";
            std::string k = std::string("k") + char('0' + a[1] % 5);
            int t = a[2] % 3, n = a[3] % D;
            lg << "vault " << v << " " << k << " type " << "isc"[t] << " " << n;
            note();
            bool exists = mv[v].keys.count(k) > 0;
            byType(t, [&](auto z) {
                typedef decltype(z) T;
                if (op.k == ADDKEY)
                {
                    bool ok = vs[v]->AddKey(k, mk<T>(n));
                    EXPECT(ok == !exists, "P01 P23", "AddKey answered " << ok);
                    if (ok)
                    {
                        mv[v].order.push_back(k);
                        mv[v].keys[k] = { t, false, n };
                        for (int i : mv[v].recs) recs[i].vals[k] = n;
                    }
                    return;
                }
                VaultOperationResult x;
                std::map<std::string, int> given;
                bool repeat = false;
                if (op.k == ADDUNIQ) x = vs[v]->AddUniqueKey<T>(k);
                else
                {
                    int mul = a[3] % 3, add = a[4] % D, mod = (a[4] / 10) % 100 < 60 ? 1000 : 1 + (a[4] / 1000) % D;
                    std::function<T(const std::size_t&, const VaultRecordRef&)> f = [&](const std::size_t& c, const VaultRecordRef& ref) -> T {
                        int val = mod == 1000 ? int((c + std::size_t(add)) % (mv[v].recs.size() + 1)) : int(c * std::size_t(mul) + std::size_t(add)) % mod;
                        for (auto& g : given) if (g.second == val) repeat = true;
                        given[ref.GetRecordUniqueId()] = val;
                        return mk<T>(val);
                    };
                    x = vs[v]->AddUniqueKey<T>(k, f);
                }
                if (exists) { res(x, false, RC::DuplicateKey, "P01", "P01", "AddUniqueKey of a present key"); resKey(x, k, "AddUniqueKey"); resTypes(x, tid(t), savedOf(v, k), "AddUniqueKey"); return; }
                if (op.k == ADDUNIQ && !mv[v].recs.empty()) { res(x, false, RC::TryToAddUniqueKeyInNonEmptyVaultWithoutLambda, "P01 P07", "P01", "AddUniqueKey without generator"); resKey(x, k, "AddUniqueKey"); return; }
                if (repeat) { res(x, false, RC::UniqueKeyValueAlredyInSet, "P01 P07", "P07", "AddUniqueKey with repeated values"); resKey(x, k, "AddUniqueKey"); return; }
                res(x, true, RC::Success, "P01 P07", "P01", "AddUniqueKey");
                resKey(x, k, "AddUniqueKey");
                EXPECT(given.size() == mv[v].recs.size() || op.k == ADDUNIQ, "P01", "the generator was asked for " << given.size() << " records");
                mv[v].order.push_back(k);
                mv[v].keys[k] = { t, true, 0 };
                for (auto& g : given)
                {
                    int i = byUid(g.first);
                    if (i < 0) i = adopt(v, g.first, nullptr);
                    EXPECT(i >= 0 && recs[i].v == v, "P01", "the generator was given a record which is not in the vault");
                    recs[i].vals[k] = g.second;
                }
            });
            break;
        }
        case UPDATEKEY:
        {
            std::string k = keyOf(v, a[1]);
            int t = typeOf(v, k, a[2]), n = a[3] % D;
            lg << "vault " << v << " " << k << " type " << "isc"[t] << " " << n;
            note();
            byType(t, [&](auto z) {
                typedef decltype(z) T;
                VaultOperationResult x = vs[v]->UpdateKey(k, mk<T>(n));
                RC c = keyCode(v, k, t);
                if (c == RC::Success && mv[v].keys[k].uniq) c = RC::UniqueKey;
                res(x, c == RC::Success, c, "P01", "", "UpdateKey");
                resKey(x, k, "UpdateKey");
                resTypes(x, tid(t), savedOf(v, k), "UpdateKey");
                if (c == RC::Success) mv[v].keys[k].def = n;
            });
            break;
        }
        case REMOVEKEY:
        {
            lk = slk = srt = "P01";
            std::string k = keyOf(v, a[1]);
            lg << "vault " << v << " " << k;
            note();
            bool ok = vs[v]->RemoveKey(k), want = mv[v].keys.count(k) > 0;
            EXPECT(ok == want, "P01 P23", "RemoveKey answered " << ok);
            if (want)
            {
                mv[v].keys.erase(k);
                mv[v].order.erase(std::find(mv[v].order.begin(), mv[v].order.end(), k));
                for (int i : mv[v].recs) recs[i].vals.erase(k);
            }
            break;
        }
        case CREATE:
        {
            if (mv[v].recs.size() >= 9) { log.push_back("skip"); return; }
            std::vector<P1> ps = params(v, a[2]);
            int rr = a[1] % (NR + 2);
            lg << "vault " << v << " " << show(ps) << " ref " << (rr < NR ? rr : -1);
            note();
            Params rp = realParams(ps);
            VaultOperationResult x;
            if (rr < NR) x = vs[v]->CreateRecord(*rs[rr], rp); else x = vs[v]->CreateRecord(rp);
            MRec m;
            m.alive = true; m.v = v;
            for (auto& k : mv[v].keys) m.vals[k.first] = k.second.def;
            RC c = RC::Success;
            std::string badKey;
            for (auto& p : ps)
            {
                c = keyCode(v, p.k, p.t);
                if (c != RC::Success)
                {
                    lk = slk = srt = "P02";
                    res(x, false, c, "P02", "P02", "CreateRecord");
                    EXPECT(x.Key == p.k, "P02 P23", "CreateRecord names '" << x.Key << "', the first offending parameter is '" << p.k << "'");
                    resTypes(x, tid(p.t), savedOf(v, p.k), "CreateRecord");
                    audit();
                    return;
                }
                m.vals[p.k] = p.n;
            }
            std::set<std::string> uk;
            for (auto& k : mv[v].keys) if (k.second.uniq && dup(v, -1, k.first, m.vals[k.first])) uk.insert(k.first);
            if (!uk.empty())
            {
                lk = slk = srt = "P02 P07";
                own = "P02 P07";
                res(x, false, RC::UniqueKeyValueAlredyInSet, "P02 P07", "P02 P07", "CreateRecord");
                EXPECT(x.Key == *uk.begin(), "P02 P23", "CreateRecord names '" << x.Key << "', the first repeated unique key is '" << *uk.begin() << "'");
                break;
            }
            res(x, true, RC::Success, "P02 P07", "P02", "CreateRecord");
            int id = nextRec++;
            recs[id] = m;
            mv[v].recs.insert(id);
            if (rr < NR)
            {
                EXPECT(rs[rr]->IsValid(), "P02", "CreateRecord gave an invalid reference");
                std::string uid = rs[rr]->GetRecordUniqueId();
                EXPECT(byUid(uid) < 0, "P02", "CreateRecord gave a reference to another record");
                recs[id].uid = uid;
                setRef(rr, id);
            }
            else if (!mv[v].order.empty()) { own = "P02"; allRefs(v); }
            break;
        }
        case SETDATA: case SETLIST:
        {
            int i = mr[r].rec;
            bool valid = i >= 0 && recs[i].alive;
            int rv = valid ? recs[i].v : -1;
            std::vector<P1> ps;
            if (op.k == SETLIST) { ps = params(rv, a[1]); if (ps.empty()) { log.push_back("skip"); return; } }
            else { std::string k = keyOf(rv, a[1]); ps.push_back({ k, typeOf(rv, k, a[2]), a[3] % D }); }
            lg << "ref " << r << " (record " << i << (valid ? "" : " invalid") << ") " << show(ps);
            note();
            VaultOperationResult x;
            if (op.k == SETLIST) x = rs[r]->SetData(realParams(ps));
            else byType(ps[0].t, [&](auto z) { typedef decltype(z) T; x = rs[r]->SetData(ps[0].k, mk<T>(ps[0].n)); });
            lk = "P03"; slk = "P03 P11"; srt = "P03";
            own = valid ? "P03" : "P03 P12";
            if (!valid) { res(x, false, RC::DataRecordNotValid, "P03 P12", "P12", "SetData"); break; }
            for (std::size_t j = 0; j < ps.size(); ++j)
            {
                P1& p = ps[j];
                RC c = keyCode(rv, p.k, p.t);
                if (c == RC::Success && dup(rv, i, p.k, p.n)) c = RC::UniqueKeyValueAlredyInSet;
                bool u = c == RC::UniqueKeyValueAlredyInSet || (c == RC::Success && mv[rv].keys[p.k].uniq);
                if (c != RC::Success || j + 1 == ps.size())
                {
                    res(x, c == RC::Success, c, u ? "P03 P07" : "P03", u ? "P07" : "", "SetData");
                    resKey(x, p.k, "SetData");
                    resTypes(x, tid(p.t), savedOf(rv, p.k), "SetData");
                }
                if (c != RC::Success) { own = u ? "P03 P07" : "P03"; break; }
                lk = ""; slk = "P11"; srt = "";
                recs[i].vals[p.k] = p.n;
            }
            break;
        }
        case GETREC: case GETRECS:
        {
            Src x = src(a[0]);
            std::string k = keyOf(x.v, a[1]);
            int t = typeOf(x.v, k, a[2]), n = a[3] % D;
            lg << (x.s >= 0 ? "set " : "vault ") << (x.s >= 0 ? x.s : x.v) << " " << k << "=" << n << " type " << "isc"[t];
            note();
            byType(t, [&](auto z) {
                typedef decltype(z) T;
                RC c = x.v < 0 ? RC::ParentVaultNotValid : keyCode(x.v, k, t);
                std::set<int> want;
                if (c == RC::Success) { want = matching(x.v, members(x), k, n); if (want.empty()) c = RC::WrongValue; }
                VaultOperationResult y;
                if (op.k == GETREC)
                {
                    int rr = a[4] % NR;
                    y = x.s >= 0 ? ss[x.s]->GetRecord(k, mk<T>(n), *rs[rr]) : vs[x.v]->GetRecord(k, mk<T>(n), *rs[rr]);
                    if (c == RC::Success)
                    {
                        int i = identify(x.v, *rs[rr]);
                        EXPECT(want.count(i), "P04", "GetRecord gave another record");
                        setRef(rr, i);
                    }
                    else if (c == RC::WrongValue) setRef(rr, -1);
                }
                else
                {
                    std::vector<VaultRecordRef> l(1, *rs[0]);
                    std::size_t lim = a[4] % 100 < 50 ? std::size_t(-1) : 1 + std::size_t(a[4] / 100 % 4);
                    y = x.s >= 0 ? ss[x.s]->GetRecords(k, mk<T>(n), l, lim) : vs[x.v]->GetRecords(k, mk<T>(n), l, lim);
                    if (x.v >= 0)
                    {
                        std::set<int> got;
                        for (auto& q : l) got.insert(identify(x.v, q));
                        bool sub = true;
                        for (int i : got) if (!want.count(i)) sub = false;
                        EXPECT(sub && got.size() == l.size() && l.size() == std::min(lim, want.size()), "P04", "GetRecords with limit " << lim << " gave " << l.size() << " records of " << want.size());
                    }
                }
                res(y, c == RC::Success, c, "P04", "", opName[op.k]);
                resKey(y, k, opName[op.k]);
                resTypes(y, tid(t), x.v >= 0 ? savedOf(x.v, k) : std::type_index(typeid(void)), opName[op.k]);
            });
            break;
        }
        case REQ:
        {
            Src x = src(a[0]);
            int d = a[1] % NS;
            std::string k = keyOf(x.v, a[2]);
            int t = typeOf(x.v, k, a[2] / 7), kind = a[3] % 6, n = a[3] / 6 % (D + 2) - 1, n2 = a[3] / 60 % (D + 2) - 1;
            bool i1 = a[4] & 1, i2 = a[4] & 2;
            std::size_t lim = a[4] / 4 % 3 ? std::size_t(-1) : std::size_t(a[4] / 16 % 6);
            int pm = a[5] % 100 < 60 ? 0 : a[5] / 100 % 4;
            if (n < 0) n = 0;
            if (n2 < 0) n2 = 0;
            if (x.v >= 0) { Rng g(a[4] + a[5] * 10000); n = near(members(x), k, n, g); n2 = near(members(x), k, n2, g); if (n2 < n && g.chance(60)) std::swap(n, n2); }
            lg << (x.s >= 0 ? "set " : "vault ") << (x.s >= 0 ? x.s : x.v) << " -> set " << d << " " << k << " type " << "isc"[t] << " kind " << kind << " " << n << ".." << n2 << " incl " << i1 << i2 << " limit " << long(lim) << " pred " << pm;
            note();
            if (x.v >= 0) { RC c0 = keyCode(x.v, k, t); (void)c0; }
            byType(t, [&](auto z) {
                typedef decltype(z) T;
                bool isDef;
                auto pr = pred(pm, x.v, k, t, isDef);
                VaultOperationResult y;
                auto call = [&](auto& c) {
                    T A = mk<T>(n), B = mk<T>(n2);
                    if (isDef)
                        switch (kind)
                        {
                        case 0: y = c.RequestLess(k, A, *ss[d], lim); break;
                        case 1: y = c.RequestLessOrEqual(k, A, *ss[d], lim); break;
                        case 2: y = c.RequestEqual(k, A, *ss[d], lim); break;
                        case 3: y = c.RequestGreaterOrEqual(k, A, *ss[d], lim); break;
                        case 4: y = c.RequestGreater(k, A, *ss[d], lim); break;
                        default: y = c.RequestInterval(k, A, B, *ss[d], i1, i2, lim); break;
                        }
                    else
                        switch (kind)
                        {
                        case 0: y = c.RequestLess(k, A, *ss[d], lim, pr); break;
                        case 1: y = c.RequestLessOrEqual(k, A, *ss[d], lim, pr); break;
                        case 2: y = c.RequestEqual(k, A, *ss[d], lim, pr); break;
                        case 3: y = c.RequestGreaterOrEqual(k, A, *ss[d], lim, pr); break;
                        case 4: y = c.RequestGreater(k, A, *ss[d], lim, pr); break;
                        default: y = c.RequestInterval(k, A, B, *ss[d], i1, i2, lim, pr); break;
                        }
                };
                if (x.s >= 0) call(*ss[x.s]); else call(*vs[x.v]);
                if (x.v < 0) { res(y, false, RC::ParentVaultNotValid, "P05", "", "Request"); return; }
                if (x.s == d) { res(y, false, RC::SameVaultRecordSet, "P05", "", "Request"); return; }
                RC c = keyCode(x.v, k, t);
                res(y, c == RC::Success, c, "P05", "P05", "Request");
                resKey(y, k, "Request");
                resTypes(y, tid(t), savedOf(x.v, k), "Request");
                std::set<int> range, want;
                if (c == RC::Success)
                    for (int i : members(x))
                    {
                        int q = val(i, k);
                        bool b = kind == 0 ? q < n : kind == 1 ? q <= n : kind == 2 ? q == n : kind == 3 ? q >= n : kind == 4 ? q > n
                            : (i1 ? q >= n : q > n) && (i2 ? q <= n2 : q < n2);
                        if (b) { range.insert(i); if (mpred(pm, k, i)) want.insert(i); }
                    }
                std::set<int> got = learn(d, x.v);
                bool sub = true;
                for (int i : got) if (!want.count(i)) sub = false;
                EXPECT(sub, "P05", "the request gave " << show(got) << ", matching are " << show(want));
                if (lim >= range.size()) EXPECT(got == want, "P05", "the request gave " << show(got) << ", matching are " << show(want));
                EXPECT(got.size() <= lim, "P05", "the request gave more than " << lim << " records");
                if (isDef) EXPECT(got.size() == std::min(lim, want.size()), "P05", "the request with limit " << lim << " gave " << got.size() << " of " << want.size());
                EXPECT(ss[d]->Size() == got.size(), "P05 P11", "the result set has size " << ss[d]->Size() << ", members " << got.size());
                ms[d].v = x.v;
                ms[d].mem = got;
            });
            break;
        }
        case REQC:
        {
            Src x = src(a[0]);
            int d = a[1] % NS;
            for (int rep = 0; rep < (gProp == "P06" ? 5 : 1); ++rep)
            {
            Rng g(a[2] + rep * 10000);
            Leaf l[4];
            bool same = g.chance(60);
            std::string k0 = keyOf(x.v, g(10000));
            for (auto& q : l)
            {
                q.k = same ? k0 : keyOf(x.v, g(10000));
                q.t = typeOf(x.v, q.k, g(10000));
                q.kind = g(5); q.n = g(D); q.p = g.chance(65) ? 0 : g(4);
                if (x.v >= 0) q.n = near(members(x), q.k, q.n, g);
            }
            int shape = g(9);
            if (same && g.chance(40))           // a lower and an upper bound, in any order
            {
                int up = g(2);
                l[up].kind = g(2); l[1 - up].kind = 3 + g(2);
                if (l[up].n < l[1 - up].n && g.chance(80)) std::swap(l[up].n, l[1 - up].n);
                if (g.chance(60)) l[0].p = l[1].p = 0;
                l[0].t = l[1].t;
            }
            lg << (x.s >= 0 ? "set " : "vault ") << (x.s >= 0 ? x.s : x.v) << " -> set " << d << " shape " << shape;
            for (auto& q : l) lg << " [" << "<(=)>"[q.kind] << " " << q.k << " " << "isc"[q.t] << q.n << " p" << q.p << "]";
            note();
            VaultOperationResult y;
            auto send = [&](const auto& q) { y = x.s >= 0 ? ss[x.s]->Request(q, *ss[d]) : vs[x.v]->Request(q, *ss[d]); };
            std::set<int> S = x.v >= 0 ? members(x) : std::set<int>(), want;
            int used = 2;
            switch (shape)
            {
            case 0: case 1: send(mkAnd(l[0], l[1], x.v)); want = inter(mleaf(l[0], S), mleaf(l[1], S)); break;
            case 2: send(mkOr(l[0], l[1], x.v)); want = uni(mleaf(l[0], S), mleaf(l[1], S)); break;
            case 3: { And i = mkAnd(l[0], l[1], x.v); leaf(l[2], x.v, [&](const auto& q) { send(i && q); }); used = 3; want = inter(inter(mleaf(l[0], S), mleaf(l[1], S)), mleaf(l[2], S)); break; }
            case 4: { And i = mkAnd(l[0], l[1], x.v); leaf(l[2], x.v, [&](const auto& q) { send(i || q); }); used = 3; want = uni(inter(mleaf(l[0], S), mleaf(l[1], S)), mleaf(l[2], S)); break; }
            case 5: { Or i = mkOr(l[0], l[1], x.v); leaf(l[2], x.v, [&](const auto& q) { send(q && i); }); used = 3; want = inter(mleaf(l[2], S), uni(mleaf(l[0], S), mleaf(l[1], S))); break; }
            case 6: { Or i = mkOr(l[0], l[1], x.v); leaf(l[2], x.v, [&](const auto& q) { send(q || i); }); used = 3; want = uni(mleaf(l[2], S), uni(mleaf(l[0], S), mleaf(l[1], S))); break; }
            case 7: { used = 4; send(mkOr(l[0], l[1], x.v) && mkAnd(l[2], l[3], x.v)); want = inter(uni(mleaf(l[0], S), mleaf(l[1], S)), inter(mleaf(l[2], S), mleaf(l[3], S))); break; }
            default: used = 1; leaf(l[0], x.v, send); want = mleaf(l[0], S); break;
            }
            if (x.v < 0) { res(y, false, RC::ParentVaultNotValid, "P06", "", "Request"); break; }
            if (x.s == d) { res(y, false, RC::SameVaultRecordSet, "P06", "", "Request"); break; }
            std::set<RC> bad;
            for (int i = 0; i < used; ++i) { RC c = keyCode(x.v, l[i].k, l[i].t); if (c != RC::Success) bad.insert(c); }
            if (!bad.empty())
            {
                EXPECT(!y.IsOperationSuccess && bad.count(y.ResultCode), "P06 P23", "a request with a failing operand reported " << y.ResultCodeString());
                EXPECT(ss[d]->Size() == 0, "P06", "a failed request left records in the result");
                want.clear();
            }
            else res(y, true, RC::Success, "P06", "P06", "Request");
            std::set<int> got = learn(d, x.v);
            EXPECT(got == want, "P06", "the request gave " << show(got) << ", expected " << show(want));
            ms[d].v = x.v;
            ms[d].mem = want;
            }
            break;
        }
        case ERASEREF:
        {
            lk = srt = "P09"; slk = "P09 P11";
            int rr = a[1] % NR, i = mr[rr].rec;
            lg << "vault " << v << " ref " << rr << " (record " << i << ")";
            note();
            bool in = i >= 0 && recs[i].alive && recs[i].v == v;
            bool ok = vs[v]->EraseRecord(*rs[rr]);
            EXPECT(ok == in, "P09 P23", "EraseRecord answered " << ok);
            if (in) killRec(i);
            break;
        }
        case ERASEVAL: case ERASEVALS: case SREMVAL: case SREMVALS:
        {
            bool onSet = op.k == SREMVAL || op.k == SREMVALS;
            lk = srt = onSet ? "P11" : "P09";
            slk = onSet ? "P11" : "P09 P11";
            int w = onSet ? ms[s].v : v;
            std::string k = keyOf(w, a[1]);
            int t = typeOf(w, k, a[2]), n = a[3] % D;
            if (w >= 0 && !members(onSet ? Src{ w, s } : Src{ w, -1 }).empty() && a[5] % 100 < 70 && mv[w].keys.count(k))
            {
                const std::set<int>& mm = members(onSet ? Src{ w, s } : Src{ w, -1 });
                auto it = mm.begin();
                std::advance(it, a[5] / 100 % int(mm.size()));
                n = recs[*it].vals[k];
            }
            bool many = op.k == ERASEVALS || op.k == SREMVALS;
            std::size_t lim = !many ? 1 : a[4] % 100 < 50 ? std::size_t(-1) : 1 + std::size_t(a[4] / 100 % 4);
            lg << (onSet ? "set " : "vault ") << (onSet ? s : v) << " " << k << "=" << n << " type " << "isc"[t] << " limit " << long(lim);
            note();
            byType(t, [&](auto z) {
                typedef decltype(z) T;
                RC c = w < 0 ? RC::ParentVaultNotValid : keyCode(w, k, t);
                std::set<int> M = w < 0 ? std::set<int>() : members(onSet ? Src{ w, s } : Src{ w, -1 }), want;
                if (c == RC::Success) { want = matching(w, M, k, n); if (want.empty()) c = RC::WrongValue; }
                // hold references, so that addresses of erased records are not used again before we looked
                std::map<int, VaultRecordRef> before = w < 0 ? std::map<int, VaultRecordRef>() : allRefs(w);
                VaultOperationResult y;
                if (op.k == ERASEVAL) y = vs[v]->EraseRecord(k, mk<T>(n));
                if (op.k == ERASEVALS) { if (lim == std::size_t(-1)) y = vs[v]->EraseRecords(k, mk<T>(n)); else y = vs[v]->EraseRecords(k, mk<T>(n), lim); }
                if (op.k == SREMVAL) y = ss[s]->RemoveRecord(k, mk<T>(n));
                if (op.k == SREMVALS) { if (lim == std::size_t(-1)) y = ss[s]->RemoveRecords(k, mk<T>(n)); else y = ss[s]->RemoveRecords(k, mk<T>(n), lim); }
                res(y, c == RC::Success, c, own, "", opName[op.k]);
                resKey(y, k, opName[op.k]);
                resTypes(y, tid(t), w >= 0 ? savedOf(w, k) : std::type_index(typeid(void)), opName[op.k]);
                if (w < 0) return;
                std::set<int> gone;
                for (auto& q : before)
                    if (onSet ? (ms[s].mem.count(q.first) && !ss[s]->CheckRecord(q.second)) : !q.second.IsValid()) gone.insert(q.first);
                bool sub = true;
                for (int i : gone) if (!want.count(i)) sub = false;
                EXPECT(sub && gone.size() == std::min(lim, want.size()), own, opName[op.k] << " removed " << show(gone) << ", matching are " << show(want) << ", limit " << long(lim));
                for (int i : gone) if (onSet) ms[s].mem.erase(i); else killRec(i);
            });
            break;
        }
        case SREMREF:
        {
            lk = "P11"; slk = srt = "P11";
            int rr = a[1] % NR, i = mr[rr].rec;
            lg << "set " << s << " ref " << rr << " (record " << i << ")";
            note();
            bool in = i >= 0 && ms[s].mem.count(i);
            bool ok = ss[s]->RemoveRecord(*rs[rr]);
            EXPECT(ok == in, "P11 P23", "Set.RemoveRecord answered " << ok);
            ms[s].mem.erase(i);
            break;
        }
        case SADD:
        {
            int rr = a[1] % NR, i = mr[rr].rec;
            bool valid = i >= 0 && recs[i].alive;
            lg << "set " << s << " ref " << rr << " (record " << i << ")";
            note();
            VaultOperationResult y = ss[s]->AddRecord(*rs[rr]);
            RC c = ms[s].v < 0 ? RC::ParentVaultNotValid : !valid ? RC::DataRecordNotValid : recs[i].v != ms[s].v ? RC::ParentVaultNotMatch
                : ms[s].mem.count(i) ? RC::RecordAlredyInSet : RC::Success;
            res(y, c == RC::Success, c, "P11", "", "AddRecord");
            if (c == RC::Success) ms[s].mem.insert(i);
            break;
        }
        case SRESET: lg << "set " << s; note(); ss[s]->Reset(); ms[s] = MSet(); break;
        case SCLEAR: lg << "set " << s; note(); ss[s]->Clear(); ms[s].mem.clear(); break;
        case SNEW: lg << "set " << s; note(); ss[s].reset(); ss[s].reset(new VaultRecordSet); ms[s] = MSet(); break;
        case SCOPYC: case SCOPYA: case SMOVEC: case SMOVEA:
        {
            slk = srt = "P11";
            int o = a[1] % NS;
            lg << "set " << s << " from set " << o;
            note();
            if (op.k == SCOPYC) { if (o == s) return; ss[s].reset(); ss[s].reset(new VaultRecordSet(*ss[o])); ms[s] = ms[o]; }
            if (op.k == SCOPYA) { *ss[s] = *ss[o]; ms[s] = MSet(ms[o]); }
            if (op.k == SMOVEC) { if (o == s) return; ss[s].reset(); ss[s].reset(new VaultRecordSet(std::move(*ss[o]))); ms[s] = ms[o]; ms[o] = MSet(); }
            if (op.k == SMOVEA) { if (o == s) { VaultRecordSet& q = *ss[s]; q = std::move(*ss[o]); break; } *ss[s] = std::move(*ss[o]); ms[s] = ms[o]; ms[o] = MSet(); }
            break;
        }
        case JOIN: case EXCLUDE: case INTERSECT:
        {
            slk = srt = "P10";
            int o = a[1] % NS;
            lg << "set " << s << " with set " << o;
            note();
            VaultOperationResult y = op.k == JOIN ? ss[s]->Join(*ss[o]) : op.k == EXCLUDE ? ss[s]->Exclude(*ss[o]) : ss[s]->Intersect(*ss[o]);
            RC c = ms[s].v < 0 ? RC::ParentVaultNotValid : ms[o].v < 0 ? RC::OtherParentVaultNotValid : ms[o].v != ms[s].v ? RC::ParentVaultNotMatch : s == o ? RC::SameVaultRecordSet : RC::Success;
            res(y, c == RC::Success, c, "P10", "P10", opName[op.k]);
            if (c == RC::Success)
            {
                std::set<int> A = ms[s].mem, B = ms[o].mem, R;
                if (op.k == JOIN) R = uni(A, B);
                if (op.k == INTERSECT) R = inter(A, B);
                if (op.k == EXCLUDE) for (int i : A) if (!B.count(i)) R.insert(i);
                ms[s].mem = R;
            }
            break;
        }
        case UNION: case INTERSECTION:
        {
            slk = srt = "P10";
            int o = a[1] % NS, q = a[2] % NS;
            lg << "sets " << s << " " << o << " into " << q;
            note();
            VaultOperationResult y = op.k == UNION ? Union(*ss[s], *ss[o], *ss[q]) : Intersection(*ss[s], *ss[o], *ss[q]);
            RC c = s == o || s == q || o == q ? RC::SameVaultRecordSet : ms[s].v < 0 ? RC::ParentVaultNotValid : ms[o].v < 0 ? RC::OtherParentVaultNotValid : ms[o].v != ms[s].v ? RC::ParentVaultNotMatch : RC::Success;
            res(y, c == RC::Success, c, "P10", "P10", opName[op.k]);
            if (c == RC::Success)
            {
                ms[q].v = ms[s].v;
                ms[q].mem = op.k == UNION ? uni(ms[s].mem, ms[o].mem) : inter(ms[s].mem, ms[o].mem);
            }
            break;
        }
        case SEQ:
        {
            int o = a[1] % NS;
            lg << "sets " << s << " " << o;
            note();
            bool eq = ms[s].v == ms[o].v && ms[s].mem == ms[o].mem;
            EXPECT((*ss[s] == *ss[o]) == eq && (*ss[s] != *ss[o]) == !eq, "P10", "equality of sets " << s << " and " << o << " is wrong");
            break;
        }
        case DROPDATA: case DROPVAULT: case VNEW:
        {
            lk = srt = "P09"; slk = "P09 P11";
            lg << "vault " << v;
            note();
            if (op.k == DROPDATA) vs[v]->DropData();
            if (op.k == DROPVAULT) vs[v]->DropVault();
            if (op.k == VNEW) { vs[v].reset(); vs[v].reset(new Vault); }
            std::set<int> rr = mv[v].recs;
            for (int i : rr) killRec(i);
            if (op.k != DROPDATA) { detachSets(v); mv[v] = MVault(); }
            break;
        }
        case VCOPYC: case VCOPYA: case VMOVEC: case VMOVEA:
        {
            lk = slk = srt = "P13";
            int o = a[1] % NV;
            lg << "vault " << v << " from vault " << o;
            note();
            bool ctor = op.k == VCOPYC || op.k == VMOVEC, move = op.k == VMOVEC || op.k == VMOVEA;
            if (o == v)
            {
                if (ctor) return;
                Vault& q = *vs[v];
                if (move) q = std::move(*vs[o]); else q = *vs[o];
                break;
            }
            if (move && a[5] != -1)                  // references into a vault are given up before it moves (known finding)
                for (int i = 0; i < NR; ++i)
                    if (mr[i].rec >= 0 && recs[mr[i].rec].alive && recs[mr[i].rec].v == o) { rs[i]->Reset(); mr[i].rec = -1; }
            std::set<int> old = mv[v].recs;
            for (int i : old) killRec(i);
            detachSets(v);
            if (ctor) vs[v].reset();
            if (op.k == VCOPYC) vs[v].reset(new Vault(*vs[o]));
            if (op.k == VCOPYA) *vs[v] = *vs[o];
            if (op.k == VMOVEC) vs[v].reset(new Vault(std::move(*vs[o])));
            if (op.k == VMOVEA) *vs[v] = std::move(*vs[o]);
            mv[v] = mv[o];
            if (move)
            {
                for (int i : mv[v].recs) recs[i].v = v;
                for (auto& q : ms) if (q.v == o) q.v = v;
                mv[o] = MVault();
            }
            else
            {
                mv[v].recs.clear();
                for (int i : mv[o].recs)
                {
                    MRec m = recs[i];
                    m.v = v; m.uid = "";
                    recs[nextRec] = m;
                    mv[v].recs.insert(nextRec++);
                }
            }
            break;
        }
        case RCOPY: case RMOVE:
        {
            int o = a[1] % NR;
            lg << "ref " << r << " from ref " << o;
            note();
            if (a[2] % 2 && o != r)
            {
                if (op.k == RCOPY) { std::unique_ptr<VaultRecordRef> n(new VaultRecordRef(*rs[o])); rs[r] = std::move(n); }
                else { std::unique_ptr<VaultRecordRef> n(new VaultRecordRef(std::move(*rs[o]))); rs[r] = std::move(n); }
            }
            else if (op.k == RCOPY) *rs[r] = *rs[o];
            else { VaultRecordRef& q = *rs[o]; *rs[r] = std::move(q); }
            if (o == r) break;
            int i = mr[o].rec;
            setRef(r, i);
            if (op.k == RMOVE) mr[o].rec = -1;
            break;
        }
        case RRESET: lg << "ref " << r; note(); if (a[1] % 2) rs[r]->Reset(); else rs[r].reset(new VaultRecordRef); mr[r].rec = -1; break;
        case RSELF: { lg << "ref " << r; note(); VaultRecordRef& q = *rs[r]; if (a[1] % 2) *rs[r] = q; else *rs[r] = std::move(q); break; }
        case SORTED: case SORTBY:
        {
            Src x = src(a[0]);
            std::string k = keyOf(x.v, a[1]);
            bool rev = a[2] % 2;
            std::size_t lim = a[3] % 2 ? std::size_t(-1) : std::size_t(a[3] / 2 % 6);
            std::size_t stop = a[4] % 2 ? std::size_t(-1) : std::size_t(1 + a[4] / 2 % 5);
            int keep = a[5] % NR;
            lg << (x.s >= 0 ? "set " : "vault ") << (x.s >= 0 ? x.s : x.v) << " by " << k << " reverse " << rev << " limit " << long(lim) << " stop " << long(stop) << " keep " << keep;
            note();
            std::vector<VaultRecordRef> l;
            if (op.k == SORTED) { l = x.s >= 0 ? ss[x.s]->GetSortedRecords(k, rev, lim) : vs[x.v]->GetSortedRecords(k, rev, lim); stop = std::size_t(-1); }
            else
            {
                auto f = [&](const VaultRecordRef& q) { l.push_back(q); return l.size() < stop; };
                if (x.s >= 0) ss[x.s]->SortBy(k, f, rev, lim); else vs[x.v]->SortBy(k, f, rev, lim);
            }
            std::vector<int> want;
            if (x.v >= 0 && mv[x.v].keys.count(k))
                for (int i : members(x)) want.push_back(recs[i].vals[k]);
            std::sort(want.begin(), want.end());
            if (rev) std::reverse(want.begin(), want.end());
            std::size_t n = std::min(std::min(lim, stop), want.size());
            EXPECT(l.size() == n, "P08", opName[op.k] << " visited " << l.size() << " records, expected " << n);
            std::set<int> seen;
            for (std::size_t j = 0; j < l.size(); ++j)
            {
                int i = identify(x.v, l[j]);
                EXPECT(i >= 0 && members(x).count(i), "P08", opName[op.k] << " visited a record which is not a member");
                EXPECT(seen.insert(i).second, "P08", opName[op.k] << " visited record " << i << " twice");
                EXPECT(recs[i].vals[k] == want[j], "P08", opName[op.k] << " position " << j << " has value " << recs[i].vals[k] << ", expected " << want[j]);
            }
            if (!l.empty()) { *rs[keep] = l[l.size() - 1]; setRef(keep, identify(x.v, l[l.size() - 1])); }
            break;
        }
        case REFOBS:
        {
            int o = a[1] % NR, i = mr[r].rec, j = mr[o].rec;
            bool v1 = i >= 0 && recs[i].alive, v2 = j >= 0 && recs[j].alive;
            std::string k = keyOf(v1 ? recs[i].v : -1, a[2]);
            int t = typeOf(v1 ? recs[i].v : -1, k, a[3]);
            lg << "refs " << r << " " << o << " key " << k << " type " << "isc"[t];
            note();
            bool eq = v1 ? i == j : !v2;
            EXPECT((*rs[r] == *rs[o]) == eq && (*rs[r] != *rs[o]) == !eq, "P12", "equality of references is wrong");
            byType(t, [&](auto z) {
                typedef decltype(z) T;
                T x = mk<T>(D + 2);
                VaultOperationResult y = rs[r]->GetData(k, x);
                RC c = !v1 ? RC::DataRecordNotValid : keyCode(recs[i].v, k, t);
                res(y, c == RC::Success, c, v1 ? "P03" : "P12", v1 ? "" : "P12", "GetData");
                resKey(y, k, "GetData");
                resTypes(y, tid(t), v1 ? savedOf(recs[i].v, k) : std::type_index(typeid(void)), "GetData");
                EXPECT(un(x) == (c == RC::Success ? recs[i].vals[k] : D + 2), v1 ? "P03" : "P12", "GetData gave " << un(x));
            });
            std::string sx = "untouched";
            VaultOperationResult y = rs[r]->GetDataAsString(k, sx);
            RC c = !v1 ? RC::DataRecordNotValid : mv[recs[i].v].keys.count(k) ? RC::Success : RC::WrongKey;
            res(y, c == RC::Success, c, v1 ? "P03" : "P12", v1 ? "" : "P12", "GetDataAsString");
            EXPECT(sx == (c == RC::Success ? text(mv[recs[i].v].keys[k].type, recs[i].vals[k]) : "untouched"), v1 ? "P03" : "P12", "GetDataAsString gave " << sx);
            EXPECT(rs[r]->IsKeyExist(k) == (v1 && mv[recs[i].v].keys.count(k)), "P12", "IsKeyExist through a reference");
            EXPECT(v1 || rs[r]->ToStrings().empty(), "P12", "ToStrings through an invalid reference");
            break;
        }
        case KEYOBS:
        {
            Src x = src(a[0]);
            std::string k = keyOf(x.v, a[1]);
            int t = typeOf(x.v, k, a[2]);
            lg << (x.s >= 0 ? "set " : "vault ") << (x.s >= 0 ? x.s : x.v) << " " << k << " type " << "isc"[t];
            note();
            byType(t, [&](auto z) {
                typedef decltype(z) T;
                T q = mk<T>(D + 2);
                VaultOperationResult y = x.s >= 0 ? ss[x.s]->GetKeyValue(k, q) : vs[x.v]->GetKeyValue(k, q);
                RC c = x.v < 0 ? RC::ParentVaultNotValid : keyCode(x.v, k, t);
                if (c == RC::Success && mv[x.v].keys[k].uniq) c = RC::UniqueKey;
                res(y, c == RC::Success, c, "P01", "", "GetKeyValue");
                resKey(y, k, "GetKeyValue");
                resTypes(y, tid(t), x.v >= 0 ? savedOf(x.v, k) : std::type_index(typeid(void)), "GetKeyValue");
                EXPECT(un(q) == (c == RC::Success ? mv[x.v].keys[k].def : D + 2), "P01", "GetKeyValue gave " << un(q));
            });
            break;
        }
        }
        if (op.k == REQ || op.k == REQC || (op.k >= SADD && op.k <= SEQ))
            for (int i = 0; i < NS; ++i) if (ms[i].v != sets0[i].v || ms[i].mem != sets0[i].mem) ms[i].by = opOwn[op.k];
        audit();
    }
};

// ------------------------------------------------------------------ histories as text: "kind a b c d e f;" ...
static std::string enc(const std::vector<Op>& h)
{
    std::string s;
    for (auto& o : h)
    {
        s += std::to_string(o.k);
        for (int x : o.a) s += "," + std::to_string(x);
        s += " ";
    }
    return s;
}
static std::vector<Op> dec(const std::string& t)
{
    std::vector<Op> h;
    for (auto& w : words(t))
    {
        Op o{};
        std::stringstream ss(w);
        std::string x;
        std::getline(ss, x, ',');
        o.k = std::stoi(x);
        for (int i = 0; i < 6 && std::getline(ss, x, ','); ++i) o.a[i] = std::stoi(x);
        if (o.k >= 0 && o.k < NOPS) h.push_back(o);
    }
    return h;
}

static const int base[NOPS] = {
    4, 2, 3, 3, 3, 14, 12, 4, 4, 2, 8, 4, 4, 4, 4, 3, 3, 3, 6, 2, 2, 2, 2, 2, 2, 2, 3, 3, 3, 3, 3, 2, 1, 1, 1, 1, 1, 1, 1, 3, 2, 2, 1, 2, 2, 3, 2 };
static std::map<std::string, std::vector<int>> focus = {
    { "P01", { ADDKEY, ADDUNIQ, ADDUNIQF, UPDATEKEY, REMOVEKEY, KEYOBS } }, { "P02", { CREATE, ADDUNIQF, UPDATEKEY } }, { "P03", { SETDATA, SETLIST, REFOBS, SORTED } },
    { "P04", { SETDATA, ERASEVAL, ERASEREF, CREATE, GETRECS } }, { "P05", { REQ, CREATE } }, { "P06", { REQC, CREATE } }, { "P07", { ADDUNIQ, ADDUNIQF, CREATE, SETDATA, SETLIST, VCOPYC, VCOPYA } },
    { "P08", { SORTED, SORTBY, CREATE, SETDATA } }, { "P09", { ERASEREF, ERASEVAL, ERASEVALS, DROPDATA, DROPVAULT, CREATE } },
    { "P10", { JOIN, EXCLUDE, INTERSECT, UNION, INTERSECTION, SEQ, REQ, SADD } }, { "P11", { SADD, REQ, SCOPYA, SCOPYC, SMOVEA, SMOVEC, SREMREF, SREMVALS, ERASEVALS, SETDATA, SCLEAR, SNEW } },
    { "P12", { RCOPY, RMOVE, RSELF, RRESET, ERASEREF, ERASEVAL, GETREC, REFOBS, DROPDATA } }, { "P13", { VCOPYC, VCOPYA, VMOVEC, VMOVEA, UPDATEKEY, REQ } },
    { "P23", { GETREC, UPDATEKEY, ADDUNIQ, ADDUNIQF, SETDATA, REQ, REQC, KEYOBS, REFOBS, SADD, JOIN } } };

static std::string makeCase(Rng& g, long)
{
    int w[NOPS], tot = 0;
    for (int i = 0; i < NOPS; ++i) w[i] = base[i];
    for (int x : focus[gProp]) w[x] += 14;
    for (int x : w) tot += x;
    std::vector<Op> h;
    auto add = [&](int k) { Op o; o.k = k; for (int& x : o.a) x = g(10000); h.push_back(o); };
    int used = 1 + g(NV), keys = 1 + g(4);
    for (int i = 0; i < keys; ++i) { add(g.chance(25) ? ADDUNIQ : ADDKEY); h.back().a[0] = g(used); }
    int n0 = g(7);
    for (int i = 0; i < n0; ++i) { add(CREATE); h.back().a[0] = g(used); }
    int n = 4 + g(36);
    for (int i = 0; i < n; ++i)
    {
        int x = g(tot), k = 0;
        while (x >= w[k]) x -= w[k++];
        add(k);
        // keep most of the activity in few vaults and sets, so that things meet
        if (g.chance(70)) h.back().a[0] = h.back().a[0] / 100 * 100 * 0 + (k == REQ || k == REQC || k == GETREC || k == GETRECS || k == SORTED || k == SORTBY || k == KEYOBS ? g(100) + 100 * g(2) * 1 : g(2));
    }
    // the end: vaults and sets go one after the other
    if (g.chance(50))
        for (int i = 0, x = g(NV); i < NV; ++i, x = (x + 1) % NV) { add(g.chance(50) ? DROPVAULT : g.chance(60) ? DROPDATA : VNEW); h.back().a[0] = x; }
    return enc(h);
}

int main(int argc, char** argv)
{
    if (argc < 4) return 2;
    gProp = argv[2];
    bool replay = std::string(argv[1]) == "replay";
    bool warm = false;
    long leakBase = 0;
    CaseHarness c;
    c.make = makeCase;
    c.run = [&](const std::string& t) {
        std::vector<Op> h = dec(t);
        if (!replay) { if (std::fseek(stderr, 0, SEEK_SET) == 0) { if (ftruncate(2, 0)) {} } }
        long before = gLive;
        std::unique_ptr<World> w(new World);
        w->verbose = replay;
        try { for (auto& o : h) w->exec(o); }
        catch (const Mismatch&) { throw; }
        std::fprintf(stderr, "@op P11 P12 end\n");
        w->own = "P11 P12";
        w.reset();
        if (warm) EXPECT(gLive <= before, "P12 P14", "memory not released at the end of the history: " << gLive - before << " blocks");
        warm = true;
        (void)leakBase;
    };
    c.shrink = [](const std::string& t) {
        std::vector<std::string> out;
        std::vector<Op> h = dec(t);
        for (std::size_t n = h.size() / 2; n >= 1; n /= 2)
            for (std::size_t i = 0; i + n <= h.size(); i += n)
            {
                std::vector<Op> q(h.begin(), h.begin() + long(i));
                q.insert(q.end(), h.begin() + long(i + n), h.end());
                out.push_back(enc(q));
            }
        return out;
    };
    c.nontrivial = [](const std::string& t) { return dec(t).size() > 5; };
    return caseMain(argc, argv, c);
}
