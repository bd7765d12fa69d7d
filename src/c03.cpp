// C03: every query returns exactly the records that satisfy it (all contents x all requests within bounds, oracle: record-by-record filter).
#include "enumx.hpp"
#include "MVault.h"
#include <map>
#include <memory>
#include <variant>
#include <sstream>
using namespace mvlt; using namespace mc;
using RC = VaultOperationResultCode;
struct R { int a; std::string s; int u; };
static const char* SV[] = {"a", "b"};
struct Content { std::vector<R> r; };
static std::vector<Content> contents(int maxN)
{   // all multisets of up to maxN records over A in 0..2, S in {a,b}; U numbers the records
    std::vector<Content> out; std::vector<int> pick;
    std::function<void(int)> go = [&](int from)
    {
        Content c; for (size_t i = 0; i < pick.size(); ++i) c.r.push_back({pick[i] / 2, SV[pick[i] % 2], (int)((i * 7 + 3) % 11)});
        out.push_back(c); if ((int)pick.size() == maxN) return;
        for (int k = from; k < 6; ++k) { pick.push_back(k); go(k); pick.pop_back(); }
    };
    go(0); return out;
}
static std::string show(const Content& c) { std::string o = "["; for (auto& r : c.r) o += "(" + std::to_string(r.a) + "," + r.s + "," + std::to_string(r.u) + ")"; return o + "]"; }
using Pred = std::function<bool(const VaultRecordRef&)>; using RPred = std::function<bool(const R&)>;
static bool refA(const VaultRecordRef& r, int m) { int a = 0; r.GetData("A", a); return a % 2 == m; }
static const char* predName[] = {"default", "A odd", "S==a", "never", "U>4"};
static Pred pred(int i)
{
    switch (i) { case 1: return [](const VaultRecordRef& r) { return refA(r, 1); }; case 2: return [](const VaultRecordRef& r) { std::string s; r.GetData("S", s); return s == "a"; };
    case 3: return [](const VaultRecordRef&) { return false; }; default: return [](const VaultRecordRef& r) { int u = 0; r.GetData("U", u); return u > 4; }; }
}
static bool rpred(int i, const R& r) { switch (i) { case 0: return true; case 1: return r.a % 2 == 1; case 2: return r.s == "a"; case 3: return false; default: return r.u > 4; } }
template <class T> static bool cmp(int kind, const T& v, const T& x) { switch (kind) { case 0: return v == x; case 1: return v > x; case 2: return v >= x; case 3: return v < x; default: return v <= x; } }
static const char* kn[] = {"==", ">", ">=", "<", "<="};
struct Bed
{   // one vault with the content, a full set and a partial set
    Vault v, other; VaultRecordSet all, part, reused, foreign; std::vector<R> rec, recPart; std::vector<std::vector<std::pair<std::string, std::string>>> before; size_t turn = 0;
    explicit Bed(const Content& c) : rec(c.r)
    {
        v.AddKey("A", 0); v.AddKey("S", std::string()); v.AddUniqueKey<int>("U");
        for (auto& r : rec) v.CreateRecord({{"A", r.a}, {"S", r.s}, {"U", r.u}});
        v.RequestGreaterOrEqual("U", -100, all); v.RequestGreaterOrEqual("A", 1, part); for (auto& r : rec) if (r.a >= 1) recPart.push_back(r);
        other.AddKey("Q", 1); other.CreateRecord({}); before = strs();
    }
    std::vector<std::vector<std::pair<std::string, std::string>>> strs() { auto s = v.ToStrings(); std::sort(s.begin(), s.end()); return s; }
    void unchanged() { ok(strs() == before, "a request changed the records it searched"); ok(v.Size() == rec.size() && all.Size() == rec.size() && part.Size() == recPart.size(), "a request changed the size of what it searched"); }
    // run f(box, destination) on the three boxes and compare with the filter; limit = number of records wanted
    template <class F> void query(F f, const RPred& want, size_t limit, const std::string& what, unsigned long& n, unsigned long& nt)
    {
        for (int b = 0; b < 3; ++b)
        {
            auto& src = b == 2 ? recPart : rec; std::set<int> wantU; for (auto& r : src) if (want(r)) wantU.insert(r.u);
            VaultRecordSet fresh; VaultRecordSet* dst = &fresh; switch (turn++ % 3) { case 1: dst = &reused; break; case 2: other.RequestEqual("Q", 1, foreign); dst = &foreign; }
            VaultOperationResult res = b == 0 ? f(v, *dst) : b == 1 ? f(all, *dst) : f(part, *dst);
            ++n; if (!wantU.empty() && wantU.size() < src.size()) ++nt;
            auto at = [&] { static const char* bn[] = {"vault", "set of all", "set A>=1"}; return what + " on " + bn[b]; };
            if (!res.IsOperationSuccess || res.ResultCode != RC::Success) fail(at() + ": result " + res.ResultCodeString());
            std::set<int> got; for (auto& r : dst->GetSortedRecords("U")) { int u = -1; r.GetData("U", u); if (!got.insert(u).second) fail(at() + ": record twice in the result"); }
            size_t wantN = std::min(limit, wantU.size());
            if (dst->Size() != wantN || got.size() != wantN) fail(at() + ": " + std::to_string(dst->Size()) + "/" + std::to_string(got.size()) + " records, want " + std::to_string(wantN));
            for (int u : got) if (!wantU.count(u)) fail(at() + ": contains the record with U=" + std::to_string(u) + " which does not match");
        }
    }
};
// ------------------------------------------------------------------ request objects
using Node = std::variant<Equal, Greater, GreaterOrEqual, Less, LessOrEqual, And, Or>;
struct Leaf { int kind; char key; int x; int pr; };
static std::string show(const Leaf& l) { std::string s(1, l.key); s += kn[l.kind]; s += l.key == 'S' ? std::string("\"") + (char)l.x + "\"" : std::to_string(l.x); if (l.pr) s += std::string("{") + predName[l.pr] + "}"; return s; }
template <class Q> static Q mk(const Leaf& l)
{
    if (l.key == 'S') return l.pr ? Q("S", std::string(1, (char)l.x), pred(l.pr)) : Q("S", std::string(1, (char)l.x));
    std::string k(1, l.key); return l.pr ? Q(k, l.x, pred(l.pr)) : Q(k, l.x);
}
static Node node(const Leaf& l) { switch (l.kind) { case 0: return mk<Equal>(l); case 1: return mk<Greater>(l); case 2: return mk<GreaterOrEqual>(l); case 3: return mk<Less>(l); default: return mk<LessOrEqual>(l); } }
static bool eval(const Leaf& l, const R& r) { bool b = l.key == 'A' ? cmp(l.kind, r.a, l.x) : l.key == 'U' ? cmp(l.kind, r.u, l.x) : cmp(l.kind, r.s, std::string(1, (char)l.x)); return b && rpred(l.pr, r); }
struct Tree { int op = -1; Leaf l{}; std::vector<Tree> c; };   // op 0 And, 1 Or, -1 leaf
static bool eval(const Tree& t, const R& r) { if (t.op < 0) return eval(t.l, r); bool a = eval(t.c[0], r), b = eval(t.c[1], r); return t.op ? a || b : a && b; }
static std::string show(const Tree& t) { return t.op < 0 ? show(t.l) : "(" + show(t.c[0]) + (t.op ? " or " : " and ") + show(t.c[1]) + ")"; }
static Node join(int op, int form, const Node& a, const Node& b)
{
    return std::visit([&](const auto& x, const auto& y) -> Node
    {
        if (form & 1) { if (op) return x || y; return x && y; }
        if (op) return Or(x, y);
        return And(x, y);
    }, a, b);
}
// form 0/1: constructor/operator on temporaries that die before the query; 2/3: the same, then copied, assigned and moved around
static Node buildT(const Tree& t, int form)
{
    if (t.op < 0) return node(t.l);
    Node n = join(t.op, form, buildT(t.c[0], form), buildT(t.c[1], form));
    if (form & 2) { Node c = n; n = node({0, 'A', 77, 0}); Node d = node({0, 'A', 78, 0}); d = c; n = std::move(c); { Node e2 = d; d = e2; } return form == 2 ? n : d; }
    return n;
}
static void queryTree(Bed& b, const Tree& t, int form, unsigned long& n, unsigned long& nt)
{
    Node nd = buildT(t, form);
    b.query([&](auto& box, VaultRecordSet& dst) { return std::visit([&](const auto& q) { return box.Request(q, dst); }, nd); }, [&](const R& r) { return eval(t, r); }, (size_t)-1, show(t) + " form " + std::to_string(form), n, nt);
}
#ifdef MC_SMALL
constexpr int MAXREC = 2;
#else
constexpr int MAXREC = 4;
#endif
int main(int argc, char** argv)
{
    Enumerator e;
    return e.run(argc, argv, [](Enumerator& e)
    {
        auto cs = std::make_shared<std::vector<Content>>(contents(MAXREC + g_thorough));
        auto showC = [cs](size_t i) { return "records " + show((*cs)[i % cs->size()]); };
        e.secs.push_back({"direct", cs->size() * 3, [cs](size_t i)
        {
            Bed b((*cs)[i % cs->size()]); unsigned long n = 0, nt = 0; size_t N = b.rec.size(); int key = i / cs->size();
            auto one = [&](const std::string& k, auto x, auto get)
            {
                std::ostringstream xs; xs << x;
                for (int kind = 0; kind < 5; ++kind) for (size_t lim : {size_t(0), size_t(1), size_t(2), N, size_t(-1)}) for (int p = 0; p < 5; ++p)
                    b.query([&](auto& box, VaultRecordSet& d)
                    {
                        if (!p) switch (kind) { case 0: return box.RequestEqual(k, x, d, lim); case 1: return box.RequestGreater(k, x, d, lim); case 2: return box.RequestGreaterOrEqual(k, x, d, lim); case 3: return box.RequestLess(k, x, d, lim); default: return box.RequestLessOrEqual(k, x, d, lim); }
                        switch (kind) { case 0: return box.RequestEqual(k, x, d, lim, pred(p)); case 1: return box.RequestGreater(k, x, d, lim, pred(p)); case 2: return box.RequestGreaterOrEqual(k, x, d, lim, pred(p)); case 3: return box.RequestLess(k, x, d, lim, pred(p)); default: return box.RequestLessOrEqual(k, x, d, lim, pred(p)); }
                    }, [&](const R& r) { return cmp(kind, get(r), x) && rpred(p, r); }, lim, k + kn[kind] + xs.str() + " limit " + std::to_string((long)lim) + " predicate " + predName[p], n, nt);
            };
            if (key == 0) for (int x = -1; x <= 3; ++x) one("A", x, [](const R& r) { return r.a; });
            if (key == 1) for (const char* x : {"", "a", "aa", "b", "c"}) one("S", std::string(x), [](const R& r) { return r.s; });
            if (key == 2) for (int x : {-1, 3, 4, 10, 6, 11}) one("U", x, [](const R& r) { return r.u; });
            b.unchanged(); evals(n, nt);
        }, showC, "every comparison x value x limit x predicate on the vault, a full and a partial record set", 60, 1});
        e.secs.push_back({"interval", cs->size() * 3, [cs](size_t i)
        {
            Bed b((*cs)[i % cs->size()]); unsigned long n = 0, nt = 0; int key = i / cs->size();
            auto one = [&](const std::string& k, auto x, auto y, auto get)
            {
                std::ostringstream xs; xs << k << " from " << x << " to " << y;
                for (int inc = 0; inc < 4; ++inc) for (size_t lim : {size_t(0), size_t(1), size_t(-1)}) for (int p = 0; p < 3; ++p)
                    b.query([&](auto& box, VaultRecordSet& d) { return p ? box.RequestInterval(k, x, y, d, inc & 1, inc & 2, lim, pred(p)) : box.RequestInterval(k, x, y, d, inc & 1, inc & 2, lim); },
                        [&](const R& r) { auto v = get(r); return (inc & 1 ? v >= x : v > x) && (inc & 2 ? v <= y : v < y) && rpred(p, r); }, lim, xs.str() + (inc & 1 ? " incl" : " excl") + (inc & 2 ? " incl" : " excl") + " limit " + std::to_string((long)lim) + " predicate " + predName[p], n, nt);
            };
            if (key == 0) for (int x = -1; x <= 3; ++x) for (int y = -1; y <= 3; ++y) one("A", x, y, [](const R& r) { return r.a; });
            if (key == 1) for (const char* x : {"", "a", "aa", "b", "c"}) for (const char* y : {"", "a", "aa", "b", "c"}) one("S", std::string(x), std::string(y), [](const R& r) { return r.s; });
            if (key == 2) for (int x : {0, 3, 5, 10, 11}) for (int y : {0, 3, 5, 10, 11}) one("U", x, y, [](const R& r) { return r.u; });
            b.unchanged(); evals(n, nt);
        }, showC, "every begin x end x inclusion x limit x predicate", 60, 1});
        std::vector<Leaf> ls; for (int k = 0; k < 5; ++k) { for (int x = 0; x <= 2; ++x) ls.push_back({k, 'A', x, x == 1 ? 4 : 0}); ls.push_back({k, 'A', 1, 0}); ls.push_back({k, 'S', 'a', 0}); ls.push_back({k, 'S', 'b', 1}); ls.push_back({k, 'U', 10, 2}); }
        e.secs.push_back({"pairs", cs->size() * 4, [cs, ls](size_t i)
        {
            Bed b((*cs)[i % cs->size()]); unsigned long n = 0, nt = 0; int form = i / cs->size();
            for (auto& x : ls) { queryTree(b, Tree{-1, x, {}}, form, n, nt); for (auto& y : ls) for (int op = 0; op < 2; ++op) queryTree(b, Tree{op, {}, {Tree{-1, x, {}}, Tree{-1, y, {}}}}, form, n, nt); }
            b.unchanged(); evals(n, nt);
        }, [cs](size_t i) { return "records " + show((*cs)[i % cs->size()]) + " form " + std::to_string(i / cs->size()); }, "every And/Or of two of " + std::to_string(ls.size()) + " comparisons, built by constructor and operator, stored and copied", 120, 1});
        // many records: groups of every size, all limits around the group and record counts
        static std::vector<Content> big; big.clear();
        for (int n : std::vector<int>{MAXREC < 4 ? 17 : 33, MAXREC < 4 ? 20 : 130}) for (int g : {1, 2, 3}) { Content c; for (int k = 0; k < n; ++k) c.r.push_back({g == 1 ? 1 : g == 2 ? k % 2 * 2 : (k * k + k / 5) % 3, SV[(k / 3) % 2], k * (n % 2 ? 5 : 7) % (n % 2 ? 1009 : 1013)}); big.push_back(c); }
        e.secs.push_back({"large", big.size() * 7, [](size_t i)
        {
            Bed b(big[i % big.size()]); unsigned long n = 0, nt = 0; size_t N = b.rec.size(); int part = i / big.size();
            for (int kind = 0; kind < 5; ++kind) for (size_t lim : {size_t(0), size_t(1), size_t(2), size_t(7), size_t(8), size_t(9), size_t(15), size_t(16), size_t(17), N / 2, N / 2 + 1, N - 1, N, N + 1, size_t(-1)}) for (int p = 0; p < 5; ++p)
            {
                auto rq = [&](const char* k, auto x) { return [=](auto& box, VaultRecordSet& d) { auto P = p ? pred(p) : Pred([](const VaultRecordRef&) { return true; }); switch (kind) { case 0: return box.RequestEqual(k, x, d, lim, P); case 1: return box.RequestGreater(k, x, d, lim, P); case 2: return box.RequestGreaterOrEqual(k, x, d, lim, P); case 3: return box.RequestLess(k, x, d, lim, P); default: return box.RequestLessOrEqual(k, x, d, lim, P); } }; };
                std::string at = std::string(kn[kind]) + " limit " + std::to_string((long)lim) + " predicate " + predName[p];
                if (part < 3) b.query(rq("A", part), [&](const R& r) { return cmp(kind, r.a, part) && rpred(p, r); }, lim, "A" + at, n, nt);
                else if (part == 3) b.query(rq("S", std::string("a")), [&](const R& r) { return cmp(kind, r.s, std::string("a")) && rpred(p, r); }, lim, "S" + at, n, nt);
                else if (part == 4) for (int x : {b.rec[0].u, b.rec[N / 2].u, b.rec[N - 1].u, 500}) b.query(rq("U", x), [&](const R& r) { return cmp(kind, r.u, x) && rpred(p, r); }, lim, "U vs " + std::to_string(x) + at, n, nt);
                else if (part == 5) for (int x : {-1, 5, 100}) b.query([&](auto& box, VaultRecordSet& d) { return p ? box.RequestInterval("U", x, 300, d, kind & 1, kind & 2, lim, pred(p)) : box.RequestInterval("U", x, 300, d, kind & 1, kind & 2, lim); }, [&](const R& r) { return (kind & 1 ? r.u >= x : r.u > x) && (kind & 2 ? r.u <= 300 : r.u < 300) && rpred(p, r); }, lim, "U from " + std::to_string(x) + at, n, nt);
            }
            if (part == 6) { std::vector<Leaf> l; for (int k = 0; k < 5; ++k) { l.push_back({k, 'A', 1, 0}); l.push_back({k, 'U', 300, k == 2 ? 1 : 0}); } l.push_back({0, 'S', 'a', 0}); for (auto& x : l) for (auto& y : l) for (int op = 0; op < 2; ++op) for (int f : {0, 3}) queryTree(b, Tree{op, {}, {Tree{-1, x, {}}, Tree{-1, y, {}}}}, f, n, nt); }
            b.unchanged(); evals(n, nt);
        }, [](size_t i) { return std::to_string(big[i % big.size()].r.size()) + " records, distribution " + std::to_string(i % 3) + ", part " + std::to_string(i / big.size()); }, "33 and 130 records in three distributions: every comparison x limits around powers of two and the record count x predicate; And/Or of two of 11 comparisons", 120, 1});
        std::vector<Leaf> l8{{2, 'A', 1, 0}, {3, 'A', 2, 0}, {0, 'A', 1, 0}, {1, 'A', 0, 1}, {4, 'A', 1, 0}, {0, 'S', 'a', 0}, {3, 'S', 'b', 0}, {1, 'U', 4, 0}};
        std::vector<Content> few; for (size_t i = 0; i < cs->size(); ++i) if ((*cs)[i].r.size() >= 3 && (g_thorough || i % 11 == 4)) few.push_back((*cs)[i]);
        e.secs.push_back({"nested", few.size() * 8 * 2, [few, l8](size_t i)
        {
            Bed b(few[i % few.size()]); unsigned long n = 0, nt = 0; size_t r = i / few.size(); auto& x = l8[r % 8]; int form = (r / 8) ? 2 : 1;
            auto L = [](const Leaf& l) { return Tree{-1, l, {}}; }; auto J = [](int op, Tree a, Tree c) { return Tree{op, {}, {std::move(a), std::move(c)}}; };
            for (auto& y : l8) for (auto& z : l8) for (int o = 0; o < 4; ++o)
            {
                queryTree(b, J(o & 1, J(o >> 1, L(x), L(y)), L(z)), form, n, nt); queryTree(b, J(o & 1, L(x), J(o >> 1, L(y), L(z))), form, n, nt);
                for (auto& w : {l8[(r + 1) % 8], l8[3], l8[6]}) for (int o2 = 0; o2 < 2; ++o2) queryTree(b, J(o & 1, J(o >> 1, L(x), L(y)), J(o2, L(z), L(w))), form, n, nt);
            }
            b.unchanged(); evals(n, nt);
        }, [few](size_t i) { return "records " + show(few[i % few.size()]) + " leaf " + std::to_string(i / few.size()); }, "nested And/Or trees of depth 2 over 8 comparisons, temporaries destroyed before the query", 120, 1});
        // deeper trees: chains of five comparisons leaning left, right and both ways, and full trees of eight comparisons
        if (few.empty()) few.push_back(cs->back());
        std::vector<Leaf> l4{{2, 'A', 1, 0}, {3, 'A', 2, 1}, {0, 'S', 'a', 0}, {1, 'U', 4, 0}}; size_t nf = MAXREC < 4 ? 1 : std::min<size_t>(few.size(), g_thorough ? 12 : 3);
        e.secs.push_back({"deep", nf * 3 * 16 * 4, [few, l4](size_t i)
        {
            size_t k = i / 4, ops = k % 16, shape = k / 16 % 3; Bed b(few[(k / 48 * 5 + 1) % few.size()]); unsigned long n = 0, nt = 0; auto L = [&](size_t x) { return Tree{-1, l4[x % 4], {}}; };
            for (size_t c = i % 4; c < 1024; c += 4)
            {
                size_t d = c; Tree t = L(d); for (int q = 0; q < 4; ++q) { d /= 4; bool right = shape == 1 || (shape == 2 && q % 2); Tree x = L(d); int op = ops >> q & 1; t = right ? Tree{op, {}, {x, t}} : Tree{op, {}, {t, x}}; } queryTree(b, t, (c + ops) % 4, n, nt);
            }
            b.unchanged(); evals(n, nt);
        }, [](size_t i) { return "shape " + std::to_string(i / 64 % 3) + " operators " + std::to_string(i / 4 % 16); }, "chains of five comparisons in three shapes x every operator choice x every choice of 4 comparisons", 120, 1});
        e.secs.push_back({"full", nf * 128, [few, l4](size_t i)
        {
            size_t ops = i % 128; Bed b(few[(i / 128 * 5 + 1) % few.size()]); unsigned long n = 0, nt = 0;
            for (size_t c = 0; c < 256; ++c) for (int pair = 0; pair < 2; ++pair)
            {
                std::vector<Tree> t; for (int q = 0; q < 8; ++q) t.push_back(Tree{-1, l4[(c >> q & 1) + 2 * pair], {}}); int bit = 0; while (t.size() > 1) { std::vector<Tree> u; for (size_t q = 0; q < t.size(); q += 2) u.push_back(Tree{int(ops >> bit++ & 1), {}, {t[q], t[q + 1]}}); t = u; } queryTree(b, t[0], (c + ops) % 4, n, nt);
            }
            b.unchanged(); evals(n, nt);
        }, [](size_t i) { return "operators " + std::to_string(i % 128); }, "full trees of eight comparisons x every operator choice x every choice of two comparisons", 120, 1});
        e.secs.push_back({"inline", cs->size(), [cs](size_t i)
        {
            Bed b((*cs)[i]); unsigned long n = 0, nt = 0;
            #define INL(expr, cond) b.query([&](auto& box, VaultRecordSet& d) { return box.Request(expr, d); }, [&](const R& r) { return cond; }, (size_t)-1, #expr, n, nt)
            INL(Greater("A", 0) && Less("A", 2), r.a > 0 && r.a < 2); INL(GreaterOrEqual("A", 1) && LessOrEqual("A", 2), r.a >= 1 && r.a <= 2); INL(Less("A", 2) && Greater("A", 0), r.a > 0 && r.a < 2);
            INL(Greater("A", 0) && Less("A", 2) || Equal("S", std::string("a")), (r.a > 0 && r.a < 2) || r.s == "a"); INL(Or(And(Greater("A", 0), Less("U", 7)), And(Less("A", 1), Equal("S", std::string("b")))), (r.a > 0 && r.u < 7) || (r.a < 1 && r.s == "b"));
            INL((Equal("A", 0) || Equal("A", 2)) && (Equal("S", std::string("a")) || Greater("U", 5)), (r.a == 0 || r.a == 2) && (r.s == "a" || r.u > 5)); INL(GreaterOrEqual("A", 2) && LessOrEqual("A", 1), false); INL(Greater("A", 1) && Less("A", 1), false);
            INL(GreaterOrEqual("A", 0, pred(1)) && Less("A", 9, pred(2)), r.a % 2 == 1 && r.s == "a"); INL(GreaterOrEqual("A", 1) && Less("S", std::string("b")), r.a >= 1 && r.s < "b"); INL(GreaterOrEqual("A", 1) && Less("U", 5), r.a >= 1 && r.u < 5);
            b.unchanged(); evals(n, nt);
        }, showC, "inline expressions", 60, 8});
    });
}
