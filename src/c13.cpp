// C13: the CSV parser splits any well-formed file correctly, whatever its size, and survives every other byte sequence.
#include "enumx.hpp"
#include "csvref.hpp"
#include "CsvParser/CsvParser.h"
#include <memory>
using namespace mvlt; using namespace mc;
#ifdef MC_SMALL
constexpr int SHRINK = 2;
#else
constexpr int SHRINK = 0;
#endif
static constexpr size_t BIG = 10485760, BLOCK = 4096;
static std::string fname() { return g_scratch + "/c13_" + std::to_string(getpid()) + ".csv"; }
static void put(const std::string& t) { int f = open(fname().c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); size_t o = 0; while (o < t.size()) { ssize_t n = write(f, t.data() + o, t.size() - o); if (n <= 0) { perror("write"); _exit(3); } o += n; } close(f); }
static Rows parse(const std::string& t, char sep, size_t maxRows)
{
    put(t); CsvParser p; ok(p.OpenFile(fname()), "OpenFile failed"); Rows r; std::vector<std::string> v{"junk"};
    while (p.GetNextVector(v, sep)) { r.push_back(v); if (r.size() > maxRows) fail("more rows than bytes: the parser does not advance"); }
    for (int i = 0; i < 3; ++i) { v = {"junk"}; ok(!p.GetNextVector(v, sep), "a row after the end of the file"); ok(v.empty(), "output not empty after the end of the file"); }
    ok(!p.IsError(), "read error reported for a readable file"); return r;
}
static std::string nth(const std::string& al, size_t i)
{   // i-th string over al in length-lexicographic order
    size_t len = 0, cnt = 1; while (i >= cnt) { i -= cnt; cnt *= al.size(); ++len; }
    std::string s(len, 0); for (size_t k = len; k-- > 0;) { s[k] = al[i % al.size()]; i /= al.size(); } return s;
}
static size_t upTo(size_t a, int len) { size_t t = 0, c = 1; for (int i = 0; i <= len; ++i) { t += c; c *= a; } return t; }
static void small(Enumerator& e, const std::string& nm, const std::string& al, int len, char sep)
{
    e.secs.push_back({nm, upTo(al.size(), len), [=](size_t i)
    {
        std::string t = nth(al, i); Rows want, got = parse(t, sep, t.size() + 1); bool wf = csvRef(t, sep, want);
        if (wf && got != want) fail("rows " + showRows(got) + " want " + showRows(want));
        evals(1, wf && !want.empty());
    }, [=](size_t i) { return "file \"" + vis(nth(al, i)) + "\" separator " + sep; }, "every text of up to " + std::to_string(len) + " bytes over \"" + vis(al) + "\"", 30, 64});
}
int main(int argc, char** argv)
{
    Enumerator e;
    return e.run(argc, argv, [](Enumerator& e)
    {
        small(e, "comma", "a,\"\r\n", (g_thorough ? 9 : 7) - SHRINK, ',');
        small(e, "semicolon", "a;,\"\n", (g_thorough ? 8 : 6) - SHRINK, ';');
        small(e, "bytes", std::string("\0\xff\x7f \t,\"\n", 8), (g_thorough ? 6 : 4) - SHRINK / 2, ',');
        small(e, "tab", "a\t\"\n ", (g_thorough ? 7 : 5) - SHRINK, '\t');
        // windows placed over block boundaries of a file beyond the large-file threshold
        const std::string al = "a,\"\r\n"; const int wl = g_thorough ? 6 : SHRINK ? 3 : 5; size_t nw = upTo(al.size(), wl);
        struct Win { std::string w; size_t off; }; size_t perFile = BIG / BLOCK - 4; size_t nWin = 0; auto base = std::make_shared<std::vector<size_t>>();
        for (size_t i = 1; i < nw; ++i) { base->push_back(nWin); nWin += nth(al, i).size() + 1; }   // boundary before byte 0..len
        auto winAt = [=](size_t k) { size_t j = std::upper_bound(base->begin(), base->end(), k) - base->begin() - 1; return Win{nth(al, j + 1), k - (*base)[j]}; };
        auto big = [=](size_t fi, std::string& text, Rows& want)
        {
            text.clear(); want.clear(); unsigned long wf = 0; size_t boundary = BLOCK;
            for (size_t k = fi * perFile; k < std::min(nWin, (fi + 1) * perFile); ++k)
            {
                Win w = winAt(k); Rows rows = parse(w.w + "\nZZ\n", ',', 100); if (rows.empty() || rows.back() != std::vector<std::string>{"ZZ"}) continue;   // text that swallows what follows
                rows.pop_back(); Rows ref; if (csvRef(w.w + "\n", ',', ref)) { ++wf; rows = ref; }
                size_t fill = boundary - w.off - text.size() - 1; text.append(fill, 'x'); want.push_back({std::string(fill, 'x')}); text += '\n'; text += w.w; text += '\n'; want.insert(want.end(), rows.begin(), rows.end()); boundary += BLOCK;
            }
            while (text.size() <= BIG) { text.append(4000, 'y'); text += '\n'; want.push_back({std::string(4000, 'y')}); }
            return wf;
        };
        size_t nf = (nWin + perFile - 1) / perFile;
        e.secs.push_back({"blocks", nf, [=](size_t i)
        {
            std::string text; Rows want; unsigned long n = big(i, text, want); Rows got = parse(text, ',', text.size() + 1);
            if (got != want) { size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) ++k; auto s = [](const Rows& r, size_t k) { if (k >= r.size()) return std::string("end"); auto x = r[k]; for (auto& f : x) if (f.size() > 20) f = f.substr(0, 10) + "..." + std::to_string(f.size()); return showRows({x}); }; size_t before = 0; for (size_t q = 0; q < k; ++q) for (auto& f : want[q]) before += f.size() + 1; fail("file of " + std::to_string(text.size()) + " bytes: row " + std::to_string(k) + " is " + s(got, k) + " want " + s(want, k) + " (near byte " + std::to_string(before) + ")"); }
            evals(perFile, n);
        }, [=](size_t i) { return "file " + std::to_string(i) + " with " + std::to_string(perFile) + " windows from \"" + vis(winAt(i * perFile).w) + "\" on, each over one 4096-byte block boundary"; }, "every text of up to " + std::to_string(wl) + " bytes at every position relative to a block boundary of a file larger than 10 MiB", 300, 1});
        // whole files of particular sizes: one field, one quoted field with everything in it, many fields, many rows
        static const std::vector<size_t> base2 = SHRINK ? std::vector<size_t>{4096, 8192} : std::vector<size_t>{16, 256, 1024, 4096, 8192, 12288, 32768, 65536, 131072, 1 << 20, BIG - BLOCK, BIG, BIG + BLOCK};
        static const std::vector<int> dist = SHRINK ? std::vector<int>{-1, 0, 1} : std::vector<int>{-3, -2, -1, 0, 1, 2, 3}; const size_t shapes = 6;
        e.secs.push_back({"sizes", base2.size() * dist.size() * shapes, [=](size_t i)
        {
            size_t sh = i % shapes, size = base2[i / shapes % base2.size()] + dist[i / shapes / base2.size()]; std::string t; Rows want;
            switch (sh)
            {
            case 0: t.assign(size, 'x'); break;
            case 1: t = "\""; while (t.size() + 10 < size) { const char* u[] = {"\"\"", "\r\n", ",", "\n", "a", "\"\"\"\""}; t += u[t.size() % 7 % 6]; } t.append(size - 1 - t.size(), 'z'); t += '"'; break;
            case 2: for (size_t k = 0; k < size; ++k) t += k % 3 == 2 ? ',' : 'f'; break;
            case 3: for (size_t k = 0; k < size; ++k) t += k % 5 == 4 ? '\n' : k % 5 == 2 ? ',' : 'r'; break;
            case 4: while (t.size() + 12 < size) t += t.size() % 2 ? "\"q\"\"\",b\r\n" : "c,\"\n\"\n"; t.append(size - t.size(), 'e'); break;
            default: t.assign(size, ','); break;
            }
            ok(t.size() == size && csvRef(t, ',', want), "harness"); Rows got = parse(t, ',', t.size() + 1);
            if (got != want) { size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) ++k; fail("file of " + std::to_string(size) + " bytes: " + std::to_string(got.size()) + " rows want " + std::to_string(want.size()) + ", the first wrong one is row " + std::to_string(k)); }
            evals(1, 1);
        }, [=](size_t i) { return "shape " + std::to_string(i % shapes) + " of " + std::to_string(base2[i / shapes % base2.size()] + dist[i / shapes / base2.size()]) + " bytes"; }, "six shapes of files at sizes around powers of two, the block size and the large-file threshold", 120, 1});
        // ends of large files: every size residue x every short ending
        auto ends = std::make_shared<std::vector<std::string>>(std::vector<std::string>{"a", "\n", ",", "\r\n", "\"\"", "a,\n"});
        if (!SHRINK) for (const char* s : {"\"\"\"\"", "\"a\n\"", "\"a\"\r\n", "a,", "a\n\n", ",\"\""}) ends->push_back(s);
        static const std::vector<size_t> res = SHRINK ? std::vector<size_t>{0, 1, 4095} : g_thorough ? std::vector<size_t>{0, 1, 2, 3, 4, 4092, 4093, 4094, 4095, 2048} : std::vector<size_t>{0, 1, 2, 4095};
        e.secs.push_back({"ends", ends->size() * (res.size() + 2), [=](size_t i)
        {
            std::string en = (*ends)[i % ends->size()]; size_t r = i / ends->size(), size = r < res.size() ? BIG + BLOCK + res[r] : BIG + (r - res.size());   // the last two: exactly the threshold and one more
            std::string text; Rows want; while (text.size() + 4200 + en.size() < size) { text.append(4095, 'y'); text += '\n'; } size_t fill = size - en.size() - text.size() - 1; text.append(fill, 'x'); text += '\n'; text += en;
            ok(text.size() == size && csvRef(text, ',', want), "harness"); Rows got = parse(text, ',', text.size() + 1); if (got != want) fail("file of " + std::to_string(size) + " bytes: " + std::to_string(got.size()) + " rows want " + std::to_string(want.size()) + ", last rows " + (got.empty() ? "" : vis(showRows({got.back()}))) + " want " + vis(showRows({want.back()})));
            evals(1, 1);
        }, [=](size_t i) { size_t r = i / ends->size(); return "file of " + std::to_string(r < res.size() ? BIG + BLOCK + res[r] : BIG + (r - res.size())) + " bytes ending in \"" + vis((*ends)[i % ends->size()]) + "\""; }, "file ends at block-size residues and at the large-file threshold", 120, 1});
    });
}
