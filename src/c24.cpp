// C24: identifiers for every single- and multi-bit variation of what the (replaced) random source delivers.
#include "enumx.hpp"
#include "Uuid/Uuid.h"
#include <random>
#include <memory>
using namespace mvlt; using namespace mc;
#ifdef MC_SMALL
constexpr int SHRINK = 1;
#else
constexpr int SHRINK = 0;
#endif
static std::vector<unsigned> g_words; static size_t g_draw;
// Replaces the system's random source for the whole program.
std::random_device::result_type std::random_device::_M_getval() { size_t k = g_draw++; return k < g_words.size() ? g_words[k] : 0x9e3779b9u * (unsigned)(k + 1); }
static std::string gen(const std::vector<unsigned>& w) { g_words = w; g_draw = 0; return Uuid(); }
static void form(const std::string& u, const std::string& at)
{
    ok(u.size() == 36, at + "length " + std::to_string(u.size()) + ": " + vis(u));
    for (size_t i = 0; i < 36; ++i) { char c = u[i]; if (i == 8 || i == 13 || i == 18 || i == 23) ok(c == '-', at + "no dash at " + std::to_string(i) + ": " + vis(u)); else ok((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f'), at + "not a lower-case hex digit at " + std::to_string(i) + ": " + vis(u)); }
    ok(u[14] == '4', at + "version is not 4: " + u); ok(u[19] == '8' || u[19] == '9' || u[19] == 'a' || u[19] == 'b', at + "variant is not RFC 4122: " + u);
}
static std::vector<std::vector<unsigned>> bases()
{
    std::vector<std::vector<unsigned>> b; for (unsigned p : {0u, 0xffffffffu, 0x55555555u, 0xaaaaaaaau, 0x00000001u, 0x80000000u, 0x0f0f0f0fu, 0x12345678u}) b.push_back(std::vector<unsigned>(4, p)); b.push_back({0x01234567, 0x89abcdef, 0xfedcba98, 0x76543210}); b.push_back({0xffffffff, 0, 0xffffffff, 0}); b.push_back({0, 0, 0, 0xffffffff}); b.push_back({0xffffffff, 0xffffffff, 0, 0}); return b;
}
int main(int argc, char** argv)
{
    Enumerator e;
    return e.run(argc, argv, [](Enumerator& e)
    {
        static const auto B = bases(); const size_t nb = SHRINK ? 3 : B.size();
        // all flips of up to 2 (thorough: 3 for the first base) of the delivered bits
        e.secs.push_back({"flips", nb, [=](size_t i)
        {
            auto base = B[i]; std::string u = gen(base); size_t draws = g_draw; form(u, "base: "); ok(draws > 0, "the random source is not used"); base.resize(draws); for (size_t k = 4; k < draws; ++k) base[k] = 0x9e3779b9u * (unsigned)(k + 1);
            std::vector<size_t> eff; std::set<std::string> seen{u}; unsigned long n = 1;
            for (size_t b = 0; b < draws * 32; ++b) { auto w = base; w[b / 32] ^= 1u << b % 32; std::string x = gen(w); form(x, "bit " + std::to_string(b) + ": "); ++n; if (x != u) { eff.push_back(b); ok(seen.insert(x).second, "flipping bit " + std::to_string(b) + " gives an identifier another flip gives: " + x); } }
            ok(eff.size() >= 122, "only " + std::to_string(eff.size()) + " of the delivered random bits reach the identifier");
            for (size_t a = 0; a < eff.size(); ++a) for (size_t c = a + 1; c < eff.size(); ++c) { auto w = base; w[eff[a] / 32] ^= 1u << eff[a] % 32; w[eff[c] / 32] ^= 1u << eff[c] % 32; std::string x = gen(w); form(x, "two bits: "); ++n; if (!seen.insert(x).second) fail("flipping bits " + std::to_string(eff[a]) + " and " + std::to_string(eff[c]) + " gives an identifier seen before: " + x); }
            if (g_thorough) for (size_t a = 0; a < eff.size(); ++a) for (size_t c = a + 1; c < eff.size(); ++c) for (size_t d = c + 1; d < eff.size(); ++d) { auto w = base; for (size_t z : {eff[a], eff[c], eff[d]}) w[z / 32] ^= 1u << z % 32; std::string x = gen(w); form(x, "three bits: "); ++n; if (!seen.insert(x).second) fail("three flips give an identifier seen before: " + x); }
            evals(n, n);
        }, [](size_t i) { char b[64]; snprintf(b, sizeof b, "base words %08x %08x %08x %08x", B[i][0], B[i][1], B[i][2], B[i][3]); return std::string(b); }, "every flip of 1 and 2 (thorough 3) of the 128 delivered bits from 12 base patterns", 120, 1});
        // every byte value at every position of the delivered bytes
        e.secs.push_back({"bytes", 16 * nb, [=](size_t i)
        {
            auto base = B[i / 16]; size_t p = i % 16; std::set<std::string> s; for (int v = 0; v < 256; ++v) { auto w = base; unsigned sh = p % 4 * 8; w[p / 4] = (w[p / 4] & ~(0xffu << sh)) | (unsigned)v << sh; std::string x = gen(w); form(x, "byte: "); s.insert(x); } ok(s.size() >= 16, "delivered byte " + std::to_string(p) + " takes only " + std::to_string(s.size()) + " forms in the identifier"); evals(256, 256);
        }, [](size_t i) { return "byte " + std::to_string(i % 16) + " over base " + std::to_string(i / 16); }, "every value of every delivered byte", 20, 1});
        // consecutive identifiers, temporary file names
        e.secs.push_back({"names", 12, [=](size_t i)
        {
            static const std::vector<std::string> pre{"", "a", "MVault_", "with space", "-", "0", std::string(300, 'p'), "/x", ".", "\xc3\xa9", "tmp/", "%s"}; std::string p = pre[i]; g_words.clear(); g_draw = 0; std::set<std::string> seen;
            for (int k = 0; k < 200; ++k) { std::string t = GenTmpFileName(p); ok(t.compare(0, 5 + p.size(), "/tmp/" + p) == 0, "name is " + vis(t)); std::string u = t.substr(5 + p.size()); form(u, "name: "); ok(seen.insert(u).second, "name repeated"); } evals(200, 200);
            g_words = B[8]; g_draw = 0; std::string a = GenTmpFileName(p); std::string u = gen(B[8]); ok(a == "/tmp/" + p + u, "the name does not end in the identifier of the delivered bits: " + vis(a));
        }, [](size_t i) { return "prefix case " + std::to_string(i); }, "12 prefixes x 200 names", 20, 1});
    });
}
