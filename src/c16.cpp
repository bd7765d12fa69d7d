// C16: text <-> value conversion, compared with an exact reference written from the grammar.
#include "enumx.hpp"
#include "MVault.h"
#include <cfloat>
#include <cmath>
#include <limits>
#include <locale>
#include <memory>
using namespace mvlt; using namespace mc;
#ifdef MC_SMALL
constexpr int SHRINK = 1;
#else
constexpr int SHRINK = 0;
#endif
template <class T> struct Nm; 
#define NM(T, n) template <> struct Nm<T> { static const char* s() { return n; } };
NM(std::int8_t, "int8") NM(std::uint8_t, "uint8") NM(std::int16_t, "int16") NM(std::uint16_t, "uint16") NM(std::int32_t, "int32") NM(std::uint32_t, "uint32") NM(std::int64_t, "int64") NM(std::uint64_t, "uint64") NM(bool, "bool") NM(float, "float") NM(double, "double") NM(std::string, "string")
// ---- reference
static bool digitsOnly(const std::string& s, size_t i) { if (i >= s.size()) return false; for (; i < s.size(); ++i) if (s[i] < '0' || s[i] > '9') return false; return true; }
template <class T> static bool ref(const std::string& s, T& out)
{
    if constexpr (std::is_same_v<T, std::string>) { out = s; return true; }
    else if constexpr (std::is_same_v<T, bool>) { if (s == "true") { out = true; return true; } if (s == "false") { out = false; return true; } return false; }
    else if constexpr (std::is_floating_point_v<T>)
    {
        size_t i = !s.empty() && s[0] == '-', dots = 0, digs = 0; for (; i < s.size(); ++i) if (s[i] == '.') ++dots; else if (s[i] >= '0' && s[i] <= '9') ++digs; else return false; if (dots > 1 || !digs) return false;
        T x; if constexpr (std::is_same_v<T, float>) x = strtof(s.c_str(), nullptr); else x = strtod(s.c_str(), nullptr); if (std::isinf(x)) return false; out = x; return true;
    }
    else
    {
        bool neg = std::is_signed_v<T> && !s.empty() && s[0] == '-'; if (!digitsOnly(s, neg)) return false;
        std::string d = s.substr(neg); d.erase(0, std::min(d.find_first_not_of('0'), d.size() - 1));   // decimal comparison: no arithmetic that could wrap
        std::string lim = neg ? std::to_string(std::numeric_limits<T>::min()).substr(1) : std::to_string(std::numeric_limits<T>::max()); if (d.size() > lim.size() || (d.size() == lim.size() && d > lim)) return false;
        unsigned long long m = strtoull(d.c_str(), nullptr, 10); out = (T)(neg ? 0 - m : m); return true;
    }
}
template <class T> static bool same(const T& a, const T& b) { if constexpr (std::is_floating_point_v<T>) return memcmp(&a, &b, sizeof(T)) == 0 || a == b; else return a == b; }
template <class T> static T sentinel(int k) { if constexpr (std::is_same_v<T, std::string>) return k ? "old" : ""; else if constexpr (std::is_same_v<T, bool>) return k; else return k ? T(77) : T(0); }
static unsigned long g_n = 0, g_acc = 0;
template <class T> static std::string tos(const T& x) { if constexpr (std::is_same_v<T, std::string>) return x; else { char b[64]; if constexpr (std::is_floating_point_v<T>) snprintf(b, sizeof b, "%.17g", (double)x); else if constexpr (std::is_signed_v<T>) snprintf(b, sizeof b, "%lld", (long long)x); else snprintf(b, sizeof b, "%llu", (unsigned long long)x); return b; } }
template <class T> static void parse(const std::string& s, bool saver = false)
{
    T want = sentinel<T>(0); bool w = ref<T>(s, want); ++g_n; g_acc += w;
    for (int k = 0; k < 2; ++k)
    {
        T x = sentinel<T>(k), before = x; bool g = FromString(s, x);
        if (g != w) fail(std::string("FromString<") + Nm<T>::s() + ">(\"" + vis(s) + "\") " + (g ? "accepted as " + vis(tos(x)) : "refused") + ", must be " + (w ? "accepted" : "refused"));
        if (!w && !same(x, before)) fail(std::string("FromString<") + Nm<T>::s() + ">(\"" + vis(s) + "\") refused but changed the target to " + vis(tos(x)));
        if (w && !same(x, want)) fail(std::string("FromString<") + Nm<T>::s() + ">(\"" + vis(s) + "\") gives " + vis(tos(x)) + " want " + vis(tos(want)));
    }
    if (saver)
    {
        DataSaver d(sentinel<T>(1)); bool g = d.SetDataFromString(s); T x{}; ok(g == w && d.GetData(x) && same(x, w ? want : sentinel<T>(1)), std::string("DataSaver of ") + Nm<T>::s() + " SetDataFromString(\"" + vis(s) + "\")");
    }
}
static void all(const std::string& s, bool saver = false)
{
    parse<std::int8_t>(s, saver); parse<std::uint8_t>(s, saver); parse<std::int16_t>(s, saver); parse<std::uint16_t>(s, saver); parse<std::int32_t>(s, saver); parse<std::uint32_t>(s, saver); parse<std::int64_t>(s, saver); parse<std::uint64_t>(s, saver);
    parse<bool>(s, saver); parse<float>(s, saver); parse<double>(s, saver); parse<std::string>(s, saver);
}
// value -> text -> value
template <class T> static void round(T x, bool saver = false)
{
    std::string s = ToString(x); ++g_n; ++g_acc;
    if constexpr (std::is_floating_point_v<T>)
    {
        T y = T(77), z; if (std::isnan(x) || std::isinf(x)) { if (FromString(s, y) || y != T(77)) fail(std::string("text \"") + s + "\" of a non-number accepted"); return; }
        ok(s == std::to_string(x), std::string("ToString of ") + tos(x) + " is " + s); ok(ref<T>(s, z), "harness"); if (!FromString(s, y) || !same(y, z)) fail(std::string(Nm<T>::s()) + " text " + s + " comes back as " + tos(y) + " want " + tos(z));
    }
    else
    {
        if constexpr (!std::is_same_v<T, bool> && !std::is_same_v<T, std::string>) if (s != tos(x)) fail(std::string("ToString<") + Nm<T>::s() + ">(" + tos(x) + ") is \"" + vis(s) + "\"");
        T y = T(); if (x == y) y = sentinel<T>(1); if (!FromString(s, y) || y != x) fail(std::string(Nm<T>::s()) + " " + vis(tos(x)) + " -> \"" + vis(s) + "\" -> " + vis(tos(y)));
    }
    if (saver) { DataSaver d(x), e(T{}); ok(d.Str() == s, "DataSaver.Str() differs from ToString"); ok(e.SetDataFromString(d.Str()), "DataSaver.SetDataFromString refused " + s); }
}
static std::string nth(const std::string& al, size_t i) { size_t len = 0, cnt = 1; while (i >= cnt) { i -= cnt; cnt *= al.size(); ++len; } std::string s(len, 0); for (size_t k = len; k-- > 0;) { s[k] = al[i % al.size()]; i /= al.size(); } return s; }
static size_t upTo(size_t a, int len) { size_t t = 0, c = 1; for (int i = 0; i <= len; ++i) { t += c; c *= a; } return t; }
// decimal text of lim + d, |d| small, for a 20-digit magnitude
static std::string shift(const std::string& lim, int d) { __int128 v = 0; bool neg = lim[0] == '-'; for (char c : lim) if (c != '-') v = v * 10 + (c - '0'); if (neg) v = -v; v += d; bool n = v < 0; if (n) v = -v; std::string o; do { o.insert(o.begin(), '0' + (int)(v % 10)); v /= 10; } while (v); return (n ? "-" : "") + o; }
struct Comma : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\3"; } };
int main(int argc, char** argv)
{
    Enumerator e;
    return e.run(argc, argv, [](Enumerator& e)
    {
        auto begin = [] { g_n = g_acc = 0; }; auto done = [] { evals(g_n, g_acc); };
        auto texts = [=](Enumerator& e, const char* nm, std::string al, int len) { size_t n = upTo(al.size(), len), ch = 500; e.secs.push_back({nm, (n + ch - 1) / ch, [=](size_t i) { begin(); for (size_t k = i * ch; k < std::min(n, (i + 1) * ch); ++k) all(nth(al, k), false); done(); }, [=](size_t i) { return "texts from \"" + vis(nth(al, i * ch)) + "\" on"; }, "every text of up to " + std::to_string(len) + " characters over \"" + vis(al) + "\" into all 12 types", 60, 1}); };
        texts(e, "numbers", "0129-.+", (g_thorough ? 9 : 7) - SHRINK * 3);
        texts(e, "stray", std::string("05-. \n\te+xX\0\xff/:,", 17), (g_thorough ? 5 : 4) - SHRINK);
        texts(e, "words", "trueflasTF1", (g_thorough ? 6 : 5) - SHRINK * 2);
        // all byte values at every position of good texts
        static const std::vector<std::string> good{"0", "7", "12", "-3", "-128", "255", "127", "32767", "65535", "2147483647", "-2147483648", "4294967295", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "0.5", "-1.25", ".5", "5.", "true", "false", "100000000000000000000"};
        e.secs.push_back({"inserted", good.size() * 256, [=](size_t i) { begin(); std::string g = good[i / 256]; char c = (char)(i % 256); for (size_t p = 0; p <= g.size(); ++p) { std::string s = g; s.insert(p, 1, c); all(s, true); if (p < g.size()) { s = g; s[p] = c; all(s, true); s = g.substr(0, p); all(s, true); } } done(); }, [](size_t i) { return "\"" + good[i / 256] + "\" with byte " + std::to_string(i % 256) + " inserted or substituted at every position"; }, "every byte value inserted/substituted at every position of 22 good texts", 20, 64});
        // boundaries
        {
            static const std::vector<std::string> lims{"0", "-128", "127", "255", "-32768", "32767", "65535", "-2147483648", "2147483647", "4294967295", "-9223372036854775808", "9223372036854775807", "18446744073709551615", "1000", "10000000000000000000", "-10000000000000000000", "99999999999999999999", "36893488147419103232", "184467440737095516150", "-255", "4294967296000", "18446744073709551616000"};
            const int w = g_thorough ? 3000 : SHRINK ? 50 : 400;
            e.secs.push_back({"limits", lims.size() * (2 * w + 1), [=](size_t i) { begin(); std::string s = shift(lims[i / (2 * w + 1)], (int)(i % (2 * w + 1)) - w); all(s, true); bool neg = s[0] == '-'; for (const char* z : {"0", "00", "000000000000000000000000"}) all((neg ? "-" : "") + std::string(z) + s.substr(neg)); all(s + "0"); all(s + "000000000000000000000"); all(s + "."); all(s + ".5"); all("-" + s); all("+" + s); done(); }, [=](size_t i) { return "text " + shift(lims[i / (2 * w + 1)], (int)(i % (2 * w + 1)) - w) + " with leading zeros, extra digits and signs"; }, "every integer within " + std::to_string(w) + " of 22 type limits, with leading zeros, appended digits, point, signs", 20, 64});
        }
        // long digit strings and fractions
        e.secs.push_back({"long", 10 * 60, [=](size_t i) { begin(); char d = '0' + i % 10; static const size_t L[60] = {}; (void)L; size_t len = i / 10 < 50 ? i / 10 + 1 : 60 + (i / 10 - 50) * 45; std::string s(len, d); for (std::string x : {s, "-" + s, "0." + s, "." + s, s + ".", s + "." + s, "1" + s, "0" + s + "1", "-0." + std::string(len, '0') + d, "3402823" + s, "1797693" + s, "-3402823466385288598" + s}) all(x); done(); }, [](size_t i) { size_t len = i / 10 < 50 ? i / 10 + 1 : 60 + (i / 10 - 50) * 45; return std::to_string(len) + " digits " + std::to_string(i % 10); }, "digit runs of 1-50 and up to 465 digits in 12 shapes, beyond the range of float and double", 20, 8});
        // values
        e.secs.push_back({"values16", 256, [=](size_t i) { begin(); for (int k = 0; k < 256; ++k) { std::uint16_t x = i * 256 + k; round<std::uint16_t>(x); round<std::int16_t>((std::int16_t)x); if (i == 0) { round<std::uint8_t>(x, true); round<std::int8_t>((std::int8_t)x, true); } } if (i == 0) { round(true, true); round(false, true); } done(); }, [](size_t i) { return "16-bit values " + std::to_string(i * 256) + ".."; }, "every value of the 8- and 16-bit types and bool", 20, 1});
        e.secs.push_back({"valuesWide", 64, [=](size_t i) { begin(); const int w = SHRINK ? 200 : 5000; std::uint64_t p = std::uint64_t(1) << i; for (int d = -w; d <= w; ++d) { for (std::uint64_t x : {p + d, ~p + d, p * 3 + d}) { round<std::uint64_t>(x); round<std::int64_t>((std::int64_t)x); round<std::uint32_t>((std::uint32_t)x); round<std::int32_t>((std::int32_t)x); } } std::uint64_t t = 1; for (int k = 0; k < 20; ++k, t *= 10) for (int d = -300; d <= 300; ++d) { round<std::uint64_t>(t * (i % 9 + 1) + d); round<std::int64_t>((std::int64_t)(0 - t * (i % 9 + 1) + d)); } done(); }, [](size_t i) { return "wide values around 2^" + std::to_string(i); }, "32/64-bit values within 5000 of every power of two, its complement and triple, within 300 of every power of ten times 1-9", 60, 1});
        // floats: every sign, exponent and leading 7 mantissa bits x low-bit patterns; doubles: every exponent x patterns
        e.secs.push_back({"floats", 512, [=](size_t i) { begin(); for (int m = 0; m < 128; m += SHRINK ? 8 : 1) for (std::uint32_t low : {0u, 1u, 0xffffu, 0x8000u}) { std::uint32_t b = (std::uint32_t)(i * 128 + m) << 16 | low; float f; memcpy(&f, &b, 4); round(f); } for (std::uint64_t k = i * 4; k < i * 4 + 4; ++k) for (std::uint64_t m : {0ull, 1ull, 0xfffffffffffffull, 0x8000000000000ull, 0x5555555555555ull}) for (std::uint64_t sg : {0ull, 1ull}) { std::uint64_t b = sg << 63 | k << 52 | m; double d; memcpy(&d, &b, 8); round(d); } for (int k = 0; k < 200; ++k) { round((double)((int)i * 200 + k) / 64); round(-((int)i * 200 + k) * 0.01); round((float)((int)i * 200 + k) / 32); } done(); }, [](size_t i) { return "floats with upper bits " + std::to_string(i); }, "every sign/exponent/7 mantissa bits of float x 4 tails; every double exponent x 5 mantissas x sign; decimal grids", 60, 1});
        // the conversion does not depend on the global locale
        e.secs.push_back({"locale", good.size() * 3, [=](size_t i) { begin(); std::locale old = std::locale::global(std::locale(std::locale::classic(), new Comma)); try { std::string g = good[i / 3]; if (i % 3 == 1) { size_t p = g.find('.'); if (p == g.npos) g += ",5"; else g[p] = ','; } if (i % 3 == 2) g = "1.000" + g; all(g, true); for (int k = -1500; k < 1500; k += 7) { round(k); round(k * 0.5); round((float)k * 100); round((std::int64_t)k * 1000000007); } } catch (...) { std::locale::global(old); throw; } std::locale::global(old); done(); }, [](size_t i) { return "\"" + good[i / 3] + "\" under a comma-decimal global locale"; }, "good texts and values under a global locale with comma decimals and digit grouping", 20, 4});
        if (g_thorough && !SHRINK)
        {
            e.secs.push_back({"all32", 1 << 16, [=](size_t i) { begin(); for (std::uint32_t k = 0; k < 65536; ++k) { std::uint32_t x = (std::uint32_t)i << 16 | k; round<std::uint32_t>(x); round<std::int32_t>((std::int32_t)x); } done(); }, [](size_t i) { return "32-bit values with upper half " + std::to_string(i); }, "every 32-bit integer, signed and unsigned", 120, 1});
        }
    });
}
