// Minimal strict JSON reader (RFC 8259), used as an oracle. Keeps key order and scalar kinds.
#pragma once
#include <string>
#include <vector>
#include <cstdint>
namespace mc
{
    struct JVal
    {
        enum K { NUL, BOOL, NUM, STR, ARR, OBJ } k = NUL;
        std::string s;                 // literal text for NUM/BOOL, decoded text for STR
        std::vector<JVal> a;
        std::vector<std::pair<std::string, JVal>> o;
    };
    class JParser
    {
        const std::string& t; size_t p = 0; bool bad = false;
        void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\n' || t[p] == '\r' || t[p] == '\t')) ++p; }
        bool lit(const char* l) { std::string x(l); if (t.compare(p, x.size(), x) == 0) { p += x.size(); return true; } bad = true; return false; }
        static void utf8(std::string& o, uint32_t c)
        {
            if (c < 0x80) o += (char)c;
            else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
            else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
            else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | ((c >> 12) & 63)); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
        }
        uint32_t hex4()
        {
            uint32_t v = 0;
            for (int i = 0; i < 4; ++i)
            {
                if (p >= t.size()) { bad = true; return 0; }
                char c = t[p++]; v <<= 4;
                if (c >= '0' && c <= '9') v |= c - '0'; else if (c >= 'a' && c <= 'f') v |= c - 'a' + 10; else if (c >= 'A' && c <= 'F') v |= c - 'A' + 10; else { bad = true; return 0; }
            }
            return v;
        }
        std::string str()
        {
            std::string o;
            if (p >= t.size() || t[p] != '"') { bad = true; return o; }
            ++p;
            while (true)
            {
                if (p >= t.size()) { bad = true; return o; }
                unsigned char c = t[p++];
                if (c == '"') return o;
                if (c < 0x20) { bad = true; return o; }
                if (c != '\\') { o += (char)c; continue; }
                if (p >= t.size()) { bad = true; return o; }
                char e = t[p++];
                switch (e)
                {
                case '"': o += '"'; break; case '\\': o += '\\'; break; case '/': o += '/'; break;
                case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
                case 'u':
                {
                    uint32_t c1 = hex4();
                    if (c1 >= 0xD800 && c1 < 0xDC00)
                    {
                        if (p + 1 < t.size() && t[p] == '\\' && t[p + 1] == 'u') { p += 2; uint32_t c2 = hex4(); c1 = 0x10000 + ((c1 - 0xD800) << 10) + (c2 - 0xDC00); }
                        else bad = true;
                    }
                    utf8(o, c1); break;
                }
                default: bad = true; return o;
                }
                if (bad) return o;
            }
        }
        JVal val(int depth)
        {
            JVal v; ws();
            if (bad || p >= t.size() || depth > 50) { bad = true; return v; }
            char c = t[p];
            if (c == '{')
            {
                v.k = JVal::OBJ; ++p; ws();
                if (p < t.size() && t[p] == '}') { ++p; return v; }
                while (!bad)
                {
                    ws(); std::string k = str(); ws();
                    if (p >= t.size() || t[p] != ':') { bad = true; break; }
                    ++p; v.o.emplace_back(k, val(depth + 1)); ws();
                    if (p < t.size() && t[p] == ',') { ++p; continue; }
                    if (p < t.size() && t[p] == '}') { ++p; break; }
                    bad = true;
                }
            }
            else if (c == '[')
            {
                v.k = JVal::ARR; ++p; ws();
                if (p < t.size() && t[p] == ']') { ++p; return v; }
                while (!bad)
                {
                    v.a.push_back(val(depth + 1)); ws();
                    if (p < t.size() && t[p] == ',') { ++p; continue; }
                    if (p < t.size() && t[p] == ']') { ++p; break; }
                    bad = true;
                }
            }
            else if (c == '"') { v.k = JVal::STR; v.s = str(); }
            else if (c == 't') { v.k = JVal::BOOL; lit("true"); v.s = "true"; }
            else if (c == 'f') { v.k = JVal::BOOL; lit("false"); v.s = "false"; }
            else if (c == 'n') { v.k = JVal::NUL; lit("null"); }
            else
            {
                size_t b = p;
                auto dig = [&] { size_t q = p; while (p < t.size() && t[p] >= '0' && t[p] <= '9') ++p; return p > q; };
                v.k = JVal::NUM;
                if (t[p] == '-') ++p;
                if (p < t.size() && t[p] == '0') ++p; else if (!dig()) bad = true;
                if (p < t.size() && t[p] == '.') { ++p; if (!dig()) bad = true; }
                if (p < t.size() && (t[p] == 'e' || t[p] == 'E')) { ++p; if (p < t.size() && (t[p] == '+' || t[p] == '-')) ++p; if (!dig()) bad = true; }
                v.s = t.substr(b, p - b);
            }
            return v;
        }
    public:
        explicit JParser(const std::string& text) : t(text) {}
        bool parse(JVal& out) { out = val(0); ws(); return !bad && p == t.size(); }
    };
}
