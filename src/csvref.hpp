// RFC 4180 reference reader (LF or CRLF line ends), written from the grammar, independent of the library.
#pragma once
#include <string>
#include <vector>
namespace mc
{
    using Rows = std::vector<std::vector<std::string>>;
    // false: not well formed. An empty line is a row without fields.
    inline bool csvRef(const std::string& t, char sep, Rows& rows)
    {
        rows.clear(); size_t p = 0, n = t.size();
        while (p < n)
        {
            std::vector<std::string> row;
            if (t[p] == '\n') { rows.push_back(row); ++p; continue; }
            if (t[p] == '\r') { if (p + 1 < n && t[p + 1] == '\n') { rows.push_back(row); p += 2; continue; } return false; }
            for (;;)
            {
                std::string f;
                if (p < n && t[p] == '"')
                {
                    ++p;
                    for (;;) { if (p >= n) return false; if (t[p] == '"') { if (p + 1 < n && t[p + 1] == '"') { f += '"'; p += 2; continue; } ++p; break; } f += t[p++]; }
                    if (p < n && t[p] != sep && t[p] != '\n' && t[p] != '\r') return false;
                }
                else while (p < n && t[p] != sep && t[p] != '\n' && t[p] != '\r') { if (t[p] == '"') return false; f += t[p++]; }
                row.push_back(f);
                if (p < n && t[p] == sep) { ++p; continue; }
                break;
            }
            if (p < n) { if (t[p] == '\n') ++p; else if (p + 1 < n && t[p + 1] == '\n') p += 2; else return false; }
            rows.push_back(row);
        }
        return true;
    }
    inline std::string showRows(const Rows& r) { std::string o = "["; for (auto& x : r) { o += "("; for (size_t i = 0; i < x.size(); ++i) o += (i ? "|" : "") + x[i]; o += ")"; if (o.size() > 400) return o + "..."; } return o + "]"; }
}
