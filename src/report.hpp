// Result file shared by every harness: JSON lines read by bin/check.
#pragma once
#include <cstdio>
#include <string>
#include <vector>
#include <cstdlib>
namespace mc
{
    inline std::string jstr(const std::string& s)
    {
        std::string o = "\"";
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
            else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
            else o += (char)c;
        }
        return o + "\"";
    }
    struct Report
    {
        FILE* f;
        explicit Report(const char* path) { f = path && *path ? fopen(path, "w") : stdout; if (!f) { perror("report"); exit(2); } }
        // sig: stable identity of the failing input or history; desc: what failed; replay: how to run it again
        void violation(const std::string& sig, const std::string& desc, const std::string& replay)
        {
            fprintf(f, "{\"type\":\"violation\",\"sig\":%s,\"desc\":%s,\"replay\":%s}\n", jstr(sig).c_str(), jstr(desc).c_str(), jstr(replay).c_str()); fflush(f);
        }
        void count(const std::string& name, unsigned long long v) { fprintf(f, "{\"type\":\"count\",\"name\":%s,\"value\":%llu}\n", jstr(name).c_str(), v); fflush(f); }
        void sample(const std::string& s) { fprintf(f, "{\"type\":\"sample\",\"text\":%s}\n", jstr(s).c_str()); fflush(f); }
        void note(const std::string& s) { fprintf(f, "{\"type\":\"note\",\"text\":%s}\n", jstr(s).c_str()); fflush(f); }
        void incomplete(const std::string& s) { fprintf(f, "{\"type\":\"incomplete\",\"text\":%s}\n", jstr(s).c_str()); fflush(f); }
        void done() { fprintf(f, "{\"type\":\"done\"}\n"); fflush(f); }
    };
}
