// System call fault injection inside this process: a seccomp filter traps every file system call that is not issued from
// raw_syscall below, and the SIGSYS handler either performs the call or answers it with the planned fault. Works for any
// implementation of the library's file access (streams, stdio, plain calls), because it sits below the C library.
#pragma once
#include <cerrno>
#include <csignal>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <string>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <ucontext.h>
#include <unistd.h>
#include <vector>
namespace fx
{
    asm(R"(
        .text
        .globl fx_raw_syscall
        .globl fx_raw_syscall_end
    fx_raw_syscall:
        mov %rdi, %rax
        mov %rsi, %rdi
        mov %rdx, %rsi
        mov %rcx, %rdx
        mov %r8, %r10
        mov %r9, %r8
        mov 8(%rsp), %r9
        syscall
    fx_raw_syscall_end:
        ret
    )");
    extern "C" long fx_raw_syscall(long nr, long a, long b, long c, long d, long e, long f);
    extern "C" char fx_raw_syscall_end[];

    // What a planned fault does to its call
    struct Effect { const char* name; int err; int kind; }; // kind 0: fails with err and does nothing; 1: short count; 2: end of file; 3: performed, but fails with err
    struct Fault { int k; Effect e; bool persist; };
    struct Call { int nr; long n; };
    inline std::string g_prefix;              // files below this path are faulted
    inline volatile bool g_armed = false;
    inline bool g_fd[4096];
    inline Fault g_plan[8]; inline int g_nplan = 0;
    inline Call g_log[65536]; inline int g_calls = 0;
    inline bool g_applied[8];

    inline bool isOpen(long nr) { return nr == SYS_openat || nr == SYS_open || nr == SYS_creat; }
    inline bool isRead(long nr) { return nr == SYS_read || nr == SYS_pread64 || nr == SYS_readv || nr == SYS_preadv; }
    inline bool isWrite(long nr) { return nr == SYS_write || nr == SYS_pwrite64 || nr == SYS_writev || nr == SYS_pwritev; }
    inline const char* nrName(long nr)
    {
        switch (nr) { case SYS_openat: case SYS_open: case SYS_creat: return "open"; case SYS_read: return "read"; case SYS_pread64: return "pread"; case SYS_readv: return "readv"; case SYS_preadv: return "preadv"; case SYS_write: return "write"; case SYS_pwrite64: return "pwrite"; case SYS_writev: return "writev"; case SYS_pwritev: return "pwritev"; case SYS_lseek: return "lseek"; case SYS_fstat: return "fstat"; case SYS_newfstatat: return "fstatat"; case SYS_statx: return "statx"; case SYS_ftruncate: return "ftruncate"; case SYS_fsync: return "fsync"; case SYS_fdatasync: return "fdatasync"; case SYS_close: return "close"; case SYS_mmap: return "mmap"; case SYS_rename: case SYS_renameat: case SYS_renameat2: return "rename"; case SYS_unlink: case SYS_unlinkat: return "unlink"; case SYS_fallocate: return "fallocate"; }
        return "call";
    }
    inline bool below(const char* p) { return p && !strncmp(p, g_prefix.c_str(), g_prefix.size()); }
    inline void handler(int, siginfo_t*, void* ucp)
    {
        auto* uc = (ucontext_t*)ucp; auto* g = uc->uc_mcontext.gregs;
        long nr = g[REG_RAX], a[6] = {g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]};
        bool mine = false; long fd = -1;
        if (g_armed)
        {
            if (nr == SYS_openat || nr == SYS_newfstatat || nr == SYS_statx || nr == SYS_unlinkat || nr == SYS_renameat || nr == SYS_renameat2) { mine = below((const char*)a[1]); if (!mine && (nr == SYS_newfstatat || nr == SYS_statx)) { fd = a[0]; mine = fd >= 0 && fd < 4096 && g_fd[fd]; } }
            else if (nr == SYS_open || nr == SYS_creat || nr == SYS_rename || nr == SYS_unlink) mine = below((const char*)a[0]);
            else { fd = nr == SYS_mmap ? (int)a[4] : a[0]; mine = fd >= 0 && fd < 4096 && g_fd[fd]; }
        }
        auto raw = [&] { return fx_raw_syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]); };
        long r; bool done = false;
        if (mine)
        {
            int k = g_calls++; if (k < 65536) { g_log[k].nr = (int)nr; g_log[k].n = a[2]; }
            for (int i = 0; i < g_nplan && !done; ++i)
            {
                Fault& f = g_plan[i];
                bool same = k == f.k || (f.persist && k > f.k && k < 65536 && f.k < k && ((isRead(nr) && isRead(g_log[f.k].nr)) || (isWrite(nr) && isWrite(g_log[f.k].nr)) || (isOpen(nr) && isOpen(g_log[f.k].nr)) || nr == g_log[f.k].nr));
                if (!same) continue;
                g_applied[i] = true;
                if (f.e.kind == 0) { r = -f.e.err; done = true; if (nr == SYS_close) { fx_raw_syscall(nr, a[0], 0, 0, 0, 0, 0); if (fd >= 0) g_fd[fd] = false; } }
                else if (f.e.kind == 2) { r = 0; done = true; }
                else if (f.e.kind == 3) { raw(); r = -f.e.err; done = true; if (nr == SYS_close && fd >= 0) g_fd[fd] = false; }
                else
                {
                    auto cut = [&](long n) { return f.e.err == 1 ? 1L : f.e.err == 2 ? (n + 1) / 2 : n > 1 ? n - 1 : n; };
                    if (nr == SYS_readv || nr == SYS_writev || nr == SYS_preadv || nr == SYS_pwritev)
                    {
                        auto* v = (iovec*)a[1]; int n = (int)a[2]; long tot = 0; for (int j = 0; j < n; ++j) tot += v[j].iov_len;
                        long want = cut(tot); iovec w[16]; int m = 0; for (int j = 0; j < n && j < 16 && want > 0; ++j) { w[m] = v[j]; if ((long)w[m].iov_len > want) w[m].iov_len = want; want -= w[m].iov_len; ++m; }
                        r = fx_raw_syscall(nr, a[0], (long)w, m, a[3], a[4], a[5]);
                    }
                    else r = fx_raw_syscall(nr, a[0], a[1], a[2] > 0 ? cut(a[2]) : a[2], a[3], a[4], a[5]);
                    done = true;
                }
            }
        }
        if (!done) { r = raw(); if (mine && nr == SYS_close && fd >= 0) g_fd[fd] = false; }
        if (mine && isOpen(nr) && r >= 0 && r < 4096) g_fd[r] = true;
        g[REG_RAX] = r;
    }
    inline bool install()
    {
        static bool done = false, good = false; if (done) return good; done = true;
        struct sigaction sa{}; sa.sa_sigaction = handler; sa.sa_flags = SA_SIGINFO | SA_NODEFER | SA_RESTART; sigemptyset(&sa.sa_mask); if (sigaction(SIGSYS, &sa, nullptr)) return false;
        static const int traps[] = {SYS_openat, SYS_open, SYS_creat, SYS_read, SYS_pread64, SYS_readv, SYS_preadv, SYS_write, SYS_pwrite64, SYS_writev, SYS_pwritev, SYS_lseek, SYS_fstat, SYS_newfstatat, SYS_statx, SYS_ftruncate, SYS_fsync, SYS_fdatasync, SYS_close, SYS_mmap, SYS_rename, SYS_renameat, SYS_renameat2, SYS_unlink, SYS_unlinkat, SYS_fallocate};
        const int N = sizeof traps / sizeof *traps;
        std::vector<sock_filter> p; unsigned long ip = (unsigned long)fx_raw_syscall_end;
        p.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, instruction_pointer)));
        p.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)(ip & 0xffffffff), 0, 3));
        p.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, instruction_pointer) + 4));
        p.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)(ip >> 32), 0, 1));
        p.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
        p.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, nr)));
        for (int i = 0; i < N; ++i) p.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)traps[i], (unsigned char)(N - i), 0));
        p.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
        p.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP));
        sock_fprog prog{(unsigned short)p.size(), p.data()};
        if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) return false;
        if (syscall(SYS_seccomp, SECCOMP_SET_MODE_FILTER, 0, &prog)) return false;
        return good = true;
    }
    inline void arm(const std::vector<Fault>& plan)
    {
        g_nplan = 0; for (auto& f : plan) if (g_nplan < 8) g_plan[g_nplan++] = f;
        memset(g_fd, 0, sizeof g_fd); memset(g_applied, 0, sizeof g_applied); g_calls = 0; g_armed = true;
    }
    inline void disarm() { g_armed = false; }
    // Effects that make sense for one kind of call
    inline const std::vector<Effect>& effects(long nr)
    {
        static const std::vector<Effect> op = {{"EACCES", EACCES, 0}, {"EMFILE", EMFILE, 0}, {"ENOSPC", ENOSPC, 0}, {"EINTR", EINTR, 0}, {"EIO", EIO, 0}};
        static const std::vector<Effect> rd = {{"EIO", EIO, 0}, {"EISDIR", EISDIR, 0}, {"EINTR", EINTR, 0}, {"short:1", 1, 1}, {"short:half", 2, 1}, {"short:n-1", 3, 1}, {"EOF", 0, 2}};
        static const std::vector<Effect> wr = {{"ENOSPC", ENOSPC, 0}, {"EIO", EIO, 0}, {"EINTR", EINTR, 0}, {"EFBIG", EFBIG, 0}, {"short:1", 1, 1}, {"short:half", 2, 1}, {"short:n-1", 3, 1}};
        static const std::vector<Effect> cl = {{"EIO", EIO, 3}, {"ENOSPC", ENOSPC, 3}};
        static const std::vector<Effect> ot = {{"EIO", EIO, 0}, {"EINVAL", EINVAL, 0}};
        static const std::vector<Effect> mm = {{"ENOMEM", ENOMEM, 0}};
        if (isOpen(nr)) return op; if (isRead(nr)) return rd; if (isWrite(nr)) return wr; if (nr == SYS_close) return cl; if (nr == SYS_mmap) return mm; return ot;
    }
}
