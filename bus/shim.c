// Keeps a run inside its own directory: every path below /tmp used by the broker and the agents is moved below $VBOX.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
static const char* box(void) { static const char* b; if (!b) { b = getenv("VBOX"); if (!b) b = ""; } return b; }
static const char* mv(const char* p, char* buf) { const char* b = box(); if (!*b || !p || strncmp(p, "/tmp", 4) || (p[4] && p[4] != '/') || !strncmp(p, b, strlen(b))) return p; snprintf(buf, 4096, "%s%s", b, p + 4); return buf; }
#define REAL(T, N) static __typeof__(T) real; if (!real) real = dlsym(RTLD_NEXT, N); char buf[4096]
#define P1(R, N, A, C) R N A { REAL(R (*) A, #N); return real C; }
int open(const char* p, int f, ...) { va_list a; va_start(a, f); mode_t m = va_arg(a, mode_t); va_end(a); REAL(int (*)(const char*, int, ...), "open"); return real(mv(p, buf), f, m); }
int open64(const char* p, int f, ...) { va_list a; va_start(a, f); mode_t m = va_arg(a, mode_t); va_end(a); REAL(int (*)(const char*, int, ...), "open64"); return real(mv(p, buf), f, m); }
P1(FILE*, fopen, (const char* p, const char* m), (mv(p, buf), m))
P1(FILE*, fopen64, (const char* p, const char* m), (mv(p, buf), m))
P1(int, unlink, (const char* p), (mv(p, buf)))
P1(int, remove, (const char* p), (mv(p, buf)))
P1(int, rmdir, (const char* p), (mv(p, buf)))
P1(int, stat, (const char* p, struct stat* s), (mv(p, buf), s))
P1(int, lstat, (const char* p, struct stat* s), (mv(p, buf), s))
P1(int, stat64, (const char* p, struct stat64* s), (mv(p, buf), s))
P1(int, lstat64, (const char* p, struct stat64* s), (mv(p, buf), s))
P1(int, truncate64, (const char* p, off64_t n), (mv(p, buf), n))
P1(int, access, (const char* p, int m), (mv(p, buf), m))
P1(int, mkdir, (const char* p, mode_t m), (mv(p, buf), m))
P1(int, chmod, (const char* p, mode_t m), (mv(p, buf), m))
P1(int, chown, (const char* p, uid_t u, gid_t g), (mv(p, buf), u, g))
P1(int, truncate, (const char* p, off_t n), (mv(p, buf), n))
P1(DIR*, opendir, (const char* p), (mv(p, buf)))
int rename(const char* p, const char* q) { REAL(int (*)(const char*, const char*), "rename"); char b2[4096]; return real(mv(p, buf), mv(q, b2)); }
static const struct sockaddr* sa(const struct sockaddr* a, socklen_t* n, struct sockaddr_un* u) { if (!a || a->sa_family != AF_UNIX || !((const struct sockaddr_un*)a)->sun_path[0]) return a; char buf[4096]; const char* p = mv(((const struct sockaddr_un*)a)->sun_path, buf); if (p != buf) return a; memset(u, 0, sizeof *u); u->sun_family = AF_UNIX; strncpy(u->sun_path, p, sizeof u->sun_path - 1); *n = sizeof *u; return (const struct sockaddr*)u; }
int bind(int s, const struct sockaddr* a, socklen_t n) { static int (*real)(int, const struct sockaddr*, socklen_t); if (!real) real = dlsym(RTLD_NEXT, "bind"); struct sockaddr_un u; a = sa(a, &n, &u); return real(s, a, n); }
int connect(int s, const struct sockaddr* a, socklen_t n) { static int (*real)(int, const struct sockaddr*, socklen_t); if (!real) real = dlsym(RTLD_NEXT, "connect"); struct sockaddr_un u; a = sa(a, &n, &u); return real(s, a, n); }
#include <sys/prctl.h>
#include <signal.h>
__attribute__((constructor)) static void start(void) { if (getenv("VPDEATH")) prctl(PR_SET_PDEATHSIG, SIGKILL); }
