#include "pbt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <errno.h>
#include <math.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <unordered_set>
#include <algorithm>

extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:handle_abort=1:print_summary=1:max_malloc_fill_size=8192:malloc_fill_byte=190:detect_stack_use_after_return=0"; }
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));

namespace pbt {
Prop* g_props = nullptr;
const char* g_extra = "";

static uint64_t splitmix(uint64_t& x) { uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }

Tape::Tape(uint64_t seed, uint64_t* rec, size_t cap, size_t* nrec) : mode_(RANDOM), rec_(rec), cap_(cap), nrec_(nrec) {
  uint64_t x = seed; for (int i = 0; i < 4; i++) s_[i] = splitmix(x); if (nrec_) *nrec_ = 0; }
Tape::Tape(const uint64_t* v, size_t n) : mode_(REPLAY), vals_(v), n_(n) {}
Tape::Tape(const uint8_t* b, size_t n) : mode_(BYTES), bytes_(b), n_(n) {}

uint64_t Tape::next() {
  uint64_t r = rotl(s_[1] * 5, 7) * 9, t = s_[1] << 17;
  s_[2] ^= s_[0]; s_[3] ^= s_[1]; s_[1] ^= s_[2]; s_[0] ^= s_[3]; s_[2] ^= t; s_[3] = rotl(s_[3], 45); return r; }

uint64_t Tape::draw(uint64_t n) {
  if (n == 1) return 0;
  if (mode_ == RANDOM) {
    uint64_t v = next(); if (n) v = (uint64_t)(((__uint128_t)v * n) >> 64);
    if (rec_ && pos_ < cap_) { rec_[pos_] = v; *nrec_ = pos_ + 1; }
    pos_++; return v;
  }
  if (mode_ == REPLAY) {
    uint64_t v = pos_ < n_ ? vals_[pos_] : 0; pos_++;
    if (n) v %= n; return v;
  }
  int nb = n == 0 ? 8 : n <= 256 ? 1 : n <= 65536 ? 2 : n <= 0x100000000ull ? 4 : 8;
  uint64_t v = 0; for (int i = 0; i < nb; i++) { v = (v << 8) | (pos_ < n_ ? bytes_[pos_] : 0); pos_++; }
  if (n) v %= n; return v;
}
int64_t Tape::range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo) + 1); }

void Case::note(const char* fmt, ...) {
  char b[2048]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
  for (const char* p = b; *p; p++) { hash ^= (unsigned char)*p; hash *= 1099511628211ull; }
  if (text.size() < 6000) text += b; // capacity 8600, never reallocates
  static bool live = getenv("PBT_LIVE") != nullptr;
  if (live) { fputs(b, stderr); fflush(stderr); }
}
void Case::fail(const char* fmt, ...) {
  char b[4096]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
  throw Fail{b};
}
std::string esc(const std::string& s, size_t max) {
  std::string o = "\""; char b[8];
  for (size_t i = 0; i < s.size() && i < max; i++) { unsigned char ch = s[i];
    if (ch >= 32 && ch < 127 && ch != '"' && ch != '\\') o += ch; else { snprintf(b, 8, "\\x%02x", ch); o += b; } }
  o += "\""; if (s.size() > max) { char bb[32]; snprintf(bb, 32, "..(%zu)", s.size()); o += bb; } return o; }
std::string hex(const uint8_t* p, size_t n, size_t max) { std::string o; char b[8];
  for (size_t i = 0; i < n && i < max; i++) { snprintf(b, 8, "%02x", p[i]); o += b; }
  if (n > max) { char bb[32]; snprintf(bb, 32, "..(%zu)", n); o += bb; } return o; }
size_t heap_bytes() { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }

size_t gen_len(Tape& t, size_t max) {
  switch (t.draw(8)) {
    case 0: case 1: case 2: return (size_t)t.draw(std::min<size_t>(max, 8) + 1);
    case 3: case 4: return (size_t)t.draw(std::min<size_t>(max, 40) + 1);
    case 5: return (size_t)t.draw(std::min<size_t>(max, 300) + 1);
    case 6: { static const size_t k[] = {0,1,15,16,17,31,32,33,63,64,65,127,128,129,255,256,257,511,512,513,1023,1024,1025,2047,2048,4095,4096,4097,8192,16384,65534,65535,65536,65537};
      size_t v = k[t.draw(sizeof k / sizeof *k)]; return v <= max ? v : (max ? v % max : 0); }
    default: return (size_t)t.draw(max + 1);
  }
}
std::string gen_string(Tape& t, size_t maxlen) {
  size_t n = gen_len(t, maxlen); std::string s; s.reserve(n);
  unsigned kind = t.draw(6);
  if (n > 64) { // cheap long strings: repeated pattern from few choices
    unsigned period = 1 + t.draw(23); std::string p; for (unsigned i = 0; i < period; i++) p += (char)(kind == 5 ? 1 + t.draw(255) : ' ' + t.draw(95));
    while (s.size() < n) s += p; s.resize(n); return s; }
  for (size_t i = 0; i < n; i++) {
    switch (kind) {
      case 0: case 1: s += (char)('a' + t.draw(26)); break;
      case 2: s += "0123456789+-.eE"[t.draw(15)]; break;
      case 3: s += " ~\"\\/%{}[].*:;,'"[t.draw(16)]; break;
      case 4: s += (char)(' ' + t.draw(95)); break;
      default: s += (char)(1 + t.draw(255)); break;
    } }
  return s; }
std::string gen_bytes(Tape& t, size_t maxlen) {
  size_t n = gen_len(t, maxlen); std::string s;
  if (n > 64) { unsigned period = 1 + t.draw(23); std::string p; for (unsigned i = 0; i < period; i++) p += (char)t.draw(256);
    while (s.size() < n) s += p; s.resize(n); return s; }
  for (size_t i = 0; i < n; i++) s += (char)t.draw(256); return s; }
int64_t gen_int(Tape& t, int bits, bool sgn) {
  uint64_t mask = bits == 64 ? ~0ull : ((1ull << bits) - 1); uint64_t v;
  switch (t.draw(6)) {
    case 0: v = t.draw(4); break;
    case 1: v = t.draw(256); break;
    case 2: { int sh = (int)t.draw(bits); v = (1ull << sh); v += t.draw(3); v -= 1; break; }
    case 3: { int sh = (int)t.draw(bits); v = (1ull << sh); v += t.draw(3); v -= 1; v = 0 - v; break; }
    case 4: { static const uint64_t k[] = {0x7f,0x80,0xff,0x7fff,0x8000,0xffff,0x7fffffff,0x80000000ull,0xffffffffull,0x1fffffffffffffull,0x20000000000000ull,0x20000000000001ull,0x7fffffffffffffffull,0x8000000000000000ull,~0ull};
      v = k[t.draw(15)]; break; }
    default: v = t.draw(0); }
  v &= mask;
  if (sgn && bits < 64 && (v >> (bits - 1))) v |= ~mask;
  return (int64_t)v; }
double gen_double(Tape& t) {
  switch (t.draw(7)) {
    case 0: return (double)t.range(-3, 3);
    case 1: return (double)t.range(-1000000, 1000000) / 64.0;
    case 2: { static const double k[] = {0.0, -0.0, 1.0, -1.0, 0.1, 1e-7, 1e300, -1e300, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 9007199254740992.0, 9007199254740993.0, 3.402823466e38};
      return k[t.draw(14)]; }
    case 3: return ldexp((double)t.draw(1ull << 53), (int)t.range(-120, 120));
    case 4: return t.draw(8) == 7 ? INFINITY : -ldexp((double)t.draw(1ull << 30), (int)t.range(-40, 40));
    default: { uint64_t u = t.draw(0); double d; memcpy(&d, &u, 8); if (std::isnan(d)) d = NAN; return d; } } }
float gen_float(Tape& t) { double d = gen_double(t); if (!std::isinf(d) && fabs(d) > 3.4e38) d = fmod(d, 1e6); return (float)d; }

// ---------------------------------------------------------------------------------------
struct Shared { // one per worker
  volatile uint64_t cur; volatile int active; volatile uint64_t done; size_t nrec; volatile int failed; char msg[4096]; uint64_t rec[1]; };
static const size_t REC_CAP = 1 << 20;

static double now() { timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
static uint64_t case_seed(uint64_t seed, uint64_t i) { uint64_t x = seed * 0x9e3779b97f4a7c15ull + i; splitmix(x); return splitmix(x); }

static std::string json_str(const std::string& s) { std::string o = "\""; char b[8];
  for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch < 32 || ch >= 127) { snprintf(b, 8, "\\u%04x", ch); o += b; } else o += ch; }
  return o + "\""; }

static bool run_one(Prop* p, Tape& t, Case& c, std::string& msg) {
  for (int k = 0; ; k++) {
    try { if (k == 0) p->body(t, c); else { Tape t2 = t.again(); c = Case(); p->body(t2, c); } return true; }
    catch (Fail& f) { if (f.leak && k < 2) continue; msg = f.msg; return false; } } }

static std::string g_dir; // scratch for logs

// run a tape in a fresh child; returns 0 ok, 1 property failed, 2 crash, 3 hang
static int run_child(Prop* p, const std::vector<uint64_t>& tape, std::string& msg, std::string* text, int limit) {
  std::string out = g_dir + "/child." + std::to_string(getpid());
  std::string err = out + ".err";
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2); dup2(fd, 1);
    alarm(limit);
    Tape t(tape.data(), tape.size()); Case c; std::string m; bool ok = run_one(p, t, c, m);
    FILE* f = fopen(out.c_str(), "w"); fprintf(f, "%s\n%c%s", ok ? "" : m.c_str(), 1, c.text.c_str()); fclose(f);
    _exit(ok ? 0 : 1);
  }
  int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  kill(-pid, SIGKILL);
  auto slurp = [](const std::string& fn) { std::string s; FILE* f = fopen(fn.c_str(), "r"); if (f) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); } return s; };
  int rc;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) rc = 0;
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 1) rc = 1;
  else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) rc = 3;
  else rc = 2;
  if (rc <= 1) { std::string s = slurp(out); size_t k = s.find('\n' ); size_t q = s.find('\x01'); (void)k; if (q != std::string::npos) { msg = s.substr(0, q); if (text) *text = s.substr(q + 1); } }
  else if (rc == 3) msg = "no termination within " + std::to_string(limit) + " s";
  else {
    std::string s = slurp(err); size_t k = s.find("ERROR: AddressSanitizer"); if (k == std::string::npos) k = s.find("runtime error"); if (k == std::string::npos) k = s.find("Sanitizer");
    char b[64]; snprintf(b, 64, "crash (status 0x%x): ", st);
    if (k == std::string::npos) k = s.size() > 1200 ? s.size() - 1200 : 0;
    msg = b + s.substr(k, 1800);
  }
  unlink(out.c_str()); unlink(err.c_str());
  return rc;
}

int g_argc; char** g_argv;

static std::vector<uint64_t> shrink(Prop* p, std::vector<uint64_t> tape, int kind, int limit, double budget) {
  double end = now() + budget; int tries = 0;
  auto bad = [&](const std::vector<uint64_t>& v) { tries++; std::string m; return run_child(p, v, m, nullptr, limit) == kind; };
  bool progress = true;
  while (progress && now() < end && tries < 3000) {
    progress = false;
    for (size_t blk = std::max<size_t>(tape.size() / 2, 1); blk >= 1 && now() < end; blk /= 2) {
      for (size_t i = 0; i + blk <= tape.size() && now() < end;) {
        std::vector<uint64_t> v(tape); v.erase(v.begin() + i, v.begin() + i + blk);
        if (bad(v)) { tape = v; progress = true; } else i += blk;
      }
      if (blk == 1) break;
    }
    for (size_t i = 0; i < tape.size() && now() < end; i++) {
      if (!tape[i]) continue;
      std::vector<uint64_t> v(tape); v[i] = 0; if (bad(v)) { tape = v; progress = true; continue; }
      for (uint64_t step = tape[i] / 2; step > 0 && now() < end; step /= 2) { v = tape; v[i] -= step; if (bad(v)) { tape = v; progress = true; if (step > v[i]) step = v[i] + 1; } }
    }
    while (!tape.empty() && tape.back() == 0) { std::vector<uint64_t> v(tape); v.pop_back(); if (!bad(v)) break; tape = v; }
    if (kind == 3) break;
  }
  return tape;
}

int runner_main(int argc, char** argv) {
  g_argc = argc; g_argv = argv; signal(SIGPIPE, SIG_IGN);
  std::string prop, out, replay, viol = "/tmp"; uint64_t seed = 1; long cases = 1000; double tmax = 60; int jobs = 4, limit = 20;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto v = [&]() { return std::string(argv[++i]); };
    if (a == "--prop") prop = v(); else if (a == "--seed") seed = strtoull(v().c_str(), 0, 10); else if (a == "--cases") cases = atol(v().c_str());
    else if (a == "--time") tmax = atof(v().c_str()); else if (a == "--jobs") jobs = atoi(v().c_str()); else if (a == "--out") out = v();
    else if (a == "--replay") replay = v(); else if (a == "--violdir") viol = v(); else if (a == "--limit") limit = atoi(v().c_str());
    else if (a == "--extra") { static std::string e; e = v(); g_extra = e.c_str(); }
    else if (a == "--list") { for (Prop* p = g_props; p; p = p->next) printf("%s %ld %s\n", p->name, p->weight, p->rule); return 0; } }
  Prop* p = nullptr; for (Prop* q = g_props; q; q = q->next) if (prop == q->name) p = q;
  if (!p) { fprintf(stderr, "no such property %s\n", prop.c_str()); return 2; }
  char tmpl[] = "/tmp/pbt.XXXXXX"; g_dir = mkdtemp(tmpl);
  struct Cleanup { ~Cleanup() { rmdir(g_dir.c_str()); } } cleanup;
  if (!replay.empty()) {
    std::vector<uint64_t> tape; FILE* f = fopen(replay.c_str(), "r"); if (!f) { perror("replay"); return 2; }
    char line[65536]; while (fgets(line, sizeof line, f)) { if (!strncmp(line, "tape:", 5)) { char* q = line + 5; char* e; for (;;) { unsigned long long x = strtoull(q, &e, 10); if (e == q) break; tape.push_back(x); q = e; } } }
    fclose(f); std::string m, text; int rc = run_child(p, tape, m, &text, limit);
    printf("replay rc=%d\n%s\ncase:\n%s\n", rc, m.c_str(), text.c_str()); return rc ? 1 : 0;
  }
  double t0 = now();
  size_t shsz = sizeof(Shared) + REC_CAP * 8;
  std::vector<Shared*> sh(jobs); std::vector<pid_t> pids(jobs, -1); std::vector<std::string> stats(jobs);
  for (int j = 0; j < jobs; j++) { sh[j] = (Shared*)mmap(nullptr, shsz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); sh[j]->cur = j; }
  auto start = [&](int j, uint64_t from) {
    sh[j]->cur = from; sh[j]->active = 0; sh[j]->failed = 0;
    pid_t pid = fork();
    if (pid == 0) {
      std::string sf = g_dir + "/stat." + std::to_string(j) + "." + std::to_string(from);
      int fd = open((g_dir + "/err." + std::to_string(j)).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2);
      int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
      std::unordered_set<uint64_t> seen; long n = 0, nt = 0; std::map<std::string, long> labels; std::vector<std::string> samples; bool stop = false; int rc = 0;
      for (uint64_t i = from; i < (uint64_t)cases && !stop; i += jobs) {
        if (now() - t0 > tmax) break;
        sh[j]->cur = i; sh[j]->nrec = 0; sh[j]->active = 1;
        alarm(limit);
        if ((n & 255) == 0) { if (ftruncate(2, 0) == 0) lseek(2, 0, SEEK_SET); }
        Tape t(case_seed(seed, i), sh[j]->rec, REC_CAP, &sh[j]->nrec); Case c; std::string m;
        bool ok = run_one(p, t, c, m);
        alarm(0);
        if (!ok) { snprintf(sh[j]->msg, sizeof sh[j]->msg, "%s", m.c_str()); sh[j]->failed = 1; rc = 1; stop = true; }
        sh[j]->active = 0; n++; sh[j]->done++;
        for (auto& l : c.labels) if (l.name) labels[l.name] += l.n;
        if (c.nontrivial && seen.insert(c.hash).second) { nt++; if (samples.size() < 3 && (nt % 97) == 1) samples.push_back(c.text.substr(0, 700)); }
      }
      FILE* f = fopen((sf + ".h").c_str(), "w"); for (uint64_t h : seen) fwrite(&h, 8, 1, f); fclose(f);
      f = fopen(sf.c_str(), "w"); fprintf(f, "%ld %ld\n", n, nt);
      for (auto& l : labels) fprintf(f, "L %ld %s\n", l.second, l.first.c_str());
      for (auto& s : samples) { std::string q = json_str(s); fprintf(f, "S %s\n", q.c_str()); }
      fclose(f); _exit(rc);
    }
    pids[j] = pid;
  };
  for (int j = 0; j < jobs; j++) start(j, j);
  int running = jobs; bool violated = false; long crashes_unrepro = 0; std::string vmsg, vtext; std::vector<uint64_t> vtape; int vkind = 0;
  std::vector<std::string> inconclusive;
  while (running > 0) {
    int st; pid_t pid = waitpid(-1, &st, 0); if (pid < 0) { if (errno == EINTR) continue; break; }
    int j = -1; for (int k = 0; k < jobs; k++) if (pids[k] == pid) j = k; if (j < 0) continue;
    running--; pids[j] = -1;
    bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    if (bad && !violated) {
      std::vector<uint64_t> tape(sh[j]->rec, sh[j]->rec + sh[j]->nrec); uint64_t at = sh[j]->cur;
      std::string m; int kind = run_child(p, tape, m, nullptr, limit); int again = 0;
      if (kind) { again = 1; for (int r = 0; r < 2; r++) { std::string m2; int k2 = run_child(p, tape, m2, nullptr, limit); if (k2) { again++; } } }
      if (kind && again == 3) {
        violated = true; for (int k = 0; k < jobs; k++) if (pids[k] > 0) kill(pids[k], SIGKILL);
        vtape = shrink(p, tape, kind, limit, kind == 3 ? 60 : 40); vkind = run_child(p, vtape, vmsg, &vtext, limit);
        if (!vkind) { vtape = tape; vkind = run_child(p, vtape, vmsg, &vtext, limit); }
        if (vkind >= 2 && vtext.empty()) { // describe by live notes
          setenv("PBT_LIVE", "1", 1); }
      } else { crashes_unrepro++; inconclusive.push_back("case " + std::to_string(at) + " status " + std::to_string(st) + " " + sh[j]->msg);
        if (crashes_unrepro < 50 && now() - t0 < tmax) { start(j, at + jobs); running++; } }
    }
  }
  // merge
  long n = 0, nt = 0; std::map<std::string, long> labels; std::vector<std::string> samples; uint64_t done = 0; std::unordered_set<uint64_t> all;
  for (int j = 0; j < jobs; j++) done += sh[j]->done;
  std::string cmd; { // iterate stat files
    FILE* ls = popen(("ls " + g_dir + "/stat.* 2>/dev/null").c_str(), "r"); char fn[512];
    while (fgets(fn, sizeof fn, ls)) { fn[strcspn(fn, "\n")] = 0; FILE* f = fopen(fn, "r"); char line[8192];
      size_t fl = strlen(fn); if (fl > 2 && !strcmp(fn + fl - 2, ".h")) { uint64_t h; while (fread(&h, 8, 1, f) == 1) all.insert(h); fclose(f); unlink(fn); continue; }
      if (fgets(line, sizeof line, f)) { long a, b; if (sscanf(line, "%ld %ld", &a, &b) == 2) { n += a; } }
      while (fgets(line, sizeof line, f)) { line[strcspn(line, "\n")] = 0; if (line[0] == 'L') { char* e; long v = strtol(line + 2, &e, 10); labels[e + 1] += v; } else if (line[0] == 'S' && samples.size() < 6) samples.push_back(line + 2); }
      fclose(f); unlink(fn); }
    pclose(ls); for (int j = 0; j < jobs; j++) unlink((g_dir + "/err." + std::to_string(j)).c_str()); }
  nt = (long)all.size();
  std::string rpath;
  if (violated) {
    mkdir(viol.c_str(), 0755);
    rpath = viol + "/" + prop + "-" + std::to_string(seed) + ".tape"; FILE* f = fopen(rpath.c_str(), "w");
    fprintf(f, "prop: %s\nkind: %d\nmessage: %s\ncase:\n%s\ntape:", p->name, vkind, vmsg.c_str(), vtext.c_str()); for (auto x : vtape) fprintf(f, " %llu", (unsigned long long)x); fprintf(f, "\n"); fclose(f);
    if (vkind >= 2) { // crash: notes of the case as printed live
      std::string err = g_dir + "/live"; pid_t q = fork(); if (q == 0) { int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2); alarm(limit); setenv("PBT_LIVE", "1", 1); Tape t(vtape.data(), vtape.size()); Case c; std::string m; run_one(p, t, c, m); _exit(0); }
      int st; waitpid(q, &st, 0); FILE* r = fopen(err.c_str(), "r"); f = fopen(rpath.c_str(), "a"); if (r) { fprintf(f, "live:\n"); char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, r)) > 0) fwrite(b, 1, k, f); fclose(r); } fclose(f); unlink(err.c_str()); }
  }
  FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
  fprintf(f, "{\"prop\":%s,\"rule\":%s,\"evaluations\":%ld,\"distinct_nontrivial\":%ld,\"wall_s\":%.2f,\"requested\":%ld,\"violated\":%s,\"replay\":%s,\"message\":%s,\"labels\":{",
    json_str(p->name).c_str(), json_str(p->rule).c_str(), n ? n : (long)done, nt, now() - t0, cases, violated ? "true" : "false", json_str(rpath).c_str(), json_str(vmsg.substr(0, 3000)).c_str());
  bool first = true; for (auto& l : labels) { fprintf(f, "%s%s:%ld", first ? "" : ",", json_str(l.first).c_str(), l.second); first = false; }
  fprintf(f, "},\"samples\":["); first = true; for (auto& s : samples) { fprintf(f, "%s%s", first ? "" : ",", s.c_str()); first = false; }
  fprintf(f, "],\"inconclusive\":["); first = true; for (auto& s : inconclusive) { fprintf(f, "%s%s", first ? "" : ",", json_str(s).c_str()); first = false; }
  fprintf(f, "]}\n"); if (f != stdout) fclose(f);
  return violated ? 1 : 0;
}
}
#ifdef PBT_FUZZER
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  static pbt::Prop* p = nullptr;
  if (!p) { const char* n = getenv("PBT_PROP"); for (pbt::Prop* q = pbt::g_props; q; q = q->next) if (n && !strcmp(n, q->name)) p = q; if (!p) { fprintf(stderr, "PBT_PROP?\n"); abort(); } }
  pbt::Tape t(data, size); pbt::Case c;
  try { p->body(t, c); } catch (pbt::Fail& f) { fprintf(stderr, "PROPERTY FAILED: %s\n%s\n", f.msg.c_str(), c.text.c_str()); abort(); }
  return 0;
}
#else
int main(int argc, char** argv) { return pbt::runner_main(argc, argv); }
#endif
