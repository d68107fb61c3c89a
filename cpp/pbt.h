// Small property-based testing engine.
// A case is a pure function of a "tape" of choices.  In random mode the choices come from a
// seeded generator and are recorded; a failing tape is shrunk by editing it (delete blocks,
// zero, halve, decrement) and re-running; the shrunk tape is the replay file.  The same
// property bodies run under libFuzzer (bytes -> choices).
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <functional>
#include <map>

namespace pbt {

struct Fail { std::string msg; bool leak = false; };

class Tape {
public:
  enum Mode { RANDOM, REPLAY, BYTES };
  // recorded choices live in caller-provided memory so that a crash does not lose them
  Tape(uint64_t seed, uint64_t* rec, size_t cap, size_t* nrec);
  Tape(const uint64_t* vals, size_t n);
  Tape(const uint8_t* bytes, size_t n);
  uint64_t draw(uint64_t n);             // uniform in [0,n), n>=1 ; n==0 means full 64 bit
  int64_t range(int64_t lo, int64_t hi); // inclusive; shrinks to lo
  bool chance(unsigned num, unsigned den) { return draw(den) < num; }   // shrinks to true if num>0: see flip
  bool flip(unsigned num, unsigned den) { return draw(den) >= den - num; } // shrinks to false
  bool exhausted() const { return mode_ != RANDOM && pos_ >= n_; }
  Tape again() const { return mode_ == RANDOM ? Tape(rec_, *nrec_) : mode_ == REPLAY ? Tape(vals_, n_) : Tape(bytes_, n_); }
  size_t used() const { return pos_; }
private:
  uint64_t next();
  Mode mode_;
  uint64_t s_[4];
  uint64_t* rec_ = nullptr; size_t cap_ = 0; size_t* nrec_ = nullptr;
  const uint64_t* vals_ = nullptr; const uint8_t* bytes_ = nullptr;
  size_t n_ = 0, pos_ = 0;
};

// Per case bookkeeping
struct Case {
  bool nontrivial = false;
  std::string text;                      // printable rendering of the case (bounded)
  uint64_t hash = 1469598103934665603ull;
  // labels are string literals; fixed storage so that counting does not touch the heap
  struct Lab { const char* name; long n; } labels[48] = {};
  void label(const char* l) { for (auto& x : labels) { if (!x.name) x.name = l; if (x.name == l) { x.n++; return; } } }
  Case() { text.reserve(8600); }
  void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
};

typedef void (*Body)(Tape&, Case&);
struct Prop { const char* name; Body body; Prop* next; const char* rule; long weight; };
extern Prop* g_props;
struct Reg { Reg(Prop* p) { p->next = g_props; g_props = p; } };

#define PROP(NAME, WEIGHT, RULE) \
  static void prop_##NAME(pbt::Tape& t, pbt::Case& c); \
  static pbt::Prop prop_rec_##NAME = { #NAME, prop_##NAME, nullptr, RULE, WEIGHT }; \
  static pbt::Reg prop_reg_##NAME(&prop_rec_##NAME); \
  static void prop_##NAME(pbt::Tape& t, pbt::Case& c)

// heap balance; a first imbalance may be a lazy one-time allocation, so the engine re-runs the case
#define LEAKCHECK(H0) do { size_t h1_ = pbt::heap_bytes(); if (h1_ != (H0)) throw pbt::Fail{"storage not released: " + std::to_string(H0) + " bytes before the case, " + std::to_string(h1_) + " after", true}; } while (0)
#define CHECK(COND, ...) do { if (!(COND)) c.fail(__VA_ARGS__); } while (0)

std::string esc(const std::string& s, size_t max = 60);
std::string hex(const uint8_t* p, size_t n, size_t max = 32);
size_t heap_bytes();                      // currently allocated bytes (sanitizer allocator), 0 if unknown
extern const char* g_extra;               // --extra argument (e.g. list of excluded known findings)

// common generators
std::string gen_string(Tape& t, size_t maxlen);
std::string gen_bytes(Tape& t, size_t maxlen);
extern int g_argc; extern char** g_argv;
int64_t gen_int(Tape& t, int bits, bool sign);
double gen_double(Tape& t);
float gen_float(Tape& t);
size_t gen_len(Tape& t, size_t max);
}
