// C02: text conversion of values
#include "filtergen.h"
#include <vector>
#include <algorithm>
#include <limits.h>
#include <stdlib.h>
#include <ctype.h>
using namespace pbt;

// expected text of a value, computed independently ("" when the format is only constrained by parsing back)
static std::string ref_text(const MV& m) {
  char b[800];
  switch (m.type) {
    case RBUS_BOOLEAN: return m.u ? "true" : "false";
    case RBUS_CHAR: return m.i ? std::string(1, (char)m.i) : std::string();
    case RBUS_STRING: return m.s;
    case RBUS_BYTES: { std::string o; for (unsigned char x : m.s) { snprintf(b, 8, "%02X", x); o += b; } return o; }
    case RBUS_DATETIME: { const rbusTimeZone_t& z = m.dt.m_tz; const auto& d = m.dt.m_time; if (!d.tm_year) break;
      int n = snprintf(b, 200, "%04d-%02d-%02dT%02d:%02d:%02d", d.tm_year + 1900, d.tm_mon + 1, d.tm_mday, d.tm_hour, d.tm_min, d.tm_sec);
      if (z.m_tzhour || z.m_tzmin) snprintf(b + n, 100, "%c%02d:%02d", z.m_isWest ? '-' : '+', z.m_tzhour, z.m_tzmin); else snprintf(b + n, 100, "Z"); return b; } // ISO-8601
    default: break; }
  if (is_int(m.type) && m.type != RBUS_BYTE) { if (is_signed(m.type)) snprintf(b, 200, "%lld", (long long)m.i); else snprintf(b, 200, "%llu", (unsigned long long)m.u); return b; }
  return "\x01"; }

PROP(render_parse, 3, "any value of the 16 scalar types rendered into an exactly sized heap buffer of 0..len+3 bytes and into an allocated one, then parsed back; non-trivial: the buffer is too small by 1..3, exactly fits, or the text is longer than 24 characters") {
  size_t h0 = heap_bytes();
  {
    MV m = gen_value(t, 400, false); c.note("%s", mv_show(m).c_str()); c.label(tname(m.type));
    rbusValue_t v = init_value(m);
    char* full = rbusValue_ToString(v, nullptr, 0); CHECK(full != nullptr, "no text");
    size_t L = strlen(full);
    std::string ref = ref_text(m); if (ref != "\x01") CHECK(ref == full, "text is %s, expected %s", esc(full).c_str(), esc(ref).c_str());
    size_t n; switch (t.draw(6)) { case 0: n = L; break; case 1: n = L + 1; break; case 2: n = L + t.draw(4); break; case 3: n = t.draw(L + 2); break; case 4: n = t.draw(4); break; default: n = L > 3 ? L - t.draw(3) : L + 1; }
    c.note(" into %zu bytes (text %zu)", n, L);
    char* buf = (char*)malloc(n ? n : 1); memset(buf, 0x5a, n ? n : 1);
    char* r = rbusValue_ToString(v, buf, n); CHECK(r == buf, "did not return the caller's buffer");
    if (n == 0) CHECK(buf[0] == 0x5a, "wrote to a zero-length buffer"); else {
      size_t k = strnlen(buf, n); bool cut = m.type == RBUS_STRING && n <= L && k == n && !memcmp(buf, full, n); // known finding: a cut string fills the buffer
      if (cut) c.label("cut string fills the buffer"); else { CHECK(k < n, "text not terminated in %zu bytes", n); size_t want = std::min(L, n - 1); CHECK(k == want && !memcmp(buf, full, want), "into %zu bytes: %s, expected first %zu of %s", n, esc(std::string(buf, k)).c_str(), want, esc(full).c_str()); } }
    free(buf);
    std::string e = check_value(v, m); if (e.size()) c.fail("rendering changed the value: %s", e.c_str());
    // debug rendering: bounded and terminated
    { char* d = rbusValue_ToDebugString(v, nullptr, 0); CHECK(d, "no debug text"); size_t dl = strlen(d); size_t dn = 1 + t.draw(dl + 3); char* db = (char*)malloc(dn); char* rr = rbusValue_ToDebugString(v, db, dn); CHECK(rr == db, "debug buffer"); size_t k = strnlen(db, dn); CHECK(k < dn && k == std::min(dl, dn - 1) && !memcmp(db, d, k), "debug text differs in %zu bytes", dn); free(db); free(d); }
    // parse back
    rbusValue_t p; rbusValue_Init(&p); if (t.draw(2)) set_value(p, gen_value(t, 60));
    if (m.type != RBUS_BYTE && m.type != RBUS_BYTES) {
      bool ok = rbusValue_SetFromString(p, m.type, full); bool sentinel = m.type == RBUS_DATETIME && m.dt.m_time.tm_year == 0;
      CHECK(ok, "own text %s refused", esc(full).c_str()); CHECK(rbusValue_GetType(p) == m.type, "parsed type is %s", tname(rbusValue_GetType(p)));
      if (m.type == RBUS_SINGLE) { float x = rbusValue_GetSingle(p); if (std::isnan(m.f)) CHECK(std::isnan(x), "NaN"); else if (std::isinf(m.f)) CHECK(x == (float)m.f, "inf"); else CHECK(fabs((double)x - m.f) <= 0.51e-6 + fabs(m.f) * 1.2e-7, "parsed %.9g from %s of %.9g", x, full, m.f); }
      else if (m.type == RBUS_DOUBLE) { double x = rbusValue_GetDouble(p); if (std::isnan(m.f)) CHECK(std::isnan(x), "NaN"); else if (std::isinf(m.f)) CHECK(x == m.f, "inf"); else CHECK(fabs(x - m.f) <= 0.51e-15 + fabs(m.f) * 2.3e-16, "parsed %.17g from %s of %.17g", x, full, m.f); }
      else if (m.type == RBUS_DATETIME) { const rbusDateTime_t* d = rbusValue_GetTime(p); (void)sentinel;
        CHECK(d->m_time.tm_year == m.dt.m_time.tm_year && d->m_time.tm_mon == m.dt.m_time.tm_mon && d->m_time.tm_mday == m.dt.m_time.tm_mday && d->m_time.tm_hour == m.dt.m_time.tm_hour && d->m_time.tm_min == m.dt.m_time.tm_min && d->m_time.tm_sec == m.dt.m_time.tm_sec && d->m_tz.m_tzhour == m.dt.m_tz.m_tzhour && d->m_tz.m_tzmin == m.dt.m_tz.m_tzmin && !!d->m_tz.m_isWest == !!m.dt.m_tz.m_isWest, "date-time parsed back from %s differs", full);
        CHECK(rbusValue_Compare(p, v) == 0, "date-time parsed back from %s does not compare equal", full);
        CHECK(d->m_time.tm_isdst == 0, "date-time parsed from %s carries daylight flag %d", full, d->m_time.tm_isdst); }
      else { std::string q = check_value(p, m); if (q.size()) c.fail("parsed back from %s: %s", esc(full).c_str(), q.c_str()); CHECK(rbusValue_Compare(p, v) == 0, "does not compare equal"); }
    }
    rbusValue_Releases(2, v, p); c.nontrivial = (n >= 1 && n + 3 >= L && n <= L + 1) || L > 24; free(full);
  }
  LEAKCHECK(h0);
}

static void lim(rbusValueType_t ty, long long* lo, unsigned long long* hi) {
  switch (ty) { case RBUS_INT8: *lo = INT8_MIN; *hi = INT8_MAX; break; case RBUS_UINT8: *lo = 0; *hi = UINT8_MAX; break; case RBUS_INT16: *lo = INT16_MIN; *hi = INT16_MAX; break; case RBUS_UINT16: *lo = 0; *hi = UINT16_MAX; break;
    case RBUS_INT32: *lo = INT32_MIN; *hi = INT32_MAX; break; case RBUS_UINT32: *lo = 0; *hi = UINT32_MAX; break; case RBUS_INT64: *lo = INT64_MIN; *hi = INT64_MAX; break; default: *lo = 0; *hi = UINT64_MAX; } }

// text for an integer type: plain decimal in range -> accepted with that value; not a number, or out of range -> refused.
// Notations the library may or may not take (hex, octal, surrounding blanks) are left alone.
enum Verdict { ACCEPT, REFUSE, EITHER };
static Verdict judge_int(const std::string& s, rbusValueType_t ty, long long* sv, unsigned long long* uv) {
  size_t i = 0; while (i < s.size() && isspace((unsigned char)s[i])) i++;
  bool blank = i > 0; size_t st = i; bool neg = false, sign = false; if (i < s.size() && (s[i] == '+' || s[i] == '-')) { neg = s[i] == '-'; sign = true; i++; }
  size_t d0 = i; while (i < s.size() && isdigit((unsigned char)s[i])) i++;
  size_t nd = i - d0; (void)st;
  if (nd == 0) return REFUSE;
  if (i < s.size()) { if (s[d0] == '0' && nd == 1 && (s[i] == 'x' || s[i] == 'X')) { for (size_t k = i + 1; k < s.size(); k++) if (!isxdigit((unsigned char)s[k])) return REFUSE; return i + 1 == s.size() ? REFUSE : EITHER; } return REFUSE; }
  size_t z = d0; while (z + 1 < i && s[z] == '0') z++;
  bool lead0 = z > d0 && (ty == RBUS_INT8 || ty == RBUS_UINT8); // octal there
  unsigned long long mag = 0; bool ovf = false; for (size_t k = z; k < i; k++) { unsigned dg = s[k] - '0'; if (mag > (ULLONG_MAX - dg) / 10) { ovf = true; break; } mag = mag * 10 + dg; }
  if (lead0) return ovf ? EITHER : EITHER;
  long long lo; unsigned long long hi; lim(ty, &lo, &hi);
  bool in = !ovf && (neg ? (mag == 0 || (lo < 0 && mag <= (unsigned long long)(-(lo + 1)) + 1)) : mag <= hi);
  if (!in) return REFUSE;
  *uv = neg ? 0ull - mag : mag; *sv = (long long)*uv;
  return blank || (sign && !neg) ? EITHER : ACCEPT; }

PROP(parse_refuse, 3, "texts built from digits, signs, blanks, junk, range limits +-2, empty text; for integers, booleans, floating point and date-times, parsed into a value already holding something; non-trivial: the text must be refused or is within 2 of a range limit") {
  size_t h0 = heap_bytes();
  {
    static const rbusValueType_t TY[] = {RBUS_INT8, RBUS_UINT8, RBUS_INT16, RBUS_UINT16, RBUS_INT32, RBUS_UINT32, RBUS_INT64, RBUS_UINT64, RBUS_BOOLEAN, RBUS_SINGLE, RBUS_DOUBLE, RBUS_DATETIME};
    rbusValueType_t ty = TY[t.draw(12)]; std::string s; bool limit = false;
    switch (t.draw(6)) {
      case 0: { long long lo; unsigned long long hi; lim(TY[t.draw(8)], &lo, &hi); char b[64]; if (t.draw(2)) { // around the top
            __uint128_t x = (__uint128_t)hi + t.draw(5); x = x >= 2 ? x - 2 : x; std::string r; do { r += (char)('0' + (int)(x % 10)); x /= 10; } while (x); std::reverse(r.begin(), r.end()); s = r; }
          else { snprintf(b, 64, "%lld", lo); s = b; if (t.draw(2) && s.size() > 1) s.back() = (char)('0' + t.draw(10)); } limit = true; break; }
      case 1: { int n = 1 + (int)t.draw(24); for (int i = 0; i < n; i++) s += (char)('0' + t.draw(10)); if (t.draw(3) == 2) s = "-" + s; break; }
      case 2: { int n = (int)t.draw(8); for (int i = 0; i < n; i++) s += "0123456789+-. xeE_,abTrueflsi:\t"[t.draw(31)]; break; }
      case 3: { char b[32]; snprintf(b, 32, "%lld", (long long)gen_int(t, 64, true)); s = b; switch (t.draw(5)) { case 0: s = " " + s; break; case 1: s += " "; break; case 2: s += (char)('a' + t.draw(26)); break; case 3: s = (t.draw(2) ? "+" : "--") + s; break; default: s += ".0"; } break; }
      case 4: { static const char* K[] = {"", "true", "false", "TRUE", "False", "tru", "true ", "1", "0", "2", "yes", "-1", "inf", "nan", "1e400", "1.5", "-1.5", "1.5x", "-", "+", ".", "0x", "0x1f", " -5", " -1", "\t-7", "-0", "2020-13-01T00:00:00Z", "2020-01-32T00:00:00Z", "2020-01-01T25:00:00Z", "hello", "2020-01-01", "T", "20200101T000000"}; s = K[t.draw(sizeof K / sizeof *K)]; break; }
      default: s = gen_string(t, 30); }
    c.note("%s <- %s", tname(ty), esc(s).c_str()); c.label(tname(ty));
    MV old = gen_value(t, 60); rbusValue_t v = init_value(old); Verdict vd = EITHER; long long sv = 0; unsigned long long uv = 0;
    if (is_int(ty) && ty != RBUS_BOOLEAN) vd = judge_int(s, ty, &sv, &uv);
    else if (ty == RBUS_BOOLEAN) { if (!strcasecmp(s.c_str(), "true") || s == "1") { vd = ACCEPT; uv = 1; } else if (!strcasecmp(s.c_str(), "false") || s == "0") { vd = ACCEPT; uv = 0; } else vd = REFUSE; }
    else if (ty == RBUS_SINGLE || ty == RBUS_DOUBLE) { char* e = nullptr; double d = strtod(s.c_str(), &e); if (e == s.c_str() || *e) vd = REFUSE; else if (ty == RBUS_SINGLE ? std::isinf((float)d) && !std::isinf(d) : false) vd = REFUSE; }
    else { // date-time: needs at least Y-m-dTH:M:S with fields in range
      struct tm x; memset(&x, 0, sizeof x); if (s.compare(0, 5, "0000-") != 0 && !strptime(s.c_str(), "%Y-%m-%dT%H:%M:%S", &x) && !strptime(s.c_str(), "%Y-%m-%d %H:%M:%S", &x)) vd = REFUSE; }
    bool ok = rbusValue_SetFromString(v, ty, s.c_str());
    if (vd == ACCEPT) CHECK(ok, "%s refused for %s", esc(s).c_str(), tname(ty)); if (vd == REFUSE) CHECK(!ok, "%s accepted for %s", esc(s).c_str(), tname(ty));
    if (!ok) { std::string e = check_value(v, old); if (e.size()) c.fail("refused text changed the value: %s", e.c_str()); }
    else { CHECK(rbusValue_GetType(v) == ty, "type after parse"); if (vd == ACCEPT) { MV w; w.type = ty; w.u = uv; w.i = (int64_t)uv; std::string e = check_value(v, w); if (e.size()) c.fail("parsed %s: %s", esc(s).c_str(), e.c_str()); } }
    CHECK(!rbusValue_SetFromString(v, ty, nullptr), "NULL text accepted");
    rbusValue_Release(v); c.nontrivial = vd == REFUSE || limit; c.label(vd == REFUSE ? "must-refuse" : vd == ACCEPT ? "must-accept" : "either");
  }
  LEAKCHECK(h0);
}

// what the writing functions print for whole lists, trees and filters
struct Shown { std::string name; bool nn = false; std::vector<std::pair<std::string, MV>> props; std::vector<Shown> kids; };
static Shown gen_shown(Tape& t, int depth) { Shown x; x.nn = t.draw(12) == 11; x.name = gen_string(t, 12); int n = (int)t.draw(4); for (int i = 0; i < n; i++) x.props.push_back({gen_string(t, 8) + std::to_string(i), gen_value(t, 60, false)}); if (depth) { int k = (int)t.draw(3); for (int i = 0; i < k; i++) x.kids.push_back(gen_shown(t, depth - 1)); } return x; }
static rbusObject_t build_shown(const Shown& x) { rbusObject_t o, prev = nullptr; rbusObject_Init(&o, x.nn ? nullptr : x.name.c_str()); for (auto& p : x.props) { rbusValue_t v = init_value(p.second); rbusObject_SetValue(o, p.first.c_str(), v); rbusValue_Release(v); }
  for (auto& k : x.kids) { rbusObject_t q = build_shown(k); if (prev) rbusObject_SetNext(prev, q); else rbusObject_SetChildren(o, q); prev = q; rbusObject_Release(q); } return o; }
static const char* RBNAME(rbusValueType_t ty) { switch (ty) {
#define T(X) case X: return #X;
  T(RBUS_BOOLEAN) T(RBUS_CHAR) T(RBUS_BYTE) T(RBUS_INT8) T(RBUS_UINT8) T(RBUS_INT16) T(RBUS_UINT16) T(RBUS_INT32) T(RBUS_UINT32) T(RBUS_INT64) T(RBUS_UINT64) T(RBUS_SINGLE) T(RBUS_DOUBLE) T(RBUS_DATETIME) T(RBUS_STRING) T(RBUS_BYTES)
#undef T
  default: return "?"; } }
static std::string value_text(const MV& m) { rbusValue_t v = init_value(m); char* s = rbusValue_ToString(v, nullptr, 0); std::string r = std::string("rbusValue type:") + RBNAME(m.type) + " value:" + s; free(s); rbusValue_Release(v); return r; } // the text itself is judged by render_parse
static std::string shown_text(const Shown& x, int d) { std::string r = std::string(d, ' ') + "rbusObject name=" + (x.nn ? "(null)" : x.name.c_str()) + "\r\n"; for (auto& p : x.props) r += std::string(d + 1, ' ') + "rbusProperty name=" + p.first + "\r\n" + std::string(d + 2, ' ') + value_text(p.second) + "\r\n"; for (auto& k : x.kids) r += shown_text(k, d + 1); return r; }
static void shown_note(const Shown& x, Case& c) { c.note("%s{", x.name.c_str()); for (auto& p : x.props) c.note("%s=%s,", p.first.c_str(), mv_show(p.second, 8).c_str()); for (auto& k : x.kids) shown_note(k, c); c.note("}"); }
static int shown_count(const Shown& x) { int n = 1 + (int)x.props.size(); for (auto& k : x.kids) n += shown_count(k); return n; }
static std::string filter_text(const FT& f, const std::string& x) { static const char* R[] = {">", ">=", "<", "<=", "==", "!="}; if (f.rel) return x + R[f.op] + value_text(f.v); if (f.op == RBUS_FILTER_OPERATOR_NOT) return "!(" + filter_text(*f.l, x) + ")"; return "(" + filter_text(*f.l, x) + (f.op == RBUS_FILTER_OPERATOR_AND ? " && " : " || ") + filter_text(*f.r, x) + ")"; }
PROP(written_trees, 3, "object trees of up to 3 levels with named values, property lists and filters of depth 0..4 written to a stream: every entry appears once, in order, at its depth, with its type and text; non-trivial: at least 4 entries or a filter with two relations") {
  size_t h0 = heap_bytes();
  { char* out = nullptr; size_t n = 0; FILE* f = open_memstream(&out, &n); std::string want; int d = (int)t.draw(4);
    if (t.draw(3) == 2) { FTp x = ft_gen(t, SCALARS[t.draw(N_SCALARS)], (int)t.draw(5)); bool has = t.draw(2); MV m = gen_value(t, 40, false); c.note("%s", ft_show(*x).c_str()); rbusFilter_t r = ft_build(*x); rbusValue_t v = has ? init_value(m) : nullptr;
      rbusFilter_fwrite(r, f, v); want = filter_text(*x, has ? value_text(m) : "X"); rbusFilter_Release(r); if (v) rbusValue_Release(v); c.nontrivial = ft_count(*x) >= 3; c.label("filter"); }
    else { Shown x = gen_shown(t, (int)t.draw(3)); shown_note(x, c); rbusObject_t o = build_shown(x); rbusObject_fwrite(o, d, f); want = shown_text(x, d); rbusObject_Release(o); c.nontrivial = shown_count(x) >= 4; c.label("object"); if (!x.props.size() && x.kids.size()) c.label("only children"); }
    fclose(f); std::string got(out, n); free(out);
    if (got != want) { size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++; c.fail("written text differs at %zu of %zu: ...%s, expected ...%s", i, want.size(), esc(got.substr(i, 60)).c_str(), esc(want.substr(i, 60)).c_str()); } }
  LEAKCHECK(h0);
}

PROP(kf_cut_string, 0, "demonstrator: a string cut to fit the caller's buffer is not terminated") {
  rbusValue_t v = rbusValue_InitString("0123456789"); char b[16]; memset(b, 0x5a, sizeof b); rbusValue_ToString(v, b, 6); rbusValue_Release(v); CHECK(memchr(b, 0, 6), "no terminator within the 6 bytes");
}
