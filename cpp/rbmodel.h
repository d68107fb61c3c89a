// Reference model of rbus values shared by the in-process properties.
#pragma once
#include "pbt.h"
#include <rbus.h>
#include <string.h>
#include <cmath>
#include <time.h>
extern "C" {
#include <rbus_buffer.h>
}

struct MV {
  rbusValueType_t type = RBUS_NONE;
  int64_t i = 0;          // every integral type, sign extended / zero extended
  uint64_t u = 0;
  double f = 0;           // single / double
  std::string s;          // string / bytes content
  bool null = false;      // NULL string / bytes
  rbusDateTime_t dt;
  MV() { memset(&dt, 0, sizeof dt); }
};

static const rbusValueType_t SCALARS[] = { RBUS_BOOLEAN, RBUS_CHAR, RBUS_BYTE, RBUS_INT8, RBUS_UINT8, RBUS_INT16, RBUS_UINT16,
  RBUS_INT32, RBUS_UINT32, RBUS_INT64, RBUS_UINT64, RBUS_SINGLE, RBUS_DOUBLE, RBUS_DATETIME, RBUS_STRING, RBUS_BYTES };
static const int N_SCALARS = sizeof SCALARS / sizeof *SCALARS;

static inline const char* tname(rbusValueType_t t) {
  switch (t) { case RBUS_BOOLEAN: return "bool"; case RBUS_CHAR: return "char"; case RBUS_BYTE: return "byte"; case RBUS_INT8: return "i8"; case RBUS_UINT8: return "u8";
    case RBUS_INT16: return "i16"; case RBUS_UINT16: return "u16"; case RBUS_INT32: return "i32"; case RBUS_UINT32: return "u32"; case RBUS_INT64: return "i64"; case RBUS_UINT64: return "u64";
    case RBUS_SINGLE: return "f32"; case RBUS_DOUBLE: return "f64"; case RBUS_DATETIME: return "time"; case RBUS_STRING: return "str"; case RBUS_BYTES: return "bytes";
    case RBUS_PROPERTY: return "prop"; case RBUS_OBJECT: return "obj"; case RBUS_NONE: return "none"; default: return "?"; } }
static inline bool is_signed(rbusValueType_t t) { return t == RBUS_CHAR || t == RBUS_INT8 || t == RBUS_INT16 || t == RBUS_INT32 || t == RBUS_INT64; }
static inline bool is_int(rbusValueType_t t) { return t != RBUS_SINGLE && t != RBUS_DOUBLE && t <= RBUS_DOUBLE; }
static inline int int_bits(rbusValueType_t t) {
  switch (t) { case RBUS_BOOLEAN: return 1; case RBUS_CHAR: case RBUS_BYTE: case RBUS_INT8: case RBUS_UINT8: return 8; case RBUS_INT16: case RBUS_UINT16: return 16;
    case RBUS_INT32: case RBUS_UINT32: return 32; default: return 64; } }

static inline std::string mv_show(const MV& v, size_t max = 24) {
  char b[200];
  if (is_int(v.type)) { if (is_signed(v.type)) snprintf(b, 200, "%s:%lld", tname(v.type), (long long)v.i); else snprintf(b, 200, "%s:%llu", tname(v.type), (unsigned long long)v.u); return b; }
  if (v.type == RBUS_SINGLE || v.type == RBUS_DOUBLE) { snprintf(b, 200, "%s:%.17g", tname(v.type), v.f); return b; }
  if (v.type == RBUS_DATETIME) { snprintf(b, 200, "time:%d-%d-%dT%d:%d:%d%c%d:%d", v.dt.m_time.tm_year, v.dt.m_time.tm_mon, v.dt.m_time.tm_mday, v.dt.m_time.tm_hour, v.dt.m_time.tm_min, v.dt.m_time.tm_sec, v.dt.m_tz.m_isWest ? '-' : '+', v.dt.m_tz.m_tzhour, v.dt.m_tz.m_tzmin); return b; }
  if (v.type == RBUS_STRING) return v.null ? "str:NULL" : "str:" + pbt::esc(v.s, max);
  if (v.type == RBUS_BYTES) { if (v.null) return "bytes:NULL"; snprintf(b, 200, "bytes[%zu]:", v.s.size()); return b + pbt::hex((const uint8_t*)v.s.data(), v.s.size(), max / 2); }
  return tname(v.type); }

static inline bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static inline int mdays(int y, int m) { static const int d[] = {31,28,31,30,31,30,31,31,30,31,30,31}; return d[m] + (m == 1 && leap(y)); }

// calendar date-times; fields as the API stores them (year since 1900, month 0..11).  Year field 0 is
// the library's "unknown time" sentinel and is generated only as the all-zero value.
static inline void gen_datetime(pbt::Tape& t, rbusDateTime_t* d, bool derived_fields) {
  memset(d, 0, sizeof *d);
  if (t.draw(12) == 11) return;
  int y = t.draw(3) == 2 ? 1901 + (int)t.draw(8098) : 1971 + (int)t.draw(80);
  int m = (int)t.draw(12), day = 1 + (int)t.draw(mdays(y, m));
  d->m_time.tm_year = y - 1900; d->m_time.tm_mon = m; d->m_time.tm_mday = day;
  d->m_time.tm_hour = (int)t.draw(24); d->m_time.tm_min = (int)t.draw(60); d->m_time.tm_sec = (int)t.draw(60);
  if (t.draw(2)) { d->m_tz.m_tzhour = (int)t.draw(15); d->m_tz.m_tzmin = t.draw(2) ? (int)t.draw(60) : 30 * (int)t.draw(2); d->m_tz.m_isWest = (d->m_tz.m_tzhour || d->m_tz.m_tzmin) ? t.draw(2) : 0; }
  if (derived_fields) { struct tm x; memset(&x, 0, sizeof x); rbusValue_UnMarshallRBUStoTM(&x, d); timegm(&x); d->m_time.tm_wday = x.tm_wday; d->m_time.tm_yday = x.tm_yday; } }

static inline int64_t dt_epoch(const rbusDateTime_t& d) { // instant in seconds (UTC), proleptic Gregorian
  int64_t y = d.m_time.tm_year + 1900, m = d.m_time.tm_mon + 1; int64_t day = d.m_time.tm_mday;
  y -= m <= 2; int64_t era = (y >= 0 ? y : y - 399) / 400; int64_t yoe = y - era * 400; int64_t doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + day - 1; int64_t doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  int64_t days = era * 146097 + doe - 719468;
  int64_t s = ((days * 24 + d.m_time.tm_hour) * 60 + d.m_time.tm_min) * 60 + d.m_time.tm_sec;
  int64_t off = (int64_t)d.m_tz.m_tzhour * 3600 + (int64_t)d.m_tz.m_tzmin * 60;
  return d.m_tz.m_isWest ? s + off : s - off; }

static inline MV gen_value_of(pbt::Tape& t, rbusValueType_t type, size_t maxlen = 600, bool nulls = true) {
  MV v; v.type = type;
  if (is_int(type)) { v.i = pbt::gen_int(t, int_bits(type), is_signed(type)); v.u = (uint64_t)v.i; return v; }
  switch (type) {
    case RBUS_SINGLE: v.f = pbt::gen_float(t); break;
    case RBUS_DOUBLE: v.f = pbt::gen_double(t); break;
    case RBUS_DATETIME: gen_datetime(t, &v.dt, true); break;
    case RBUS_STRING: if (nulls && t.draw(24) == 23) v.null = true; else v.s = pbt::gen_string(t, maxlen); break;
    case RBUS_BYTES: if (nulls && t.draw(24) == 23) v.null = true; else v.s = pbt::gen_bytes(t, maxlen); break;
    default: break; }
  return v; }
static inline MV gen_value(pbt::Tape& t, size_t maxlen = 600, bool nulls = true) { return gen_value_of(t, SCALARS[t.draw(N_SCALARS)], maxlen, nulls); }

static inline void set_value(rbusValue_t v, const MV& m) {
  switch (m.type) {
    case RBUS_BOOLEAN: rbusValue_SetBoolean(v, m.u != 0); break; case RBUS_CHAR: rbusValue_SetChar(v, (char)m.i); break; case RBUS_BYTE: rbusValue_SetByte(v, (unsigned char)m.u); break;
    case RBUS_INT8: rbusValue_SetInt8(v, (int8_t)m.i); break; case RBUS_UINT8: rbusValue_SetUInt8(v, (uint8_t)m.u); break; case RBUS_INT16: rbusValue_SetInt16(v, (int16_t)m.i); break;
    case RBUS_UINT16: rbusValue_SetUInt16(v, (uint16_t)m.u); break; case RBUS_INT32: rbusValue_SetInt32(v, (int32_t)m.i); break; case RBUS_UINT32: rbusValue_SetUInt32(v, (uint32_t)m.u); break;
    case RBUS_INT64: rbusValue_SetInt64(v, m.i); break; case RBUS_UINT64: rbusValue_SetUInt64(v, m.u); break; case RBUS_SINGLE: rbusValue_SetSingle(v, (float)m.f); break; case RBUS_DOUBLE: rbusValue_SetDouble(v, m.f); break;
    case RBUS_DATETIME: rbusValue_SetTime(v, &m.dt); break; case RBUS_STRING: rbusValue_SetString(v, m.null ? nullptr : m.s.c_str()); break;
    case RBUS_BYTES: rbusValue_SetBytes(v, m.null ? nullptr : (const uint8_t*)m.s.data(), (int)m.s.size()); break; default: break; } }
static inline rbusValue_t init_value(const MV& m) {
  switch (m.type) {
    case RBUS_BOOLEAN: return rbusValue_InitBoolean(m.u != 0); case RBUS_CHAR: return rbusValue_InitChar((char)m.i); case RBUS_BYTE: return rbusValue_InitByte((unsigned char)m.u);
    case RBUS_INT8: return rbusValue_InitInt8((int8_t)m.i); case RBUS_UINT8: return rbusValue_InitUInt8((uint8_t)m.u); case RBUS_INT16: return rbusValue_InitInt16((int16_t)m.i);
    case RBUS_UINT16: return rbusValue_InitUInt16((uint16_t)m.u); case RBUS_INT32: return rbusValue_InitInt32((int32_t)m.i); case RBUS_UINT32: return rbusValue_InitUInt32((uint32_t)m.u);
    case RBUS_INT64: return rbusValue_InitInt64(m.i); case RBUS_UINT64: return rbusValue_InitUInt64(m.u); case RBUS_SINGLE: return rbusValue_InitSingle((float)m.f); case RBUS_DOUBLE: return rbusValue_InitDouble(m.f);
    case RBUS_DATETIME: return rbusValue_InitTime(&m.dt); case RBUS_STRING: return rbusValue_InitString(m.null ? nullptr : m.s.c_str());
    case RBUS_BYTES: return rbusValue_InitBytes(m.null ? nullptr : (const uint8_t*)m.s.data(), (int)m.s.size()); default: return rbusValue_Init(nullptr); } }

// "" if the value holds exactly the model's type and content, else a description of the difference
static inline std::string check_value(rbusValue_t v, const MV& m) {
  char b[400]; if (!v) return "value is NULL";
  if (rbusValue_GetType(v) != m.type) { snprintf(b, 400, "type is %s, expected %s", tname(rbusValue_GetType(v)), mv_show(m).c_str()); return b; }
#define RB_I(T, CT, G) case T: { CT x = rbusValue_Get##G(v), y = (CT)(x + 1); rbusValueError_t e = rbusValue_Get##G##Ex(v, &y); CT w = (CT)m.i; if (x != w || e != RBUS_VALUE_ERROR_SUCCESS || y != w) { snprintf(b, 400, "got %lld / Ex %lld (err %d), expected %s", (long long)x, (long long)y, e, mv_show(m).c_str()); return b; } return ""; }
  switch (m.type) {
    case RBUS_BOOLEAN: { bool x = rbusValue_GetBoolean(v), y = !x; rbusValueError_t e = rbusValue_GetBooleanEx(v, &y); bool w = m.u != 0; if (x != w || e || y != w) { snprintf(b, 400, "got %d/%d, expected %s", x, y, mv_show(m).c_str()); return b; } return ""; }
    RB_I(RBUS_CHAR, char, Char) RB_I(RBUS_BYTE, unsigned char, Byte) RB_I(RBUS_INT8, int8_t, Int8) RB_I(RBUS_UINT8, uint8_t, UInt8) RB_I(RBUS_INT16, int16_t, Int16) RB_I(RBUS_UINT16, uint16_t, UInt16)
    RB_I(RBUS_INT32, int32_t, Int32) RB_I(RBUS_UINT32, uint32_t, UInt32) RB_I(RBUS_INT64, int64_t, Int64) RB_I(RBUS_UINT64, uint64_t, UInt64)
    case RBUS_SINGLE: { float x = rbusValue_GetSingle(v), y = 0; rbusValueError_t e = rbusValue_GetSingleEx(v, &y); float w = (float)m.f; if (memcmp(&x, &w, 4) || e || memcmp(&y, &w, 4)) { snprintf(b, 400, "got %.9g/%.9g, expected %s", x, y, mv_show(m).c_str()); return b; } return ""; }
    case RBUS_DOUBLE: { double x = rbusValue_GetDouble(v), y = 0; rbusValueError_t e = rbusValue_GetDoubleEx(v, &y); if (memcmp(&x, &m.f, 8) || e || memcmp(&y, &m.f, 8)) { snprintf(b, 400, "got %.17g/%.17g, expected %s", x, y, mv_show(m).c_str()); return b; } return ""; }
    case RBUS_DATETIME: { const rbusDateTime_t* x = rbusValue_GetTime(v); const rbusDateTime_t* y = nullptr; rbusValueError_t e = rbusValue_GetTimeEx(v, &y);
      if (!x || !y || e) return "GetTime failed"; const rbusDateTime_t* p[2] = {x, y};
      for (auto q : p) if (memcmp(&q->m_time, &m.dt.m_time, sizeof m.dt.m_time) || q->m_tz.m_tzhour != m.dt.m_tz.m_tzhour || q->m_tz.m_tzmin != m.dt.m_tz.m_tzmin || !!q->m_tz.m_isWest != !!m.dt.m_tz.m_isWest) { MV g; g.type = RBUS_DATETIME; g.dt = *q; snprintf(b, 400, "got %s, expected %s", mv_show(g).c_str(), mv_show(m).c_str()); return b; }
      return ""; }
    case RBUS_STRING: { int l1 = -7, l2 = -7, l3 = -7; const char* x = rbusValue_GetString(v, &l1); const char* y = (const char*)1; rbusValueError_t e = rbusValue_GetStringEx(v, &y, &l2); const char* z = rbusValue_GetString(v, nullptr);
      if (e) return "GetStringEx failed"; if (x != y || x != z) return "GetString variants disagree";
      if (m.null) return x ? "expected NULL string" : ""; if (!x) return "got NULL, expected " + mv_show(m);
      const uint8_t* w = rbusValue_GetBytes(v, &l3);
      if (l1 != (int)m.s.size() || l2 != l1 || l3 != l1 + 1 || (const char*)w != x || memcmp(x, m.s.c_str(), m.s.size() + 1)) { std::string g(x, strnlen(x, 200)); snprintf(b, 400, "got len %d/%d/%d %s, expected [%zu] %s", l1, l2, l3, pbt::esc(g).c_str(), m.s.size(), mv_show(m).c_str()); return b; }
      return ""; }
    case RBUS_BYTES: { int l1 = -7, l2 = -7; const uint8_t* x = rbusValue_GetBytes(v, &l1); const uint8_t* y = (const uint8_t*)1; rbusValueError_t e = rbusValue_GetBytesEx(v, &y, &l2);
      if (e) return "GetBytesEx failed"; if (x != y) return "GetBytes variants disagree"; if (m.null) return x || l1 ? "expected NULL bytes" : ""; if (!x && m.s.size()) return "got NULL, expected " + mv_show(m);
      if (l1 != (int)m.s.size() || l2 != l1 || memcmp(x, m.s.data(), m.s.size())) { snprintf(b, 400, "got len %d/%d %s, expected %s", l1, l2, pbt::hex(x, l1 > 0 ? l1 : 0).c_str(), mv_show(m).c_str()); return b; }
      return ""; }
    default: return ""; }
}
// wrong-type accessors must refuse
static inline std::string check_wrong(rbusValue_t v, const MV& m) {
  bool bo; char ch; unsigned char uc; int8_t i8; uint8_t u8; int16_t i16; uint16_t u16; int32_t i32; uint32_t u32; int64_t i64; uint64_t u64; float f; double d; const rbusDateTime_t* dt; const char* s; const uint8_t* by; int l; rbusProperty_t p; rbusObject_t o;
  struct { rbusValueType_t t; rbusValueError_t e; } r[] = {
    {RBUS_BOOLEAN, rbusValue_GetBooleanEx(v, &bo)}, {RBUS_CHAR, rbusValue_GetCharEx(v, &ch)}, {RBUS_BYTE, rbusValue_GetByteEx(v, &uc)}, {RBUS_INT8, rbusValue_GetInt8Ex(v, &i8)}, {RBUS_UINT8, rbusValue_GetUInt8Ex(v, &u8)},
    {RBUS_INT16, rbusValue_GetInt16Ex(v, &i16)}, {RBUS_UINT16, rbusValue_GetUInt16Ex(v, &u16)}, {RBUS_INT32, rbusValue_GetInt32Ex(v, &i32)}, {RBUS_UINT32, rbusValue_GetUInt32Ex(v, &u32)}, {RBUS_INT64, rbusValue_GetInt64Ex(v, &i64)}, {RBUS_UINT64, rbusValue_GetUInt64Ex(v, &u64)},
    {RBUS_SINGLE, rbusValue_GetSingleEx(v, &f)}, {RBUS_DOUBLE, rbusValue_GetDoubleEx(v, &d)}, {RBUS_DATETIME, rbusValue_GetTimeEx(v, &dt)}, {RBUS_STRING, rbusValue_GetStringEx(v, &s, &l)}, {RBUS_BYTES, rbusValue_GetBytesEx(v, &by, &l)},
    {RBUS_PROPERTY, rbusValue_GetPropertyEx(v, &p)}, {RBUS_OBJECT, rbusValue_GetObjectEx(v, &o)} };
  for (auto& x : r) { bool ok = x.t == m.type || ((x.t == RBUS_STRING || x.t == RBUS_BYTES) && (m.type == RBUS_STRING || m.type == RBUS_BYTES));
    if (ok != (x.e == RBUS_VALUE_ERROR_SUCCESS)) return std::string("accessor for ") + tname(x.t) + " on " + mv_show(m) + (ok ? " refused" : " accepted"); }
  return ""; }

// reference order for values of the same type; 2 = unordered/not specified
static inline int sgn(int64_t x) { return x < 0 ? -1 : x > 0; }
static inline int mv_cmp(const MV& a, const MV& b) {
  if (is_int(a.type) && is_int(b.type)) {
    bool an = is_signed(a.type) && a.i < 0, bn = is_signed(b.type) && b.i < 0;
    if (an != bn) return an ? -1 : 1;
    if (an) return a.i < b.i ? -1 : a.i > b.i; return a.u < b.u ? -1 : a.u > b.u; }
  if (a.type != b.type) return 2;
  switch (a.type) {
    case RBUS_SINGLE: case RBUS_DOUBLE: if (std::isnan(a.f) || std::isnan(b.f)) return std::isnan(a.f) && std::isnan(b.f) ? 0 : 2; return a.f < b.f ? -1 : a.f > b.f;
    case RBUS_DATETIME: { int64_t x = dt_epoch(a.dt), y = dt_epoch(b.dt); return x < y ? -1 : x > y; }
    case RBUS_STRING: case RBUS_BYTES:
      if (a.null || b.null) return a.null && b.null ? 0 : 3; // 3: unequal, order not specified
      { size_t n = std::min(a.s.size(), b.s.size()); int c = memcmp(a.s.data(), b.s.data(), n); if (c) return c < 0 ? -1 : 1; return a.s.size() < b.s.size() ? -1 : a.s.size() > b.s.size(); }
    default: return 2; } }

// numeric types compare by number whatever their types; everything else as mv_cmp
static inline int mv_cmp_any(const MV& a, const MV& b) {
  if (a.type <= RBUS_DOUBLE && b.type <= RBUS_DOUBLE && !(is_int(a.type) && is_int(b.type)) && a.type != b.type) {
    auto d = [](const MV& m) { return is_int(m.type) ? (is_signed(m.type) ? (double)m.i : (double)m.u) : m.f; }; double x = d(a), y = d(b);
    if (std::isnan(x) || std::isnan(y)) return std::isnan(x) && std::isnan(y) ? 0 : 2; return x < y ? -1 : x > y; }
  return mv_cmp(a, b); }
