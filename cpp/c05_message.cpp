// C05: bus message fields survive packing, bytes and unpacking
#include "filtergen.h"
#include <vector>
extern "C" {
#include <rbuscore_message.h>
void rbusMessage_BeginMetaSectionWrite(rbusMessage message);
void rbusMessage_EndMetaSectionWrite(rbusMessage message);
void rbusMessage_BeginMetaSectionRead(rbusMessage message);
void rbusMessage_EndMetaSectionRead(rbusMessage message);
rbusError_t rbusValue_initFromMessage(rbusValue_t* value, rbusMessage msg) __attribute__((weak));
void rbusValue_appendToMessage(char const* name, rbusValue_t value, rbusMessage msg) __attribute__((weak));
void rbusPropertyList_initFromMessage(rbusProperty_t* prop, rbusMessage msg) __attribute__((weak));
void rbusPropertyList_appendToMessage(rbusProperty_t prop, rbusMessage msg) __attribute__((weak));
void rbusObject_initFromMessage(rbusObject_t* obj, rbusMessage msg) __attribute__((weak));
void rbusObject_appendToMessage(rbusObject_t obj, rbusMessage msg) __attribute__((weak));
void rbusFilter_AppendToMessage(rbusFilter_t filter, rbusMessage msg) __attribute__((weak));
void rbusFilter_InitFromMessage(rbusFilter_t* filter, rbusMessage msg) __attribute__((weak));
}
using namespace pbt;

struct PT; struct OT;
struct VT { int kind = 0; MV m; std::vector<PT> props; std::vector<OT> obj; }; // 0 scalar/none, 1 property list, 2 object
struct PT { std::string name; bool hasval = true; VT v; };
struct OT { std::string name; bool noname = false, multi = false; std::vector<PT> props; std::vector<OT> kids; };
static VT gen_vt(Tape& t, int depth); static OT gen_ot(Tape& t, int depth);
static std::vector<PT> gen_props(Tape& t, int depth) { std::vector<PT> r; int n = (int)t.draw(5); for (int i = 0; i < n; i++) { PT p; p.name = gen_string(t, 40); p.hasval = t.draw(12) != 11; if (p.hasval) p.v = gen_vt(t, depth - 1); r.push_back(p); } return r; }
static VT gen_vt(Tape& t, int depth) { VT v; int k = depth > 0 ? (int)t.draw(8) : 0; if (k == 6) { v.kind = 1; v.props = gen_props(t, depth - 1); } else if (k == 7) { v.kind = 2; v.obj.push_back(gen_ot(t, depth - 1)); } else if (t.draw(20) == 19) v.m.type = RBUS_NONE; else v.m = gen_value(t, t.draw(20) == 19 ? 70000 : 300); return v; }
static OT gen_ot(Tape& t, int depth) { OT o; o.noname = t.draw(5) == 4; if (!o.noname) o.name = gen_string(t, 30); o.multi = t.draw(2); o.props = gen_props(t, depth); int n = depth > 0 ? (int)t.draw(4) : 0; for (int i = 0; i < n; i++) o.kids.push_back(gen_ot(t, depth - 1)); return o; }
static rbusProperty_t build_props(const std::vector<PT>& ps); static rbusObject_t build_obj(const OT& o);
static rbusValue_t build_v(const VT& v) { if (v.kind == 0) return init_value(v.m); rbusValue_t r; rbusValue_Init(&r); if (v.kind == 1) { rbusProperty_t p = build_props(v.props); rbusValue_SetProperty(r, p); if (p) rbusProperty_Release(p); } else { rbusObject_t o = build_obj(v.obj[0]); rbusValue_SetObject(r, o); rbusObject_Release(o); } return r; }
static rbusProperty_t build_props(const std::vector<PT>& ps) { rbusProperty_t first = nullptr; for (auto& p : ps) { rbusProperty_t q; rbusValue_t v = p.hasval ? build_v(p.v) : nullptr; rbusProperty_Init(&q, p.name.c_str(), v); if (v) rbusValue_Release(v); if (!first) first = q; else { rbusProperty_Append(first, q); rbusProperty_Release(q); } } return first; }
static rbusObject_t build_obj(const OT& o) { rbusObject_t r; const char* n = o.noname ? nullptr : o.name.c_str(); if (o.multi) rbusObject_InitMultiInstance(&r, n); else rbusObject_Init(&r, n); rbusProperty_t p = build_props(o.props); rbusObject_SetProperties(r, p); if (p) rbusProperty_Release(p); rbusObject_t prev = nullptr; for (auto& k : o.kids) { rbusObject_t q = build_obj(k); if (prev) rbusObject_SetNext(prev, q); else rbusObject_SetChildren(r, q); prev = q; rbusObject_Release(q); } return r; }
static std::string chk_props(rbusProperty_t p, const std::vector<PT>& ps); static std::string chk_obj(rbusObject_t o, const OT& m);
static std::string chk_v(rbusValue_t v, const VT& m) {
  if (!v) return "missing value";
  if (m.kind == 1) { if (rbusValue_GetType(v) != RBUS_PROPERTY) return "type is not property"; return chk_props(rbusValue_GetProperty(v), m.props); }
  if (m.kind == 2) { if (rbusValue_GetType(v) != RBUS_OBJECT) return "type is not object"; return chk_obj(rbusValue_GetObject(v), m.obj[0]); }
  if (m.m.type == RBUS_BYTES && (m.m.null || m.m.s.empty())) { int l = -1; if (rbusValue_GetType(v) != RBUS_BYTES) return "type is not bytes"; rbusValue_GetBytes(v, &l); return l == 0 ? "" : "empty bytes came back with content"; }
  if (m.m.type == RBUS_SINGLE && std::isnan(m.m.f)) return rbusValue_GetType(v) == RBUS_SINGLE && std::isnan(rbusValue_GetSingle(v)) ? "" : "NaN changed";
  return check_value(v, m.m); }
static std::string chk_props(rbusProperty_t p, const std::vector<PT>& ps) { for (auto& m : ps) { if (!p) return "property list is too short"; const char* n = rbusProperty_GetName(p); if (!n || m.name != n) return "property is named " + std::string(n ? esc(n) : "NULL") + " instead of " + esc(m.name); if (m.hasval) { std::string e = chk_v(rbusProperty_GetValue(p), m.v); if (e.size()) return e; } else { rbusValue_t v = rbusProperty_GetValue(p); if (v && rbusValue_GetType(v) != RBUS_NONE) return "absent value came back with a type"; } p = rbusProperty_GetNext(p); } return p ? "property list is too long" : ""; }
static std::string chk_obj(rbusObject_t o, const OT& m) { if (!o) return "missing object"; const char* n = rbusObject_GetName(o); if (m.noname ? (n && *n) : (!n || m.name != n)) return "object name differs"; if ((rbusObject_GetType(o) == RBUS_OBJECT_MULTI_INSTANCE) != m.multi) return "object kind differs"; std::string e = chk_props(rbusObject_GetProperties(o), m.props); if (e.size()) return e; rbusObject_t k = rbusObject_GetChildren(o); for (auto& q : m.kids) { e = chk_obj(k, q); if (e.size()) return e; k = rbusObject_GetNext(k); } return k ? "too many children" : ""; }
static int cnt(const std::vector<PT>& ps); static int cnt(const OT& o) { int n = 1 + cnt(o.props); for (auto& k : o.kids) n += cnt(k); return n; } static int cnt(const VT& v) { return v.kind == 1 ? 1 + cnt(v.props) : v.kind == 2 ? cnt(v.obj[0]) : 1; } static int cnt(const std::vector<PT>& ps) { int n = 0; for (auto& p : ps) n += p.hasval ? cnt(p.v) : 1; return n; }

enum FK { I32, I64, DBL, STR, BIN, MSG, VAL, PROPS, OBJ, FILT, NFK };
struct Field { FK k; int32_t i; int64_t l; double d; std::string s; bool null = false; std::vector<Field> sub; std::string name; VT v; std::vector<PT> p; std::vector<OT> o; FTp f; bool asU = false; };
static Field gen_field(Tape& t, int depth) {
  Field f; f.k = (FK)t.draw(depth > 0 ? NFK : 5); if (!rbusValue_appendToMessage && f.k == VAL) f.k = STR;
  switch (f.k) { case I32: f.i = (int32_t)gen_int(t, 32, true); f.asU = t.draw(2); break; case I64: f.l = gen_int(t, 64, true); break; case DBL: f.d = gen_double(t); break; case STR: f.null = t.draw(16) == 15; if (!f.null) f.s = gen_string(t, t.draw(30) == 29 ? 70000 : 400); break; case BIN: f.s = gen_bytes(t, t.draw(30) == 29 ? 70000 : 400); break;
    case MSG: { int n = (int)t.draw(5); for (int i = 0; i < n; i++) f.sub.push_back(gen_field(t, depth - 1)); break; } case VAL: f.name = gen_string(t, 40); f.v = gen_vt(t, 3); break; case PROPS: f.p = gen_props(t, 3); break; case OBJ: f.o.push_back(gen_ot(t, 3)); break; default: f.f = ft_gen(t, SCALARS[t.draw(N_SCALARS)], 3); }
  return f; }
static void show(const Field& f, Case& c) { switch (f.k) { case I32: c.note("i32:%d ", f.i); break; case I64: c.note("i64:%lld ", (long long)f.l); break; case DBL: c.note("f64:%g ", f.d); break; case STR: c.note("str[%zu]:%s ", f.s.size(), f.null ? "NULL" : esc(f.s, 8).c_str()); break; case BIN: c.note("bin[%zu] ", f.s.size()); break; case MSG: c.note("msg{ "); for (auto& x : f.sub) show(x, c); c.note("} "); break; case VAL: c.note("value(%d) ", cnt(f.v)); break; case PROPS: c.note("props(%d) ", cnt(f.p)); break; case OBJ: c.note("object(%d) ", cnt(f.o[0])); break; default: c.note("filter{%s} ", ft_show(*f.f).c_str()); } }
static void put(rbusMessage m, const Field& f, Case& c) {
  rtError e = RT_OK;
  switch (f.k) { case I32: e = rbusMessage_SetInt32(m, f.i); break; case I64: e = rbusMessage_SetInt64(m, f.l); break; case DBL: e = rbusMessage_SetDouble(m, f.d); break; case STR: e = rbusMessage_SetString(m, f.null ? nullptr : f.s.c_str()); break; case BIN: e = rbusMessage_SetBytes(m, (const uint8_t*)f.s.data(), f.s.size()); break;
    case MSG: { rbusMessage s; rbusMessage_Init(&s); for (auto& x : f.sub) put(s, x, c); e = rbusMessage_SetMessage(m, s); rbusMessage_Release(s); break; }
    case VAL: { rbusValue_t v = build_v(f.v); rbusValue_appendToMessage(f.name.c_str(), v, m); rbusValue_Release(v); break; }
    case PROPS: { rbusProperty_t p = build_props(f.p); rbusPropertyList_appendToMessage(p, m); if (p) rbusProperty_Release(p); break; }
    case OBJ: { rbusObject_t o = build_obj(f.o[0]); rbusObject_appendToMessage(o, m); rbusObject_Release(o); break; }
    default: { rbusFilter_t x = ft_build(*f.f); rbusFilter_AppendToMessage(x, m); rbusFilter_Release(x); } }
  CHECK(e == RT_OK, "packing a field fails"); }
struct Kept { const char* p; std::string want; };
static void get(rbusMessage m, const Field& f, Case& c, std::vector<Kept>& kept) {
  std::string err;
  switch (f.k) {
    case I32: if (f.asU) { uint32_t u = ~(uint32_t)f.i; CHECK(rbusMessage_GetUInt32(m, &u) == RT_OK && u == (uint32_t)f.i, "unsigned reads %u, packed %d", u, f.i); } else { int32_t x = ~f.i; CHECK(rbusMessage_GetInt32(m, &x) == RT_OK && x == f.i, "int32 reads %d, packed %d", x, f.i); } break;
    case I64: { int64_t x = ~f.l; CHECK(rbusMessage_GetInt64(m, &x) == RT_OK && x == f.l, "int64 reads %lld, packed %lld", (long long)x, (long long)f.l); break; }
    case DBL: { double x = 0; CHECK(rbusMessage_GetDouble(m, &x) == RT_OK && !memcmp(&x, &f.d, 8), "double reads %.17g, packed %.17g", x, f.d); break; }
    case STR: { const char* s = nullptr; CHECK(rbusMessage_GetString(m, &s) == RT_OK && s && f.s == s, "string reads %s, packed %s", s ? esc(s).c_str() : "NULL", esc(f.s).c_str()); kept.push_back({s, std::string(s, f.s.size() + 1)}); break; }
    case BIN: { const uint8_t* b = nullptr; uint32_t n = 12345; CHECK(rbusMessage_GetBytes(m, &b, &n) == RT_OK && n == f.s.size() && (n == 0 || !memcmp(b, f.s.data(), n)), "bytes read differ (%u, packed %zu)", n, f.s.size()); if (n) kept.push_back({(const char*)b, f.s}); break; }
    case MSG: { rbusMessage s = nullptr; CHECK(rbusMessage_GetMessage(m, &s) == RT_OK && s, "nested message is not read"); { std::vector<Kept> k2; for (auto& x : f.sub) get(s, x, c, k2); int32_t z; CHECK(rbusMessage_GetInt32(s, &z) != RT_OK, "nested message has more fields than packed"); } rbusMessage_Release(s); break; }
    case VAL: { const char* n = nullptr; CHECK(rbusMessage_GetString(m, &n) == RT_OK && n && f.name == n, "value name differs"); rbusValue_t v = nullptr; CHECK(rbusValue_initFromMessage(&v, m) == RBUS_ERROR_SUCCESS, "value is not read"); err = chk_v(v, f.v); rbusValue_Release(v); break; }
    case PROPS: { rbusProperty_t p = nullptr; rbusPropertyList_initFromMessage(&p, m); err = chk_props(p, f.p); if (p) rbusProperty_Release(p); break; }
    case OBJ: { rbusObject_t o = nullptr; rbusObject_initFromMessage(&o, m); err = chk_obj(o, f.o[0]); if (o) rbusObject_Release(o); break; }
    default: { rbusFilter_t x = nullptr; rbusFilter_InitFromMessage(&x, m); err = ft_check(x, *f.f); if (err.size() && ft_has_nan(*f.f)) err = ""; rbusFilter_Release(x); } }
  if (err.size()) c.fail("%s", err.c_str()); }

PROP(fields, 4, "sequences of 0..14 fields (int32 read signed or unsigned, int64, double, string, bytes up to 70 KB, nested messages, values, property lists, objects, filters) packed, copied through bytes, read back in order, with an optional trailing metadata section of three strings read before, between or after the fields; then a read past the end or of a wrong type must fail and leave earlier results intact; non-trivial: at least 4 fields of 3 kinds") {
  size_t h0 = heap_bytes();
  {
    std::vector<Field> fs; int n = (int)t.draw(15); for (int i = 0; i < n; i++) fs.push_back(gen_field(t, 2)); for (auto& f : fs) show(f, c);
    bool meta = t.draw(2); std::string ms[3]; for (int i = 0; meta && i < 3; i++) ms[i] = gen_string(t, i ? 600 : 40);
    rbusMessage a, b; rbusMessage_Init(&a); for (auto& f : fs) put(a, f, c);
    if (meta) { rbusMessage_BeginMetaSectionWrite(a); for (auto& s : ms) rbusMessage_SetString(a, s.c_str()); rbusMessage_EndMetaSectionWrite(a); c.note("meta(%s) ", esc(ms[0], 10).c_str()); }
    uint8_t* by; uint32_t bn; rbusMessage_ToBytes(a, &by, &bn); std::vector<uint8_t> exact(by, by + bn);
    bool direct = t.flip(1, 4); if (direct) b = a; else { rbusMessage_FromBytes(&b, exact.data(), bn); rbusMessage_Release(a); std::fill(exact.begin(), exact.end(), 0xee); }
    if (t.draw(8) == 7) { char* ds = nullptr; uint32_t dn = 0; rbusMessage_ToDebugString(b, &ds, &dn); free(ds); }
    int when = meta ? (int)t.draw(n + 1) : -1; std::vector<Kept> kept; unsigned kinds = 0;
    auto readmeta = [&] { const char* q[3] = {}; rbusMessage_BeginMetaSectionRead(b); for (auto& x : q) rbusMessage_GetString(b, &x); rbusMessage_EndMetaSectionRead(b); for (int i = 0; i < 3; i++) CHECK(q[i] && ms[i] == q[i], "metadata %d reads %s, packed %s", i, q[i] ? esc(q[i]).c_str() : "NULL", esc(ms[i]).c_str()); };
    int stop = t.draw(3) == 2 && n ? (int)t.draw(n) : n;
    for (int i = 0; i < stop; i++) { if (when == i) readmeta(); get(b, fs[i], c, kept); kinds |= 1u << fs[i].k; }
    if (meta && when >= stop) readmeta();
    if (stop < n) { Field& f = fs[stop]; int32_t i32; int64_t i64; double d; const char* s; const uint8_t* p; uint32_t pn; rbusMessage mm; c.label("mistyped read"); rtError e = RT_FAIL; int w = (int)t.draw(6);
      FK kind = f.k == VAL || f.k == OBJ ? STR : f.k == PROPS || f.k == FILT ? I32 : f.k; bool ok = false;
      switch (w) { case 0: e = rbusMessage_GetInt32(b, &i32); ok = kind == I32 || kind == I64; break; case 1: e = rbusMessage_GetInt64(b, &i64); ok = kind == I32 || kind == I64; break; case 2: e = rbusMessage_GetDouble(b, &d); ok = kind == DBL; break; case 3: e = rbusMessage_GetString(b, &s); ok = kind == STR; break; case 4: e = rbusMessage_GetBytes(b, &p, &pn); ok = kind == BIN || kind == MSG; break; default: e = rbusMessage_GetMessage(b, &mm); ok = kind == BIN || kind == MSG; if (e == RT_OK) rbusMessage_Release(mm); }
      if (!ok) CHECK(e != RT_OK, "reading a field of kind %d as kind %d succeeds", kind, w);
    } else if (!meta) { int32_t z; const char* s; uint32_t u; double d; int64_t l; const uint8_t* p; rtError e = RT_OK; switch (t.draw(6)) { case 0: e = rbusMessage_GetInt32(b, &z); break; case 1: e = rbusMessage_GetString(b, &s); break; case 2: e = rbusMessage_GetUInt32(b, &u); break; case 3: e = rbusMessage_GetDouble(b, &d); break; case 4: e = rbusMessage_GetInt64(b, &l); break; default: e = rbusMessage_GetBytes(b, &p, &u); } CHECK(e != RT_OK, "reading past the last field succeeds"); c.label("read past the end"); }
    for (auto& k : kept) CHECK(!memcmp(k.p, k.want.data(), k.want.size()), "a string or byte field read earlier changed");
    rbusMessage_Release(b); c.nontrivial = n >= 4 && __builtin_popcount(kinds) >= 3; if (meta) c.label("metadata"); if (bn > 65536) c.label("over 64 KB");
  }
  LEAKCHECK(h0);
}
