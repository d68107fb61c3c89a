// C03: property lists and object trees against a graph model with reference counts
#include "rbmodel.h"
#include <vector>
#include <algorithm>
#include <set>
using namespace pbt;

enum Kind { KV, KP, KO };
struct Node {
  Kind k; int refs = 0; bool dead = false; void* real = nullptr;
  std::string name; bool noname = false;
  MV v;                   // KV scalar content (type PROPERTY/OBJECT: ref)
  int ref = -1;           // KV: contained property/object
  int val = -1;           // KP
  int next = -1;          // KP, KO
  int props = -1, kids = -1, parent = -1; // KO
};
struct M {
  std::vector<Node> n; std::vector<int> holds; // harness-held references (node ids, repeated)
  int add(Kind k, void* real) { Node x; x.k = k; x.real = real; n.push_back(x); return (int)n.size() - 1; }
  void inc(int i) { if (i >= 0) n[i].refs++; }
  void dec(int i) { if (i < 0) return; if (--n[i].refs == 0) { n[i].dead = true; int a[] = {n[i].ref, n[i].val, n[i].next, n[i].props, n[i].kids}; for (int x : a) dec(x); } }
  void link(int& slot_owner_field, int to) { inc(to); int old = slot_owner_field; slot_owner_field = to; dec(old); }
  bool reaches(int from, int to) { if (from < 0) return false; std::vector<int> st{from}; std::set<int> seen; while (!st.empty()) { int x = st.back(); st.pop_back(); if (x < 0 || !seen.insert(x).second) continue; if (x == to) return true; int a[] = {n[x].ref, n[x].val, n[x].next, n[x].props, n[x].kids}; for (int y : a) st.push_back(y); } return false; }
  int last(int p) { while (n[p].next >= 0) p = n[p].next; return p; }
  int find(int o, const std::string& nm) { for (int p = n[o].props; p >= 0; p = n[p].next) if (!n[p].noname && n[p].name == nm) return p; return -1; }
  // 1 equal, 0 different, -1 not specified (duplicate names, NaN, ...)
  int veq(int a, int b) { if (a == b) return 1; if (a < 0 || b < 0) return 0; const MV &x = n[a].v, &y = n[b].v;
    if (x.type <= RBUS_DOUBLE && y.type <= RBUS_DOUBLE) { if (is_int(x.type) && is_int(y.type)) return mv_cmp(x, y) == 0; if (std::isnan(x.f) || std::isnan(y.f)) return -1; if (!is_int(x.type) && !is_int(y.type)) return x.f == y.f; double p = is_int(x.type) ? (is_signed(x.type) ? (double)x.i : (double)x.u) : x.f, q = is_int(y.type) ? (is_signed(y.type) ? (double)y.i : (double)y.u) : y.f; return p == q; }
    if (x.type != y.type) return 0;
    if (x.type == RBUS_PROPERTY) return n[a].ref < 0 || n[b].ref < 0 ? n[a].ref == n[b].ref : peq(n[a].ref, n[b].ref);
    if (x.type == RBUS_OBJECT) return n[a].ref < 0 || n[b].ref < 0 ? n[a].ref == n[b].ref : oeq(n[a].ref, n[b].ref);
    if (x.type == RBUS_NONE) return 1;
    return mv_cmp(x, y) == 0; }
  int neq(int a, int b) { return n[a].noname == n[b].noname && (n[a].noname || n[a].name == n[b].name); }
  int peq(int a, int b) { if (a == b) return 1; if (!neq(a, b)) return 0; return veq(n[a].val, n[b].val); }
  bool dup(int list) { std::set<std::string> s; for (int p = list; p >= 0; p = n[p].next) if (!s.insert((n[p].noname ? "-" : "+") + n[p].name).second) return true; return false; }
  int listeq(int a, int b, bool obj) { if (dup(a) || dup(b)) return -1; int la = 0, lb = 0; for (int p = a; p >= 0; p = n[p].next) la++; for (int p = b; p >= 0; p = n[p].next) lb++; bool unk = false; if (la != lb) return 0;
    for (int p = a; p >= 0; p = n[p].next) { int q = b; for (; q >= 0; q = n[q].next) if (neq(p, q)) break; if (q < 0) return 0; int e = obj ? oeq(p, q) : peq(p, q); if (e == 0) return 0; if (e < 0) unk = true; } return unk ? -1 : 1; }
  int oeq(int a, int b) { if (a == b) return 1; if (!neq(a, b)) return 0; int e = listeq(n[a].props, n[b].props, false); if (e == 0) return 0; int f = listeq(n[a].kids, n[b].kids, true); if (f == 0) return e < 0 ? -1 : 0; return e < 0 || f < 0 ? -1 : 1; }
};

static const char* NAMES[] = {"a", "b", "c", "Device.X.1.", "a", "ab", ""};

static rbusProperty_t init_prop(const char* nm, const MV& m) {
  switch (m.type) {
    case RBUS_BOOLEAN: return rbusProperty_InitBoolean(nm, m.u != 0); case RBUS_CHAR: return rbusProperty_InitChar(nm, (char)m.i); case RBUS_BYTE: return rbusProperty_InitByte(nm, (unsigned char)m.u);
    case RBUS_INT8: return rbusProperty_InitInt8(nm, (int8_t)m.i); case RBUS_UINT8: return rbusProperty_InitUInt8(nm, (uint8_t)m.u); case RBUS_INT16: return rbusProperty_InitInt16(nm, (int16_t)m.i);
    case RBUS_UINT16: return rbusProperty_InitUInt16(nm, (uint16_t)m.u); case RBUS_INT32: return rbusProperty_InitInt32(nm, (int32_t)m.i); case RBUS_UINT32: return rbusProperty_InitUInt32(nm, (uint32_t)m.u);
    case RBUS_INT64: return rbusProperty_InitInt64(nm, m.i); case RBUS_UINT64: return rbusProperty_InitUInt64(nm, m.u); case RBUS_SINGLE: return rbusProperty_InitSingle(nm, (float)m.f); case RBUS_DOUBLE: return rbusProperty_InitDouble(nm, m.f);
    case RBUS_DATETIME: return rbusProperty_InitTime(nm, &m.dt); case RBUS_STRING: return rbusProperty_InitString(nm, m.null ? nullptr : m.s.c_str()); default: return rbusProperty_InitBytes(nm, m.null ? nullptr : (const uint8_t*)m.s.data(), (int)m.s.size()); } }
static void set_prop(rbusProperty_t p, const MV& m) {
  switch (m.type) {
    case RBUS_BOOLEAN: rbusProperty_SetBoolean(p, m.u != 0); break; case RBUS_CHAR: rbusProperty_SetChar(p, (char)m.i); break; case RBUS_BYTE: rbusProperty_SetByte(p, (unsigned char)m.u); break;
    case RBUS_INT8: rbusProperty_SetInt8(p, (int8_t)m.i); break; case RBUS_UINT8: rbusProperty_SetUInt8(p, (uint8_t)m.u); break; case RBUS_INT16: rbusProperty_SetInt16(p, (int16_t)m.i); break;
    case RBUS_UINT16: rbusProperty_SetUInt16(p, (uint16_t)m.u); break; case RBUS_INT32: rbusProperty_SetInt32(p, (int32_t)m.i); break; case RBUS_UINT32: rbusProperty_SetUInt32(p, (uint32_t)m.u); break;
    case RBUS_INT64: rbusProperty_SetInt64(p, m.i); break; case RBUS_UINT64: rbusProperty_SetUInt64(p, m.u); break; case RBUS_SINGLE: rbusProperty_SetSingle(p, (float)m.f); break; case RBUS_DOUBLE: rbusProperty_SetDouble(p, m.f); break;
    case RBUS_DATETIME: rbusProperty_SetTime(p, &m.dt); break; case RBUS_STRING: rbusProperty_SetString(p, m.null ? nullptr : m.s.c_str()); break; default: rbusProperty_SetBytes(p, m.null ? nullptr : (const uint8_t*)m.s.data(), (int)m.s.size()); } }
static rbusProperty_t append_prop(rbusProperty_t p, const char* nm, const MV& m) {
  switch (m.type) {
    case RBUS_BOOLEAN: return rbusProperty_AppendBoolean(p, nm, m.u != 0); case RBUS_CHAR: return rbusProperty_AppendChar(p, nm, (char)m.i); case RBUS_BYTE: return rbusProperty_AppendByte(p, nm, (unsigned char)m.u);
    case RBUS_INT8: return rbusProperty_AppendInt8(p, nm, (int8_t)m.i); case RBUS_UINT8: return rbusProperty_AppendUInt8(p, nm, (uint8_t)m.u); case RBUS_INT16: return rbusProperty_AppendInt16(p, nm, (int16_t)m.i);
    case RBUS_UINT16: return rbusProperty_AppendUInt16(p, nm, (uint16_t)m.u); case RBUS_INT32: return rbusProperty_AppendInt32(p, nm, (int32_t)m.i); case RBUS_UINT32: return rbusProperty_AppendUInt32(p, nm, (uint32_t)m.u);
    case RBUS_INT64: return rbusProperty_AppendInt64(p, nm, m.i); case RBUS_UINT64: return rbusProperty_AppendUInt64(p, nm, m.u); case RBUS_SINGLE: return rbusProperty_AppendSingle(p, nm, (float)m.f); case RBUS_DOUBLE: return rbusProperty_AppendDouble(p, nm, m.f);
    case RBUS_DATETIME: return rbusProperty_AppendTime(p, nm, &m.dt); case RBUS_STRING: return rbusProperty_AppendString(p, nm, m.null ? nullptr : m.s.c_str()); default: return rbusProperty_AppendBytes(p, nm, m.null ? nullptr : (const uint8_t*)m.s.data(), (int)m.s.size()); } }
static void set_objprop(rbusObject_t o, const char* nm, const MV& m) {
  switch (m.type) {
    case RBUS_BOOLEAN: rbusObject_SetPropertyBoolean(o, nm, m.u != 0); break; case RBUS_CHAR: rbusObject_SetPropertyChar(o, nm, (char)m.i); break; case RBUS_BYTE: rbusObject_SetPropertyByte(o, nm, (unsigned char)m.u); break;
    case RBUS_INT8: rbusObject_SetPropertyInt8(o, nm, (int8_t)m.i); break; case RBUS_UINT8: rbusObject_SetPropertyUInt8(o, nm, (uint8_t)m.u); break; case RBUS_INT16: rbusObject_SetPropertyInt16(o, nm, (int16_t)m.i); break;
    case RBUS_UINT16: rbusObject_SetPropertyUInt16(o, nm, (uint16_t)m.u); break; case RBUS_INT32: rbusObject_SetPropertyInt32(o, nm, (int32_t)m.i); break; case RBUS_UINT32: rbusObject_SetPropertyUInt32(o, nm, (uint32_t)m.u); break;
    case RBUS_INT64: rbusObject_SetPropertyInt64(o, nm, m.i); break; case RBUS_UINT64: rbusObject_SetPropertyUInt64(o, nm, m.u); break; case RBUS_SINGLE: rbusObject_SetPropertySingle(o, nm, (float)m.f); break; case RBUS_DOUBLE: rbusObject_SetPropertyDouble(o, nm, m.f); break;
    case RBUS_DATETIME: rbusObject_SetPropertyTime(o, nm, &m.dt); break; case RBUS_STRING: rbusObject_SetPropertyString(o, nm, m.null ? nullptr : m.s.c_str()); break; default: rbusObject_SetPropertyBytes(o, nm, m.null ? nullptr : (const uint8_t*)m.s.data(), (int)m.s.size()); } }
// typed getters of property / object agree with the model
template <class T, class F, class G> static std::string tg(const MV& m, T want, F ex, G obj, const char* nm) {
  T x{}; T y{}; rbusValueError_t e1 = ex(&x), e2 = obj(&y); if (e1 || e2) return std::string("typed getter failed for ") + mv_show(m); if (memcmp(&x, &want, sizeof(T)) || memcmp(&y, &want, sizeof(T))) return std::string("typed getter of ") + nm + " differs from " + mv_show(m); return ""; }
static std::string typed(rbusProperty_t p, rbusObject_t o, const char* nm, const MV& m) {
#define TG(T, CT, G, W) case T: return tg<CT>(m, W, [&](CT* x) { return rbusProperty_Get##G##Ex(p, x); }, [&](CT* x) { return o ? rbusObject_GetProperty##G(o, nm, x) : (*x = W, RBUS_VALUE_ERROR_SUCCESS); }, #G);
  switch (m.type) { TG(RBUS_BOOLEAN, bool, Boolean, (bool)(m.u != 0)) TG(RBUS_CHAR, char, Char, (char)m.i) TG(RBUS_BYTE, unsigned char, Byte, (unsigned char)m.u) TG(RBUS_INT8, int8_t, Int8, (int8_t)m.i) TG(RBUS_UINT8, uint8_t, UInt8, (uint8_t)m.u) TG(RBUS_INT16, int16_t, Int16, (int16_t)m.i) TG(RBUS_UINT16, uint16_t, UInt16, (uint16_t)m.u)
    TG(RBUS_INT32, int32_t, Int32, (int32_t)m.i) TG(RBUS_UINT32, uint32_t, UInt32, (uint32_t)m.u) TG(RBUS_INT64, int64_t, Int64, m.i) TG(RBUS_UINT64, uint64_t, UInt64, m.u) TG(RBUS_SINGLE, float, Single, (float)m.f) TG(RBUS_DOUBLE, double, Double, m.f)
    case RBUS_STRING: { const char *a = 0, *b = 0; int la = -1, lb = -1; if (rbusProperty_GetStringEx(p, &a, &la)) return "GetStringEx"; if (o) { if (rbusObject_GetPropertyString(o, nm, &b, &lb)) return "object GetPropertyString"; if (a != b || la != lb) return "string getters disagree"; } if (m.null ? a != 0 : (!a || m.s != a || (size_t)la != m.s.size())) return "string differs"; int l2; if (rbusProperty_GetString(p, &l2) != a) return "GetString"; return ""; }
    case RBUS_BYTES: { const uint8_t *a = 0, *b = 0; int la = -1, lb = -1; if (rbusProperty_GetBytesEx(p, &a, &la)) return "GetBytesEx"; if (o) { if (rbusObject_GetPropertyBytes(o, nm, &b, &lb)) return "object GetPropertyBytes"; if (a != b || la != lb) return "bytes getters disagree"; } return ""; }
    case RBUS_DATETIME: { const rbusDateTime_t *a = 0, *b = 0; if (rbusProperty_GetTimeEx(p, &a) || !a) return "GetTimeEx"; if (o && (rbusObject_GetPropertyTime(o, nm, &b) || a != b)) return "object GetPropertyTime"; return ""; }
    default: return ""; } }

PROP(collections, 4, "histories of 1..30 operations (create, typed append, append list, link, unlink, replace by name, nest property or object as value, share values, set children/siblings, retain, release) over property lists and objects, checked after every step against a graph model with reference counts; non-trivial: an item shared by two holders outlived one of them, or a replace-by-name hit an existing entry") {
  size_t h0 = heap_bytes();
  {
    M m; m.n.reserve(400); bool outlived = false, replaced = false;
    auto hold = [&](int i) { m.inc(i); m.holds.push_back(i); };
    auto pick = [&](Kind k) { std::vector<int> c; for (int i : m.holds) if (m.n[i].k == k) c.push_back(i); return c.empty() ? -1 : c[t.draw(c.size())]; };
    // any live node reachable from held ones
    auto pickAny = [&](Kind k) { std::vector<int> c; for (size_t i = 0; i < m.n.size(); i++) if (!m.n[i].dead && m.n[i].k == k) c.push_back((int)i); return c.empty() ? -1 : c[t.draw(c.size())]; };
    auto newV = [&](const MV& mv, rbusValue_t r) { int i = m.add(KV, r); m.n[i].v = mv; return i; };
    auto P = [&](int i) { return (rbusProperty_t)m.n[i].real; }; auto O = [&](int i) { return (rbusObject_t)m.n[i].real; }; auto V = [&](int i) { return (rbusValue_t)m.n[i].real; };
    auto nm = [&]() -> std::string { return NAMES[t.draw(7)]; };
    auto verify = [&](const char* op) {
      for (size_t i = 0; i < m.n.size(); i++) { Node& x = m.n[i]; if (x.dead) continue;
        if (x.k == KV) { if (x.v.type == RBUS_PROPERTY) { rbusProperty_t p = rbusValue_GetProperty(V(i)); CHECK(p == (x.ref < 0 ? nullptr : P(x.ref)), "after %s: nested property", op); } else if (x.v.type == RBUS_OBJECT) { CHECK(rbusValue_GetObject(V(i)) == (x.ref < 0 ? nullptr : O(x.ref)), "after %s: nested object", op); } else { std::string e = check_value(V(i), x.v); if (e.size()) c.fail("after %s: value %zu: %s", op, i, e.c_str()); } }
        else if (x.k == KP) { const char* g = rbusProperty_GetName(P(i)); if (x.noname ? g != nullptr : (!g || x.name != g)) c.fail("after %s: property %zu is named %s, expected %s", op, i, g ? g : "NULL", x.name.c_str());
          rbusProperty_t nx = rbusProperty_GetNext(P(i)); if (nx != (x.next < 0 ? nullptr : P(x.next))) c.fail("after %s: property %zu (%s) is followed by the wrong entry", op, i, x.name.c_str());
          rbusValue_t v = rbusProperty_GetValue(P(i)); if (v != (x.val < 0 ? nullptr : V(x.val))) c.fail("after %s: property %zu holds the wrong value", op, i);
          uint32_t cnt = 0; for (int p = (int)i; p >= 0; p = m.n[p].next) cnt++; CHECK(rbusProperty_Count(P(i)) == cnt, "after %s: count is %u, expected %u", op, rbusProperty_Count(P(i)), cnt);
          if (x.val >= 0) { std::string e = typed(P(i), nullptr, "", m.n[x.val].v); if (e.size()) c.fail("after %s: %s", op, e.c_str()); } }
        else { const char* g = rbusObject_GetName(O(i)); if (x.noname ? g != nullptr : (!g || x.name != g)) c.fail("after %s: object name", op);
          CHECK(rbusObject_GetProperties(O(i)) == (x.props < 0 ? nullptr : P(x.props)), "after %s: object's property list", op);
          CHECK(rbusObject_GetChildren(O(i)) == (x.kids < 0 ? nullptr : O(x.kids)), "after %s: object's children", op); CHECK(rbusObject_GetNext(O(i)) == (x.next < 0 ? nullptr : O(x.next)), "after %s: object's sibling", op);
          bool named = true; for (int p = x.props; p >= 0; p = m.n[p].next) if (m.n[p].noname) named = false;
          if (named) for (int k = 0; k < 7; k++) { int w = m.find((int)i, NAMES[k]); rbusProperty_t r = rbusObject_GetProperty(O(i), NAMES[k]); if (r != (w < 0 ? nullptr : P(w))) c.fail("after %s: object %zu: looking up %s finds the wrong entry", op, i, NAMES[k]);
            rbusValue_t v = rbusObject_GetValue(O(i), NAMES[k]); CHECK(v == (w < 0 || m.n[w].val < 0 ? nullptr : V(m.n[w].val)), "after %s: GetValue(%s)", op, NAMES[k]);
            if (w < 0) { int32_t z; CHECK(rbusObject_GetPropertyInt32(O(i), NAMES[k], &z) == RBUS_VALUE_ERROR_NOT_FOUND, "missing property found"); } else if (m.n[w].val >= 0) { std::string e = typed(P(w), O(i), NAMES[k], m.n[m.n[w].val].v); if (e.size()) c.fail("after %s: %s", op, e.c_str()); } } } } };
    int ops = 1 + (int)t.draw(30);
    for (int k = 0; k < ops; k++) {
      const char* op = ""; 
      switch (t.draw(21)) {
        case 0: { op = "initProp"; std::string s = nm(); MV mv = gen_value(t, 90); c.note("p%zu=init(%s,%s); ", m.n.size(), s.c_str(), mv_show(mv, 8).c_str()); rbusProperty_t p = init_prop(s.c_str(), mv); int i = m.add(KP, p); m.n[i].name = s; int v = newV(mv, rbusProperty_GetValue(p)); m.n[i].val = v; m.inc(v); hold(i); break; }
        case 1: { op = "initValue"; MV mv = gen_value(t, 90); c.note("v%zu=%s; ", m.n.size(), mv_show(mv, 8).c_str()); hold(newV(mv, init_value(mv))); break; }
        case 2: { op = "initPropShared"; int v = pick(KV); std::string s = nm(); c.note("p%zu=init(%s,v%d); ", m.n.size(), s.c_str(), v); rbusProperty_t p; rbusProperty_Init(&p, s.c_str(), v < 0 ? nullptr : V(v)); int i = m.add(KP, p); m.n[i].name = s; if (v >= 0) { m.n[i].val = v; m.inc(v); } hold(i); break; }
        case 3: { op = "append"; int a = pickAny(KP), b = pick(KP); if (a < 0 || b < 0 || m.reaches(b, a) || m.reaches(a, b)) break; int l = m.last(a); if (m.reaches(b, l)) break; c.note("append(p%d,p%d); ", a, b); rbusProperty_Append(P(a), P(b)); m.link(m.n[l].next, b); break; }
        case 4: { op = "appendTyped"; int a = pickAny(KP); if (a < 0) break; std::string s = nm(); MV mv = gen_value(t, 90); c.note("p%zu=append(p%d,%s,%s); ", m.n.size(), a, s.c_str(), mv_show(mv, 8).c_str()); int l = m.last(a); rbusProperty_t p = append_prop(P(a), s.c_str(), mv); int i = m.add(KP, p); m.n[i].name = s; int v = newV(mv, rbusProperty_GetValue(p)); m.n[i].val = v; m.inc(v); m.link(m.n[l].next, i); break; }
        case 5: { op = "setNext"; int a = pickAny(KP); if (a < 0) break; int b = -1; switch (t.draw(4)) { case 0: b = -1; break; case 1: b = m.n[a].next; break; case 2: b = m.n[a].next < 0 ? -1 : m.n[m.n[a].next].next; break; default: b = pickAny(KP); } if (b >= 0 && m.reaches(b, a)) break; c.note("next(p%d)=p%d; ", a, b); rbusProperty_SetNext(P(a), b < 0 ? nullptr : P(b)); m.link(m.n[a].next, b); break; }
        case 6: { op = "setTyped"; int a = pickAny(KP); if (a < 0) break;
          if (t.draw(5) == 4 && m.n[a].val >= 0) { MV mv = m.n[m.n[a].val].v; if (mv.type != RBUS_STRING && mv.type != RBUS_BYTES && mv.type != RBUS_DATETIME) break; size_t k = mv.null || mv.type == RBUS_DATETIME ? 0 : t.draw(mv.s.size() + 1); int l = 0; c.note("set(p%d,its own+%zu); ", a, k); // given (the end of) what it holds
            if (mv.type == RBUS_STRING) { const char* g = rbusProperty_GetString(P(a), &l); if (g) g += k; rbusProperty_SetString(P(a), g); } else if (mv.type == RBUS_BYTES) { const uint8_t* g = rbusProperty_GetBytes(P(a), &l); if (g) g += k; rbusProperty_SetBytes(P(a), g, l - (int)k); } else rbusProperty_SetTime(P(a), rbusProperty_GetTime(P(a)));
            if (!mv.null) mv.s = mv.s.substr(k); int v = newV(mv, rbusProperty_GetValue(P(a))); m.link(m.n[a].val, v); c.label("given its own content"); break; }
          MV mv = gen_value(t, 90); c.note("set(p%d,%s); ", a, mv_show(mv, 8).c_str()); set_prop(P(a), mv); int v = newV(mv, rbusProperty_GetValue(P(a))); m.link(m.n[a].val, v); break; }
        case 7: { op = "setValue"; int a = pickAny(KP), v = t.draw(4) ? pickAny(KV) : -1; if (a < 0 || (v >= 0 && m.reaches(v, a))) break; c.note("value(p%d)=v%d; ", a, v); rbusProperty_SetValue(P(a), v < 0 ? nullptr : V(v)); m.link(m.n[a].val, v); break; }
        case 8: { op = "changeValue"; int v = pickAny(KV); if (v < 0) break; MV mv = gen_value(t, 90); c.note("v%d:=%s; ", v, mv_show(mv, 8).c_str()); set_value(V(v), mv); m.n[v].v = mv; int old = m.n[v].ref; m.n[v].ref = -1; m.dec(old); break; }
        case 9: { op = "nest"; int v = pick(KV); if (v < 0) break; bool ob = t.draw(2); int r = pick(ob ? KO : KP); if (r < 0 || m.reaches(r, v) || m.n[v].ref == r) break; c.note("v%d:=%s%d; ", v, ob ? "o" : "p", r); if (ob) rbusValue_SetObject(V(v), O(r)); else rbusValue_SetProperty(V(v), P(r)); m.inc(r); int old = m.n[v].ref; m.n[v].ref = r; m.n[v].v = MV(); m.n[v].v.type = ob ? RBUS_OBJECT : RBUS_PROPERTY; m.dec(old); break; }
        case 10: { op = "rename"; int a = pickAny(t.draw(2) ? KP : KO); if (a < 0) break; std::string s = nm(); if (t.draw(5) == 4 && !m.n[a].noname) { size_t k = t.draw(m.n[a].name.size() + 1); c.note("name(%d)=its own+%zu; ", a, k); if (m.n[a].k == KP) rbusProperty_SetName(P(a), rbusProperty_GetName(P(a)) + k); else rbusObject_SetName(O(a), rbusObject_GetName(O(a)) + k); m.n[a].name = m.n[a].name.substr(k); c.label("given its own name"); break; }
          c.note("name(%d)=%s; ", a, s.c_str()); if (m.n[a].k == KP) rbusProperty_SetName(P(a), s.c_str()); else rbusObject_SetName(O(a), s.c_str()); m.n[a].name = s; m.n[a].noname = false; break; }
        case 11: { op = "initObject"; bool nn = t.draw(4) == 3; std::string s = nm(); c.note("o%zu=obj(%s); ", m.n.size(), nn ? "NULL" : s.c_str()); rbusObject_t o; if (t.draw(4) == 3) rbusObject_InitMultiInstance(&o, nn ? nullptr : s.c_str()); else rbusObject_Init(&o, nn ? nullptr : s.c_str()); int i = m.add(KO, o); m.n[i].noname = nn; m.n[i].name = nn ? "" : s; hold(i); break; }
        case 12: { op = "setProperties"; int o = pickAny(KO), p = t.draw(5) ? pickAny(KP) : -1; if (o < 0 || (p >= 0 && m.reaches(p, o))) break; c.note("props(o%d)=p%d; ", o, p); rbusObject_SetProperties(O(o), p < 0 ? nullptr : P(p)); m.link(m.n[o].props, p); break; }
        case 13: { op = "setProperty"; int o = pickAny(KO), p = t.draw(6) ? pick(KP) : pickAny(KP); if (o < 0 || p < 0 || m.reaches(p, o)) break; bool nl = m.n[p].noname; for (int q = m.n[o].props; q >= 0; q = m.n[q].next) if (m.n[q].noname) nl = true; if (nl) break;
          int ex = m.find(o, m.n[p].name); bool inlist = false; for (int q = m.n[o].props; q >= 0; q = m.n[q].next) if (q == p) inlist = true; if (inlist && ex != p) break; // moving an entry inside its own list is not an operation of the API
          if (ex >= 0 && ex != p) { int nx = m.n[ex].next; if (nx >= 0 && (m.reaches(nx, p) || m.reaches(p, nx) || m.reaches(nx, m.last(p)))) break; int pv = -1; for (int q = m.n[o].props; q != ex; q = m.n[q].next) pv = q; if (pv >= 0 && m.reaches(p, pv)) break; if (m.reaches(p, ex)) break;
            c.note("setprop(o%d,p%d) replacing p%d; ", o, p, ex); rbusObject_SetProperty(O(o), P(p)); replaced = true; m.inc(p); if (nx >= 0) { int l = m.last(p); m.link(m.n[l].next, nx); } if (pv >= 0) m.link(m.n[pv].next, p); else m.link(m.n[o].props, p); m.dec(p); }
          else if (ex == p) { c.note("setprop(o%d,p%d) again; ", o, p); rbusObject_SetProperty(O(o), P(p)); }
          else { if (m.n[o].props >= 0) { int l = m.last(m.n[o].props); if (m.reaches(p, l) || m.reaches(p, m.n[o].props)) break; c.note("setprop(o%d,p%d); ", o, p); rbusObject_SetProperty(O(o), P(p)); m.link(m.n[l].next, p); } else { c.note("setprop(o%d,p%d); ", o, p); rbusObject_SetProperty(O(o), P(p)); m.link(m.n[o].props, p); } }
          break; }
        case 14: { op = "setPropertyValue"; int o = pickAny(KO); if (o < 0) break; bool nl = false; for (int q = m.n[o].props; q >= 0; q = m.n[q].next) if (m.n[q].noname) nl = true; if (nl) break; std::string s = nm(); int v = pickAny(KV); bool typedv = v < 0 || t.draw(2); MV mv; if (typedv) mv = gen_value(t, 90); else if (m.reaches(v, o) || (m.n[o].props >= 0 && m.reaches(v, m.last(m.n[o].props)))) break; int ex = m.find(o, s); if (!typedv && ex >= 0 && m.reaches(v, ex)) break;
          c.note("o%d[%s]=%s; ", o, s.c_str(), typedv ? mv_show(mv, 8).c_str() : ("v" + std::to_string(v)).c_str());
          if (typedv) set_objprop(O(o), s.c_str(), mv); else rbusObject_SetValue(O(o), s.c_str(), V(v));
          if (ex < 0) { rbusProperty_t p = rbusObject_GetProperty(O(o), s.c_str()); CHECK(p, "property set by name is not found"); int i = m.add(KP, p); m.n[i].name = s; if (m.n[o].props >= 0) { int l = m.last(m.n[o].props); m.link(m.n[l].next, i); } else m.link(m.n[o].props, i); ex = i; } else replaced = true;
          if (typedv) v = newV(mv, rbusProperty_GetValue(P(ex))); m.link(m.n[ex].val, v); break; }
        case 15: { op = "setChildren"; int o = pickAny(KO), q = t.draw(4) ? pickAny(KO) : -1; if (o < 0 || (q >= 0 && m.reaches(q, o))) break; c.note("kids(o%d)=o%d; ", o, q); rbusObject_SetChildren(O(o), q < 0 ? nullptr : O(q)); m.link(m.n[o].kids, q); break; }
        case 16: { op = "setSibling"; int o = pickAny(KO); if (o < 0) break; int q = -1; switch (t.draw(4)) { case 0: break; case 1: q = m.n[o].next; break; case 2: q = m.n[o].next < 0 ? -1 : m.n[m.n[o].next].next; break; default: q = pickAny(KO); } if (q >= 0 && m.reaches(q, o)) break; c.note("sib(o%d)=o%d; ", o, q); rbusObject_SetNext(O(o), q < 0 ? nullptr : O(q)); m.link(m.n[o].next, q); break; }
        case 17: { op = "release"; if (m.holds.empty()) break; size_t x = t.draw(m.holds.size()); int i = m.holds[x]; m.holds.erase(m.holds.begin() + x); c.note("release(%d); ", i); if (m.n[i].refs > 1) outlived = true; if (m.n[i].k == KV) rbusValue_Release(V(i)); else if (m.n[i].k == KP) rbusProperty_Release(P(i)); else rbusObject_Release(O(i)); m.dec(i); break; }
        case 18: { op = "retain"; int i = pickAny((Kind)t.draw(3)); if (i < 0) break; c.note("retain(%d); ", i); if (m.n[i].k == KV) rbusValue_Retain(V(i)); else if (m.n[i].k == KP) rbusProperty_Retain(P(i)); else rbusObject_Retain(O(i)); hold(i); break; }
        case 19: { op = "nestTyped"; bool ob = t.draw(2); int r = pickAny(ob ? KO : KP), how = (int)t.draw(4); if (r < 0) break; std::string s = nm(); MV mv; mv.type = ob ? RBUS_OBJECT : RBUS_PROPERTY; int a = -1;
          if (how == 0) { rbusProperty_t p = ob ? rbusProperty_InitObject(s.c_str(), O(r)) : rbusProperty_InitProperty(s.c_str(), P(r)); a = m.add(KP, p); m.n[a].name = s; c.note("p%d=init(%s,%s%d); ", a, s.c_str(), ob ? "o" : "p", r); int v = newV(mv, rbusProperty_GetValue(p)); m.n[v].ref = r; m.inc(r); m.link(m.n[a].val, v); hold(a); break; }
          if (how == 1) { int q = pickAny(KP); if (q < 0 || m.reaches(r, m.last(q)) || m.reaches(r, q)) break; int l = m.last(q); rbusProperty_t p = ob ? rbusProperty_AppendObject(P(q), s.c_str(), O(r)) : rbusProperty_AppendProperty(P(q), s.c_str(), P(r)); a = m.add(KP, p); m.n[a].name = s; c.note("p%d=append(p%d,%s,%s%d); ", a, q, s.c_str(), ob ? "o" : "p", r); int v = newV(mv, rbusProperty_GetValue(p)); m.n[v].ref = r; m.inc(r); m.link(m.n[a].val, v); m.link(m.n[l].next, a); break; }
          if (how == 2) { a = pickAny(KP); if (a >= 0 && t.draw(3) == 2 && m.n[a].val >= 0 && m.n[m.n[a].val].ref >= 0) { r = m.n[m.n[a].val].ref; ob = m.n[r].k == KO; mv.type = ob ? RBUS_OBJECT : RBUS_PROPERTY; c.label("given its own content"); } if (a < 0 || m.reaches(r, a)) break; c.note("set(p%d,%s%d); ", a, ob ? "o" : "p", r); if (ob) rbusProperty_SetObject(P(a), O(r)); else rbusProperty_SetProperty(P(a), P(r)); int v = newV(mv, rbusProperty_GetValue(P(a))); m.n[v].ref = r; m.inc(r); m.link(m.n[a].val, v);
            rbusProperty_t gp = nullptr; rbusObject_t go = nullptr; rbusValueError_t e = ob ? rbusProperty_GetObjectEx(P(a), &go) : rbusProperty_GetPropertyEx(P(a), &gp); CHECK(!e && (ob ? go == O(r) : gp == P(r)), "typed getter of the nested item"); CHECK(ob ? rbusProperty_GetPropertyEx(P(a), &gp) == RBUS_VALUE_ERROR_TYPE : rbusProperty_GetObjectEx(P(a), &go) == RBUS_VALUE_ERROR_TYPE, "nested item taken for the other kind"); break; }
          int o = pickAny(KO); if (o < 0 || m.reaches(r, o)) break; bool nl = false, cyc = false; for (int q = m.n[o].props; q >= 0; q = m.n[q].next) { if (m.n[q].noname) nl = true; if (m.reaches(r, q)) cyc = true; } if (nl || cyc) break; c.note("o%d[%s]=%s%d; ", o, s.c_str(), ob ? "o" : "p", r); int ex = m.find(o, s);
          if (ob) rbusObject_SetPropertyObject(O(o), s.c_str(), O(r)); else rbusObject_SetPropertyProperty(O(o), s.c_str(), P(r));
          if (ex < 0) { rbusProperty_t p = rbusObject_GetProperty(O(o), s.c_str()); CHECK(p, "property set by name is not found"); int i = m.add(KP, p); m.n[i].name = s; if (m.n[o].props >= 0) { int l = m.last(m.n[o].props); m.link(m.n[l].next, i); } else m.link(m.n[o].props, i); ex = i; } else replaced = true;
          int v = newV(mv, rbusProperty_GetValue(P(ex))); m.n[v].ref = r; m.inc(r); m.link(m.n[ex].val, v);
          rbusProperty_t gp = nullptr; rbusObject_t go = nullptr; rbusValueError_t e = ob ? rbusObject_GetPropertyObject(O(o), s.c_str(), &go) : rbusObject_GetPropertyProperty(O(o), s.c_str(), &gp); CHECK(!e && (ob ? go == O(r) : gp == P(r)), "typed getter of the nested item of an object"); break; }
        default: { op = "compare"; bool ob = t.draw(2); int a = pickAny(ob ? KO : KP), b = pickAny(ob ? KO : KP); if (a < 0) break; int e = ob ? m.oeq(a, b) : m.peq(a, b); int g = ob ? rbusObject_Compare(O(a), O(b), true) : rbusProperty_Compare(P(a), P(b)); if (e >= 0) CHECK((g == 0) == (e == 1), "comparing %s %d and %d gives %d, the models are %s", ob ? "objects" : "properties", a, b, g, e ? "equal" : "different"); break; }
      }
      verify(op);
    }
    // everything still compares as the model says
    std::vector<int> os; for (size_t i = 0; i < m.n.size(); i++) if (!m.n[i].dead && m.n[i].k != KV) os.push_back((int)i);
    for (size_t i = 0; i < os.size() && i < 8; i++) for (size_t j = 0; j < os.size() && j < 8; j++) { int a = os[i], b = os[j]; if (m.n[a].k != m.n[b].k) continue; bool ob = m.n[a].k == KO; int e = ob ? m.oeq(a, b) : m.peq(a, b); int g = ob ? rbusObject_Compare(O(a), O(b), true) : rbusProperty_Compare(P(a), P(b)); if (e >= 0) CHECK((g == 0) == (e == 1), "comparing %s %d and %d gives %d, the models are %s", ob ? "objects" : "properties", a, b, g, e ? "equal" : "different"); }
    while (!m.holds.empty()) { int i = m.holds.back(); m.holds.pop_back(); if (m.n[i].refs > 1) outlived = true; if (m.n[i].k == KV) rbusValue_Release(V(i)); else if (m.n[i].k == KP) rbusProperty_Release(P(i)); else rbusObject_Release(O(i)); m.dec(i); verify("final release"); }
    c.nontrivial = outlived || replaced; if (outlived) c.label("shared item outlived a holder"); if (replaced) c.label("replace by name"); if (ops > 15) c.label("long history");
  }
  LEAKCHECK(h0);
}

// near-identical object trees built independently: comparing them is an equivalence that sees every difference
struct Tree { std::string name; std::vector<std::pair<std::string, MV>> props; std::vector<Tree> kids; };
static Tree gen_tree(Tape& t, int depth) { Tree r; r.name = NAMES[t.draw(4)]; int n = (int)t.draw(4); for (int i = 0; i < n; i++) { static const char* PN[] = {"p", "q", "r", "s"}; r.props.push_back({PN[i], gen_value(t, 40)}); } if (depth > 0) { int k = (int)t.draw(3); for (int i = 0; i < k; i++) { Tree c = gen_tree(t, depth - 1); c.name = std::string(1, 'x' + i); r.kids.push_back(c); } } return r; }
static rbusObject_t build(const Tree& x, bool rev) { rbusObject_t o; rbusObject_Init(&o, x.name.c_str()); size_t n = x.props.size(); for (size_t i = 0; i < n; i++) { auto& p = x.props[rev ? n - 1 - i : i]; rbusValue_t v = init_value(p.second); rbusObject_SetValue(o, p.first.c_str(), v); rbusValue_Release(v); }
  rbusObject_t prev = nullptr; for (size_t i = 0; i < x.kids.size(); i++) { rbusObject_t k = build(x.kids[rev ? x.kids.size() - 1 - i : i], rev); if (prev) rbusObject_SetNext(prev, k); else rbusObject_SetChildren(o, k); rbusObject_SetParent(k, o); prev = k; rbusObject_Release(k); } return o; }
static void show(const Tree& x, Case& c) { c.note("%s{", x.name.c_str()); for (auto& p : x.props) c.note("%s=%s,", p.first.c_str(), mv_show(p.second, 8).c_str()); for (auto& k : x.kids) show(k, c); c.note("}"); }
static int count(const Tree& x) { int n = 1 + (int)x.props.size(); for (auto& k : x.kids) n += count(k); return n; }
static bool mutate(Tape& t, Tree& x, int& at) { if (at-- == 0) { x.name += "!"; return true; } for (auto& p : x.props) if (at-- == 0) { MV o = p.second; for (int i = 0; i < 4; i++) { MV q = gen_value_of(t, o.type, 40); int r = mv_cmp(o, q); if (r == 1 || r == -1 || r == 3) { p.second = q; return true; } } p.first += "z"; return true; } for (auto& k : x.kids) if (mutate(t, k, at)) return true; return false; }
PROP(tree_compare, 2, "two object trees of up to 3 levels built independently from one generated shape, one of them with exactly one difference (name, value, missing entry) or in reverse order; non-trivial: at least 3 entries") {
  size_t h0 = heap_bytes();
  { Tree a = gen_tree(t, 2); Tree b = a; int kind = (int)t.draw(5); bool eq = true; int n = count(a); c.nontrivial = n >= 3;
    if (kind == 2) { int at = (int)t.draw(n); eq = !mutate(t, b, at); } else if (kind == 3 && a.props.size()) { b.props.erase(b.props.begin() + t.draw(b.props.size())); eq = false; } else if (kind == 4 && a.kids.size()) { b.kids.erase(b.kids.begin() + t.draw(b.kids.size())); eq = false; }
    show(a, c); c.note(" vs "); show(b, c); rbusObject_t x = build(a, false), y = build(b, kind == 1);
    int g = rbusObject_Compare(x, y, true), g2 = rbusObject_Compare(y, x, true); CHECK((g == 0) == eq && (g2 == 0) == eq, "compare gives %d and %d, trees are %s", g, g2, eq ? "equal" : "different"); c.label(eq ? "equal" : "different");
    rbusObject_Releases(2, x, y); }
  LEAKCHECK(h0);
}
