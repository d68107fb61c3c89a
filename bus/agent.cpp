// A process on the bus: executes commands (one JSON object per line on stdin) through the public API and
// reports results and callbacks (one JSON object per line on the original stdout).
#include <string>
#include <vector>
#include <map>
#include <set>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <atomic>
#include <algorithm>
#include <fcntl.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <time.h>
#include <signal.h>
#include <sys/prctl.h>
#include <cjson/cJSON.h>
extern "C" {
#include <rbus.h>
#include <rbuscore.h>
#include <rtConnection.h>
#include <rtMessage.h>
#include <rtLog.h>
size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
int __lsan_do_recoverable_leak_check(void) __attribute__((weak));
}
using std::string; using std::vector; using std::map;
static FILE* g_out; static std::recursive_mutex g_io, g_mx;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000.0 + t.tv_nsec / 1e6; }
static void emit(cJSON* o) { cJSON_AddNumberToObject(o, "t", now()); char* s = cJSON_PrintUnformatted(o); { std::lock_guard<std::recursive_mutex> l(g_io); fputs(s, g_out); fputc('\n', g_out); fflush(g_out); } free(s); cJSON_Delete(o); }
static string hexs(const void* p, size_t n) { string r; static const char* H = "0123456789abcdef"; for (size_t i = 0; i < n; i++) { unsigned char c = ((const unsigned char*)p)[i]; r += H[c >> 4]; r += H[c & 15]; } return r; }
static string unhex(const char* s) { string r; auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }; for (; s && s[0] && s[1]; s += 2) r += (char)(v(s[0]) << 4 | v(s[1])); return r; }
static cJSON* str(const string& s) { return cJSON_CreateString(s.c_str()); }
static const char* S(cJSON* o, const char* n, const char* d = nullptr) { cJSON* x = cJSON_GetObjectItemCaseSensitive(o, n); return cJSON_IsString(x) ? x->valuestring : d; }
static double N(cJSON* o, const char* n, double d = 0) { cJSON* x = cJSON_GetObjectItemCaseSensitive(o, n); return cJSON_IsNumber(x) ? x->valuedouble : cJSON_IsBool(x) ? cJSON_IsTrue(x) : d; }
static cJSON* A(cJSON* o, const char* n) { return cJSON_GetObjectItemCaseSensitive(o, n); }

// values: [type, payload]
static cJSON* jprops(rbusProperty_t p); static cJSON* jobj(rbusObject_t o);
static cJSON* jval(rbusValue_t v) {
  cJSON* a = cJSON_CreateArray(); if (!v) return a; rbusValueType_t t = rbusValue_GetType(v); cJSON_AddItemToArray(a, cJSON_CreateNumber(t)); cJSON* x = nullptr; char b[64]; auto I = [&](long long n) { snprintf(b, 64, "%lld", n); x = str(b); };
  switch (t) { case RBUS_BOOLEAN: I(rbusValue_GetBoolean(v)); break; case RBUS_CHAR: I(rbusValue_GetChar(v)); break; case RBUS_BYTE: I(rbusValue_GetByte(v)); break; case RBUS_INT8: I(rbusValue_GetInt8(v)); break; case RBUS_UINT8: I(rbusValue_GetUInt8(v)); break; case RBUS_INT16: I(rbusValue_GetInt16(v)); break; case RBUS_UINT16: I(rbusValue_GetUInt16(v)); break; case RBUS_INT32: I(rbusValue_GetInt32(v)); break; case RBUS_UINT32: I(rbusValue_GetUInt32(v)); break; case RBUS_INT64: I(rbusValue_GetInt64(v)); break;
    case RBUS_UINT64: snprintf(b, 64, "%llu", (unsigned long long)rbusValue_GetUInt64(v)); x = str(b); break; case RBUS_SINGLE: { float f = rbusValue_GetSingle(v); x = str(hexs(&f, 4)); break; } case RBUS_DOUBLE: { double f = rbusValue_GetDouble(v); x = str(hexs(&f, 8)); break; }
    case RBUS_DATETIME: { const rbusDateTime_t* d = rbusValue_GetTime(v); if (d) { x = cJSON_CreateArray(); int q[] = {d->m_time.tm_sec, d->m_time.tm_min, d->m_time.tm_hour, d->m_time.tm_mday, d->m_time.tm_mon, d->m_time.tm_year, d->m_tz.m_tzhour, d->m_tz.m_tzmin, d->m_tz.m_isWest}; for (int k : q) cJSON_AddItemToArray(x, cJSON_CreateNumber(k)); } break; }
    case RBUS_STRING: { int l = 0; const char* s = rbusValue_GetString(v, &l); if (s) x = str(hexs(s, strlen(s))); break; } case RBUS_BYTES: { int l = 0; const uint8_t* s = rbusValue_GetBytes(v, &l); x = str(hexs(s, s ? l : 0)); break; }
    case RBUS_PROPERTY: x = jprops(rbusValue_GetProperty(v)); break; case RBUS_OBJECT: x = jobj(rbusValue_GetObject(v)); break; default: break; }
  cJSON_AddItemToArray(a, x ? x : cJSON_CreateNull()); return a; }
static cJSON* jprops(rbusProperty_t p) { cJSON* a = cJSON_CreateArray(); for (; p; p = rbusProperty_GetNext(p)) { cJSON* e = cJSON_CreateArray(); const char* n = rbusProperty_GetName(p); cJSON_AddItemToArray(e, n ? str(n) : cJSON_CreateNull()); rbusValue_t v = rbusProperty_GetValue(p); cJSON_AddItemToArray(e, v ? jval(v) : cJSON_CreateNull()); cJSON_AddItemToArray(a, e); } return a; }
static cJSON* jobj(rbusObject_t o) { if (!o) return cJSON_CreateNull(); cJSON* j = cJSON_CreateObject(); const char* n = rbusObject_GetName(o); cJSON_AddItemToObject(j, "name", n ? str(n) : cJSON_CreateNull()); if (rbusObject_GetType(o) == RBUS_OBJECT_MULTI_INSTANCE) cJSON_AddItemToObject(j, "multi", cJSON_CreateNumber(1)); cJSON_AddItemToObject(j, "props", jprops(rbusObject_GetProperties(o))); cJSON* k = cJSON_CreateArray(); for (rbusObject_t c = rbusObject_GetChildren(o); c; c = rbusObject_GetNext(c)) cJSON_AddItemToArray(k, jobj(c)); cJSON_AddItemToObject(j, "kids", k); return j; }
static rbusProperty_t mkprops(cJSON* a); static rbusObject_t mkobj(cJSON* j);
static rbusValue_t mkval(cJSON* a) {
  rbusValue_t v; rbusValue_Init(&v); cJSON* ti = cJSON_GetArrayItem(a, 0); cJSON* x = cJSON_GetArrayItem(a, 1); if (!ti) return v; int t = ti->valueint; const char* s = cJSON_IsString(x) ? x->valuestring : ""; long long i = atoll(s);
  switch (t) { case RBUS_BOOLEAN: rbusValue_SetBoolean(v, i); break; case RBUS_CHAR: rbusValue_SetChar(v, i); break; case RBUS_BYTE: rbusValue_SetByte(v, i); break; case RBUS_INT8: rbusValue_SetInt8(v, i); break; case RBUS_UINT8: rbusValue_SetUInt8(v, i); break; case RBUS_INT16: rbusValue_SetInt16(v, i); break; case RBUS_UINT16: rbusValue_SetUInt16(v, i); break; case RBUS_INT32: rbusValue_SetInt32(v, i); break; case RBUS_UINT32: rbusValue_SetUInt32(v, i); break; case RBUS_INT64: rbusValue_SetInt64(v, i); break; case RBUS_UINT64: rbusValue_SetUInt64(v, strtoull(s, nullptr, 10)); break;
    case RBUS_SINGLE: { string b = unhex(s); float f = 0; if (b.size() == 4) memcpy(&f, b.data(), 4); rbusValue_SetSingle(v, f); break; } case RBUS_DOUBLE: { string b = unhex(s); double f = 0; if (b.size() == 8) memcpy(&f, b.data(), 8); rbusValue_SetDouble(v, f); break; }
    case RBUS_DATETIME: { rbusDateTime_t d; memset(&d, 0, sizeof d); int q[9] = {}; for (int k = 0; k < 9 && k < cJSON_GetArraySize(x); k++) q[k] = cJSON_GetArrayItem(x, k)->valueint; d.m_time.tm_sec = q[0]; d.m_time.tm_min = q[1]; d.m_time.tm_hour = q[2]; d.m_time.tm_mday = q[3]; d.m_time.tm_mon = q[4]; d.m_time.tm_year = q[5]; d.m_tz.m_tzhour = q[6]; d.m_tz.m_tzmin = q[7]; d.m_tz.m_isWest = q[8]; rbusValue_SetTime(v, &d); break; }
    case RBUS_STRING: { string b = unhex(s); rbusValue_SetString(v, cJSON_IsNull(x) ? nullptr : b.c_str()); break; } case RBUS_BYTES: { string b = unhex(s); rbusValue_SetBytes(v, (const uint8_t*)b.data(), (int)b.size()); break; }
    case RBUS_PROPERTY: { rbusProperty_t p = mkprops(x); rbusValue_SetProperty(v, p); if (p) rbusProperty_Release(p); break; } case RBUS_OBJECT: { rbusObject_t o = mkobj(x); rbusValue_SetObject(v, o); if (o) rbusObject_Release(o); break; } default: break; }
  return v; }
static rbusProperty_t mkprops(cJSON* a) { rbusProperty_t first = nullptr, last = nullptr; cJSON* e; cJSON_ArrayForEach(e, a) { cJSON* n = cJSON_GetArrayItem(e, 0); cJSON* q = cJSON_GetArrayItem(e, 1); rbusValue_t v = cJSON_IsArray(q) ? mkval(q) : nullptr; rbusProperty_t p; rbusProperty_Init(&p, cJSON_IsString(n) ? n->valuestring : nullptr, v); if (v) rbusValue_Release(v); if (!first) first = p; else { rbusProperty_SetNext(last, p); rbusProperty_Release(p); } last = p; } return first; }
static rbusObject_t mkobj(cJSON* j) { if (!cJSON_IsObject(j)) return nullptr; rbusObject_t o; const char* n = S(j, "name"); if (N(j, "multi")) rbusObject_InitMultiInstance(&o, n); else rbusObject_Init(&o, n); rbusProperty_t p = mkprops(A(j, "props")); if (p) { rbusObject_SetProperties(o, p); rbusProperty_Release(p); } rbusObject_t prev = nullptr; cJSON* k; cJSON_ArrayForEach(k, A(j, "kids")) { rbusObject_t c = mkobj(k); if (prev) rbusObject_SetNext(prev, c); else rbusObject_SetChildren(o, c); prev = c; rbusObject_Release(c); } return o; }
static rbusFilter_t mkfilter(cJSON* a) { if (!cJSON_IsArray(a)) return nullptr; const char* k = cJSON_GetArrayItem(a, 0)->valuestring; int op = cJSON_GetArrayItem(a, 1)->valueint; rbusFilter_t f; if (!strcmp(k, "rel")) { rbusValue_t v = mkval(cJSON_GetArrayItem(a, 2)); rbusFilter_InitRelation(&f, (rbusFilter_RelationOperator_t)op, v); rbusValue_Release(v); } else { rbusFilter_t l = mkfilter(cJSON_GetArrayItem(a, 2)), r = mkfilter(cJSON_GetArrayItem(a, 3)); rbusFilter_InitLogic(&f, (rbusFilter_LogicOperator_t)op, l, r); if (l) rbusFilter_Release(l); if (r) rbusFilter_Release(r); } return f; }
static cJSON* jfilter(rbusFilter_t f) { if (!f) return cJSON_CreateNull(); cJSON* a = cJSON_CreateArray(); if (rbusFilter_GetType(f) == RBUS_FILTER_EXPRESSION_RELATION) { cJSON_AddItemToArray(a, str("rel")); cJSON_AddItemToArray(a, cJSON_CreateNumber(rbusFilter_GetRelationOperator(f))); cJSON_AddItemToArray(a, jval(rbusFilter_GetRelationValue(f))); } else { cJSON_AddItemToArray(a, str("log")); cJSON_AddItemToArray(a, cJSON_CreateNumber(rbusFilter_GetLogicOperator(f))); cJSON_AddItemToArray(a, jfilter(rbusFilter_GetLogicLeft(f))); cJSON_AddItemToArray(a, jfilter(rbusFilter_GetLogicRight(f))); } return a; }

// provider side
struct Behave { int rc = 0; int delay = 0; int autop = -1; string mode; cJSON* out = nullptr; long inst = -1; };
static map<string, rbusValue_t> g_store; static map<string, Behave> g_beh; static cJSON* g_log; static map<string, uint32_t> g_next; static map<int, rbusMethodAsyncHandle_t> g_async; static int g_asyncId = 1; static map<int, rbusHandle_t> g_h; static map<string, int> g_syncRows;
static bool g_logEvents = false;
static void plog(cJSON* e) { std::lock_guard<std::recursive_mutex> l(g_mx); cJSON_AddNumberToObject(e, "t", now()); if (g_logEvents) { cJSON* c = cJSON_Duplicate(e, 1); cJSON_AddStringToObject(c, "ev", "prov"); emit(c); } if (!g_log) g_log = cJSON_CreateArray(); cJSON_AddItemToArray(g_log, e); }
static cJSON* E(const char* op, const char* name) { cJSON* e = cJSON_CreateObject(); cJSON_AddStringToObject(e, "op", op); cJSON_AddItemToObject(e, "name", name ? str(name) : cJSON_CreateNull()); return e; }
static int slot_of(rbusHandle_t h) { std::lock_guard<std::recursive_mutex> l(g_mx); for (auto& x : g_h) if (x.second == h) return x.first; return -1; }
static bool beh(const char* op, const char* name, Behave& b) { std::lock_guard<std::recursive_mutex> l(g_mx); auto it = g_beh.find(string(op) + "|" + (name ? name : "")); if (it == g_beh.end()) it = g_beh.find(string(op) + "|*"); if (it == g_beh.end()) return false; b = it->second; if (b.out) b.out = cJSON_Duplicate(b.out, 1); return true; }
static rbusHandle_t nestH() { std::lock_guard<std::recursive_mutex> l(g_mx); auto it = g_h.find(2); return it == g_h.end() ? nullptr : it->second; } // the handle handlers call others with
static rbusError_t h_get(rbusHandle_t h, rbusProperty_t p, rbusGetHandlerOptions_t* o) {
  const char* n = rbusProperty_GetName(p); cJSON* e = E("get", n); cJSON_AddNumberToObject(e, "h", slot_of(h)); cJSON_AddStringToObject(e, "req", o && o->requestingComponent ? o->requestingComponent : ""); plog(e);
  Behave b; if (beh("get", n, b)) { if (b.out) cJSON_Delete(b.out); if (b.delay) usleep(b.delay * 1000); if (b.mode.compare(0, 5, "nest:") == 0) { rbusValue_t v = nullptr; rbusError_t rc = rbus_get(nestH(), b.mode.c_str() + 5, &v); if (rc == RBUS_ERROR_SUCCESS) { rbusProperty_SetValue(p, v); rbusValue_Release(v); } return rc; } if (b.rc) return (rbusError_t)b.rc; }
  std::lock_guard<std::recursive_mutex> l(g_mx); auto it = g_store.find(n); if (it != g_store.end()) rbusProperty_SetValue(p, it->second); else { rbusValue_t v = rbusValue_InitString((string("def:") + n).c_str()); rbusProperty_SetValue(p, v); rbusValue_Release(v); } return RBUS_ERROR_SUCCESS; }
static rbusError_t h_set(rbusHandle_t h, rbusProperty_t p, rbusSetHandlerOptions_t* o) {
  const char* n = rbusProperty_GetName(p); cJSON* e = E("set", n); cJSON_AddNumberToObject(e, "h", slot_of(h)); cJSON_AddItemToObject(e, "value", rbusProperty_GetValue(p) ? jval(rbusProperty_GetValue(p)) : cJSON_CreateNull()); if (o) { cJSON_AddNumberToObject(e, "commit", o->commit); cJSON_AddNumberToObject(e, "session", o->sessionId); cJSON_AddStringToObject(e, "req", o->requestingComponent ? o->requestingComponent : ""); } plog(e);
  Behave b; if (beh("set", n, b)) { if (b.out) cJSON_Delete(b.out); if (b.delay) usleep(b.delay * 1000); if (b.rc) return (rbusError_t)b.rc; }
  std::lock_guard<std::recursive_mutex> l(g_mx); rbusValue_t c; rbusValue_Init(&c); if (rbusProperty_GetValue(p)) rbusValue_Copy(c, rbusProperty_GetValue(p)); auto it = g_store.find(n); if (it != g_store.end()) rbusValue_Release(it->second); g_store[n] = c; return RBUS_ERROR_SUCCESS; }
static rbusError_t h_add(rbusHandle_t h, char const* t, char const* alias, uint32_t* inst) {
  cJSON* e = E("addrow", t); cJSON_AddNumberToObject(e, "h", slot_of(h)); cJSON_AddItemToObject(e, "alias", alias ? str(alias) : cJSON_CreateNull()); plog(e); string k = t; if (k.size() && k.back() == '.') k.pop_back();
  Behave b; bool has = beh("addrow", k.c_str(), b); if (b.out) cJSON_Delete(b.out); if (has && b.delay) usleep(b.delay * 1000); if (has && b.rc) return (rbusError_t)b.rc; std::lock_guard<std::recursive_mutex> l(g_mx); if (has && b.inst >= 0) *inst = (uint32_t)b.inst; else *inst = ++g_next[k]; return RBUS_ERROR_SUCCESS; }
static rbusError_t h_rem(rbusHandle_t h, char const* r) { cJSON* e = E("remrow", r); cJSON_AddNumberToObject(e, "h", slot_of(h)); plog(e); Behave b; string k = r ? r : ""; if (k.size() && k.back() == '.') k.pop_back(); if (beh("remrow", k.c_str(), b)) { if (b.out) cJSON_Delete(b.out); if (b.delay) usleep(b.delay * 1000); if (b.rc) return (rbusError_t)b.rc; } return RBUS_ERROR_SUCCESS; }
static rbusError_t h_sub(rbusHandle_t h, rbusEventSubAction_t a, const char* n, rbusFilter_t f, int32_t interval, bool* autop) { cJSON* e = E(a == RBUS_EVENT_ACTION_SUBSCRIBE ? "sub" : "unsub", n); cJSON_AddNumberToObject(e, "h", slot_of(h)); cJSON_AddItemToObject(e, "filter", jfilter(f)); cJSON_AddNumberToObject(e, "interval", interval); plog(e); Behave b; if (beh(a == RBUS_EVENT_ACTION_SUBSCRIBE ? "sub" : "unsub", n, b)) { if (b.out) cJSON_Delete(b.out); if (b.delay) usleep(b.delay * 1000); if (b.autop >= 0 && autop) *autop = b.autop; if (b.rc) return (rbusError_t)b.rc; } return RBUS_ERROR_SUCCESS; }
static void fill_out(rbusObject_t o, cJSON* j) { if (!o || !cJSON_IsObject(j)) return; rbusProperty_t p = mkprops(A(j, "props")); if (p) { rbusObject_SetProperties(o, p); rbusProperty_Release(p); } rbusObject_t prev = nullptr; cJSON* k; cJSON_ArrayForEach(k, A(j, "kids")) { rbusObject_t c = mkobj(k); if (prev) rbusObject_SetNext(prev, c); else rbusObject_SetChildren(o, c); prev = c; rbusObject_Release(c); } }
static rbusError_t h_met(rbusHandle_t h, char const* n, rbusObject_t in, rbusObject_t out, rbusMethodAsyncHandle_t ah) {
  cJSON* e = E("method", n); cJSON_AddNumberToObject(e, "h", slot_of(h)); cJSON_AddItemToObject(e, "in", jobj(in)); Behave b; bool has = beh("method", n, b); int id = 0;
  if (has && b.mode == "async") { std::lock_guard<std::recursive_mutex> l(g_mx); id = g_asyncId++; g_async[id] = ah; cJSON_AddNumberToObject(e, "async", id); } plog(e);
  if (!has) { rbusProperty_t p = rbusObject_GetProperties(in); if (p) rbusObject_SetProperties(out, p); return RBUS_ERROR_SUCCESS; }
  if (b.mode == "later") { rbusObject_t o; rbusObject_Init(&o, nullptr); rbusProperty_t p = rbusObject_GetProperties(in); if (p) rbusObject_SetProperties(o, p); int d = b.delay; std::thread([ah, o, d] { usleep(d * 1000); rbusMethod_SendAsyncResponse(ah, RBUS_ERROR_SUCCESS, o); rbusObject_Release(o); }).detach(); return RBUS_ERROR_ASYNC_RESPONSE; }
  if (b.delay) usleep(b.delay * 1000); if (b.mode == "async") { if (b.out) cJSON_Delete(b.out); return RBUS_ERROR_ASYNC_RESPONSE; }
  if (b.mode.compare(0, 5, "nest:") == 0) { rbusObject_t o = nullptr; rbusError_t rc = rbusMethod_Invoke(nestH(), b.mode.c_str() + 5, in, &o); rbusProperty_t p = o ? rbusObject_GetProperties(o) : nullptr; if (p) rbusObject_SetProperties(out, p); if (o) rbusObject_Release(o); return rc; }
  if (b.mode == "echo") { rbusProperty_t p = rbusObject_GetProperties(in); if (p) rbusObject_SetProperties(out, p); }
  if (b.out) { fill_out(out, b.out); cJSON_Delete(b.out); } return (rbusError_t)b.rc; }
static rbusError_t h_sync(rbusHandle_t h, char const* t) { cJSON* e = E("sync", t); cJSON_AddNumberToObject(e, "h", slot_of(h)); plog(e); return RBUS_ERROR_SUCCESS; }
// consumer side
static void on_event(rbusHandle_t h, rbusEvent_t const* e, rbusEventSubscription_t* s) { Behave b; if (beh("event", nullptr, b) && b.delay) usleep(b.delay * 1000); cJSON* j = cJSON_CreateObject(); cJSON_AddStringToObject(j, "ev", "event"); cJSON_AddNumberToObject(j, "h", slot_of(h)); cJSON_AddNumberToObject(j, "ud", (double)(intptr_t)s->userData); cJSON_AddStringToObject(j, "sname", s->eventName ? s->eventName : ""); cJSON_AddStringToObject(j, "name", e->name ? e->name : ""); cJSON_AddNumberToObject(j, "type", e->type); cJSON_AddItemToObject(j, "data", jobj(e->data)); emit(j); }
static void on_raw(rbusHandle_t h, rbusEventRawData_t const* e, rbusEventSubscription_t* s) { cJSON* j = cJSON_CreateObject(); cJSON_AddStringToObject(j, "ev", "raw"); cJSON_AddNumberToObject(j, "h", slot_of(h)); cJSON_AddNumberToObject(j, "ud", (double)(intptr_t)s->userData); cJSON_AddStringToObject(j, "name", e->name ? e->name : ""); cJSON_AddItemToObject(j, "data", str(hexs(e->rawData, e->rawDataLen))); emit(j); }
static void on_sub(rbusHandle_t h, rbusEventSubscription_t* s, rbusError_t rc) { Behave b; int rc2 = -1; string nm = s && s->eventName ? s->eventName : ""; if (beh("subresp", nm.c_str(), b)) { if (b.delay) usleep(b.delay * 1000); if (b.mode == "unsub") rc2 = rbusEvent_Unsubscribe(h, nm.c_str()); if (b.mode == "exist") rc2 = rbusEvent_IsSubscriptionExist(h, nm.c_str(), nullptr); } cJSON* j = cJSON_CreateObject(); cJSON_AddStringToObject(j, "ev", "subresp"); cJSON_AddNumberToObject(j, "h", slot_of(h)); cJSON_AddNumberToObject(j, "ud", s ? (double)(intptr_t)s->userData : -1); cJSON_AddStringToObject(j, "name", s && s->eventName ? s->eventName : ""); cJSON_AddNumberToObject(j, "rc", rc); cJSON_AddNumberToObject(j, "rc2", rc2); emit(j); }
template <int K> static void on_met(rbusHandle_t h, char const* n, rbusError_t rc, rbusObject_t o) { cJSON* j = cJSON_CreateObject(); cJSON_AddStringToObject(j, "ev", "mresp"); cJSON_AddNumberToObject(j, "h", slot_of(h)); cJSON_AddNumberToObject(j, "k", K); cJSON_AddStringToObject(j, "name", n ? n : ""); cJSON_AddNumberToObject(j, "rc", rc); cJSON_AddItemToObject(j, "out", jobj(o)); emit(j); }
static rbusMethodAsyncRespHandler_t METS[] = {on_met<0>, on_met<1>, on_met<2>, on_met<3>, on_met<4>, on_met<5>, on_met<6>, on_met<7>, on_met<8>, on_met<9>, on_met<10>, on_met<11>, on_met<12>, on_met<13>, on_met<14>, on_met<15>};

// messaging layer
static map<int, rtConnection> g_c; static rtConnection CON(int i) { std::lock_guard<std::recursive_mutex> l(g_mx); auto it = g_c.find(i); return it == g_c.end() ? nullptr : it->second; }
static string fnv(const void* p, size_t n) { uint64_t f = 1469598103934665603ull; for (size_t i = 0; i < n; i++) f = (f ^ ((const uint8_t*)p)[i]) * 1099511628211ull; char b[32]; snprintf(b, 32, "%016llx", (unsigned long long)f); return b; }
static string payload(cJSON* c, int k) { string d = unhex(S(c, "data", "")), q; int rep = (int)N(c, "rep", 1); q.reserve(d.size() * rep + 4); for (int i = 0; i < rep; i++) q += d; if (N(c, "times", 1) > 1 && q.size() >= 4) { q[0] = (char)k; q[1] = (char)(k >> 8); } return q; }
static rtMessage tomsg(const string& q) { rtMessage m; rtMessage_Create(&m); rtMessage_SetString(m, "b", hexs(q.data(), q.size()).c_str()); rtMessage_SetInt32(m, "n", (int)q.size()); return m; }
static string frommsg(rtMessage m, bool& ok) { char const* p = nullptr; int k = -1; ok = rtMessage_GetString(m, "b", &p) == RT_OK && rtMessage_GetInt32(m, "n", &k) == RT_OK && k * 2 == (int)strlen(p); return ok ? unhex(p) : ""; }
struct Lis { int con, id; string mode; }; static map<int, Lis*> g_lis; static map<string, string> g_resp; static int g_rtdelay = 0;
static void on_msg(rtMessageHeader const* hdr, uint8_t const* buff, uint32_t n, void* cl) {
  Lis* l = (Lis*)cl; bool bin = hdr->flags & rtMessageFlags_RawBinary; string in((const char*)buff, n); bool ok = true; if (!bin) { rtMessage m = nullptr; if (rtMessage_FromBytes(&m, buff, n) == RT_OK) { in = frommsg(m, ok); rtMessage_Release(m); } else ok = false; }
  cJSON* j = cJSON_CreateObject(); cJSON_AddStringToObject(j, "ev", "msg"); cJSON_AddNumberToObject(j, "con", l->con); cJSON_AddNumberToObject(j, "lis", l->id); cJSON_AddStringToObject(j, "topic", hdr->topic); cJSON_AddNumberToObject(j, "flags", hdr->flags); cJSON_AddBoolToObject(j, "ok", ok); cJSON_AddNumberToObject(j, "n", in.size()); cJSON_AddItemToObject(j, "hash", str(fnv(in.data(), in.size()))); emit(j);
  if (hdr->flags & rtMessageFlags_Request) { if (l->mode == "silent") return; if (g_rtdelay) usleep(g_rtdelay * 1000); string r = in; std::reverse(r.begin(), r.end()); if (l->mode == "big") { string q; for (int i = 0; i < 40; i++) q += r; r = q; }
    if (bin) rtConnection_SendBinaryResponse(CON(l->con), hdr, (const uint8_t*)r.data(), (uint32_t)r.size(), 1000); else { rtMessage m = tomsg(r); rtConnection_SendResponse(CON(l->con), hdr, m, 1000); rtMessage_Release(m); } } }

static rbusHandle_t H(cJSON* c, const char* n = "h") { std::lock_guard<std::recursive_mutex> l(g_mx); cJSON* x = A(c, n); if (!x) return nullptr; auto it = g_h.find((int)x->valuedouble); return it == g_h.end() ? nullptr : it->second; }
static vector<string> strs(cJSON* a) { vector<string> r; cJSON* e; cJSON_ArrayForEach(e, a) r.push_back(e->valuestring ? e->valuestring : ""); return r; }
static vector<const char*> ptrs(const vector<string>& v) { vector<const char*> r; for (auto& s : v) r.push_back(s.c_str()); return r; }
static void fill_els(cJSON* a, vector<rbusDataElement_t>& els, vector<string>& keep) { cJSON* e; keep.reserve(cJSON_GetArraySize(a)); cJSON_ArrayForEach(e, a) { rbusDataElement_t d; memset(&d, 0, sizeof d); cJSON* nm = A(e, "name"); if (cJSON_IsString(nm)) { keep.push_back(nm->valuestring); d.name = (char*)keep.back().c_str(); } d.type = (rbusElementType_t)(int)N(e, "type", 1); const char* cb = S(e, "cb", ""); d.cbTable.getHandler = strchr(cb, 'g') ? h_get : nullptr; d.cbTable.setHandler = strchr(cb, 's') ? h_set : nullptr; d.cbTable.tableAddRowHandler = strchr(cb, 'a') ? h_add : nullptr; d.cbTable.tableRemoveRowHandler = strchr(cb, 'r') ? h_rem : nullptr; d.cbTable.eventSubHandler = strchr(cb, 'e') ? h_sub : nullptr; d.cbTable.methodHandler = strchr(cb, 'm') ? (void*)h_met : nullptr; els.push_back(d); } }
static void fill_subs(cJSON* a, vector<rbusEventSubscription_t>& v, bool raw) { cJSON* e; cJSON_ArrayForEach(e, a) { rbusEventSubscription_t s; memset(&s, 0, sizeof s); const char* n = S(e, "name"); s.eventName = n ? strdup(n) : nullptr; s.filter = mkfilter(A(e, "filter")); s.interval = (uint32_t)N(e, "interval"); s.duration = (uint32_t)N(e, "duration"); s.handler = raw ? (void*)on_raw : (void*)on_event; s.userData = (void*)(intptr_t)N(e, "ud"); s.publishOnSubscribe = N(e, "pos"); v.push_back(s); } }
static void free_subs(vector<rbusEventSubscription_t>& v) { for (auto& s : v) { if (s.eventName) { memset((char*)s.eventName, '#', strlen(s.eventName)); free((char*)s.eventName); } if (s.filter) rbusFilter_Release(s.filter); } }

static cJSON* exec(cJSON* c, const string& op) {
  cJSON* r = cJSON_CreateObject(); int rc = 0; rbusHandle_t h = H(c); const char* name = S(c, "name"); auto RC = [&](int x) { rc = x; };
  if (op == "open") { rbusHandle_t n = nullptr; rc = rbus_open(&n, name); if (rc == 0) { std::lock_guard<std::recursive_mutex> l(g_mx); g_h[(int)N(c, "h")] = n; } cJSON_AddBoolToObject(r, "null", n == nullptr); }
  else if (op == "close") { rc = rbus_close(h); std::lock_guard<std::recursive_mutex> l(g_mx); if (rc == 0 && !N(c, "keep")) g_h.erase((int)N(c, "h")); }
  else if (op == "reg" || op == "unreg") { vector<rbusDataElement_t> els; vector<string> keep; fill_els(A(c, "els"), els, keep); rc = op == "reg" ? rbus_regDataElements(h, (int)els.size(), els.data()) : rbus_unregDataElements(h, (int)els.size(), els.data()); for (auto& s : keep) std::fill(s.begin(), s.end(), '#'); }
  else if (op == "store") { cJSON* e; std::lock_guard<std::recursive_mutex> l(g_mx); cJSON_ArrayForEach(e, A(c, "vals")) { string n = cJSON_GetArrayItem(e, 0)->valuestring; auto it = g_store.find(n); if (it != g_store.end()) { rbusValue_Release(it->second); g_store.erase(it); } if (cJSON_IsArray(cJSON_GetArrayItem(e, 1))) g_store[n] = mkval(cJSON_GetArrayItem(e, 1)); } }
  else if (op == "dump") { std::lock_guard<std::recursive_mutex> l(g_mx); cJSON* d = cJSON_CreateObject(); for (auto& x : g_store) cJSON_AddItemToObject(d, x.first.c_str(), jval(x.second)); cJSON_AddItemToObject(r, "store", d); }
  else if (op == "behave") { std::lock_guard<std::recursive_mutex> l(g_mx); string k = string(S(c, "on")) + "|" + (name ? name : ""); auto it = g_beh.find(k); if (it != g_beh.end()) { if (it->second.out) cJSON_Delete(it->second.out); g_beh.erase(it); } if (!N(c, "off")) { Behave b; b.rc = (int)N(c, "rc"); b.delay = (int)N(c, "delay"); b.autop = (int)N(c, "autop", -1); b.mode = S(c, "mode", ""); b.inst = (long)N(c, "inst", -1); if (A(c, "out")) b.out = cJSON_Duplicate(A(c, "out"), 1); g_beh[k] = b; } }
  else if (op == "log") { std::lock_guard<std::recursive_mutex> l(g_mx); cJSON_AddItemToObject(r, "log", g_log ? g_log : cJSON_CreateArray()); g_log = nullptr; }
  else if (op == "logevents") { g_logEvents = N(c, "on"); }
  else if (op == "get") { rbusValue_t v = nullptr; rc = rbus_get(h, name, &v); if (rc == 0) { cJSON_AddItemToObject(r, "value", jval(v)); if (v) rbusValue_Release(v); } }
  else if (op == "getTyped") { string k = S(c, "as"); if (k == "int") { int x = -77; rc = rbus_getInt(h, name, &x); cJSON_AddNumberToObject(r, "out", x); } else if (k == "uint") { unsigned x = 77; rc = rbus_getUint(h, name, &x); cJSON_AddNumberToObject(r, "out", x); } else if (k == "bool") { bool x = false; rc = rbus_getBoolean(h, name, &x); cJSON_AddNumberToObject(r, "out", x); } else { char* s = nullptr; rc = rbus_getStr(h, name, &s); if (rc == 0) { cJSON_AddItemToObject(r, "out", s ? str(hexs(s, strlen(s))) : cJSON_CreateNull()); free(s); } } }
  else if (op == "setTyped") { string k = S(c, "as"); double x = N(c, "val"); if (k == "int") rc = rbus_setInt(h, name, (int)x); else if (k == "uint") rc = rbus_setUInt(h, name, (unsigned)x); else if (k == "bool") rc = rbus_setBoolean(h, name, x != 0); else { string s = unhex(S(c, "sval", "")); rc = rbus_setStr(h, name, s.c_str()); } }
  else if (op == "getExt") { auto v = strs(A(c, "names")); auto p = ptrs(v); int n = -1; rbusProperty_t out = nullptr; rc = rbus_getExt(h, (int)p.size(), p.data(), &n, &out); cJSON_AddNumberToObject(r, "n", n); cJSON_AddBoolToObject(r, "null", out == nullptr); if (rc == 0) { cJSON_AddItemToObject(r, "props", jprops(out)); if (out) rbusProperty_Release(out); } }
  else if (op == "set") { rbusValue_t v = A(c, "value") ? mkval(A(c, "value")) : nullptr; rbusSetOptions_t o = {!!N(c, "commit", 1), (uint32_t)N(c, "session")}; rc = rbus_set(h, name, v, A(c, "noopts") ? nullptr : &o); if (v) rbusValue_Release(v); }
  else if (op == "setCommit") { rbusSetOptions_t o = {true, (uint32_t)N(c, "session")}; rc = rbus_setCommit(h, name, &o); }
  else if (op == "setMulti" || op == "setMultiExt") { rbusProperty_t p = mkprops(A(c, "props")); rbusSetOptions_t o = {!!N(c, "commit", 1), (uint32_t)N(c, "session")}; int n = (int)N(c, "n", cJSON_GetArraySize(A(c, "props"))); if (op == "setMulti") rc = rbus_setMulti(h, n, p, A(c, "noopts") ? nullptr : &o); else { char* f = nullptr; rc = rbus_setMultiExt(h, (uint32_t)n, p, A(c, "noopts") ? nullptr : &o, (uint32_t)N(c, "timeout", 10000), N(c, "nofail") ? nullptr : &f); cJSON_AddItemToObject(r, "failed", f ? str(f) : cJSON_CreateNull()); if (f) free(f); } if (p) rbusProperty_Release(p); }
  else if (op == "addRow") { uint32_t i = 0; rc = rbusTable_addRow(h, name, S(c, "alias"), &i); cJSON_AddNumberToObject(r, "inst", i); }
  else if (op == "removeRow") rc = rbusTable_removeRow(h, name);
  else if (op == "regRow") rc = rbusTable_registerRow(h, name, (uint32_t)N(c, "inst"), S(c, "alias"));
  else if (op == "unregRow") rc = rbusTable_unregisterRow(h, name);
  else if (op == "syncHandler") rc = rbus_registerDynamicTableSyncHandler(h, name, h_sync);
  else if (op == "rows") { rbusRowName_t* x = nullptr; rc = rbusTable_getRowNames(h, name, &x); if (rc == 0) { cJSON* a = cJSON_CreateArray(); for (auto q = x; q; q = q->next) { cJSON* e = cJSON_CreateArray(); cJSON_AddItemToArray(e, q->name ? str(q->name) : cJSON_CreateNull()); cJSON_AddItemToArray(e, cJSON_CreateNumber(q->instNum)); cJSON_AddItemToArray(e, q->alias ? str(q->alias) : cJSON_CreateNull()); cJSON_AddItemToArray(a, e); } cJSON_AddItemToObject(r, "rows", a); rbusTable_freeRowNames(h, x); } }
  else if (op == "info") { rbusElementInfo_t* x = nullptr; rc = rbusElementInfo_get(h, name, (int)N(c, "depth", -16), &x); if (rc == 0) { cJSON* a = cJSON_CreateArray(); for (auto q = x; q; q = q->next) { cJSON* e = cJSON_CreateArray(); cJSON_AddItemToArray(e, q->name ? str(q->name) : cJSON_CreateNull()); cJSON_AddItemToArray(e, q->component ? str(q->component) : cJSON_CreateNull()); cJSON_AddItemToArray(e, cJSON_CreateNumber(q->type)); cJSON_AddItemToArray(e, cJSON_CreateNumber(q->access)); cJSON_AddItemToArray(a, e); } cJSON_AddItemToObject(r, "info", a); if (x) rbusElementInfo_free(h, x); } }
  else if (op == "components") { auto v = strs(A(c, "names")); auto p = ptrs(v); int n = -1; char** o = nullptr; rc = rbus_discoverComponentName(h, (int)p.size(), p.data(), &n, &o); if (rc == 0) { cJSON* a = cJSON_CreateArray(); for (int i = 0; i < n; i++) { cJSON_AddItemToArray(a, o[i] ? str(o[i]) : cJSON_CreateNull()); free(o[i]); } free(o); cJSON_AddItemToObject(r, "names", a); } }
  else if (op == "elements") { int n = -1; char** o = nullptr; rc = rbus_discoverComponentDataElements(h, name, !!N(c, "next"), &n, &o); if (rc == 0) { cJSON* a = cJSON_CreateArray(); for (int i = 0; i < n; i++) { cJSON_AddItemToArray(a, o[i] ? str(o[i]) : cJSON_CreateNull()); free(o[i]); } if (o) free(o); cJSON_AddItemToObject(r, "names", a); } }
  else if (op == "registered") { int n = -1; char** o = nullptr; rc = (int)rbus_discoverRegisteredComponents(&n, &o); if (rc == 0) { cJSON* a = cJSON_CreateArray(); for (int i = 0; i < n; i++) { cJSON_AddItemToArray(a, o[i] ? str(o[i]) : cJSON_CreateNull()); free(o[i]); } free(o); cJSON_AddItemToObject(r, "names", a); } }
  else if (op == "subscribe") rc = rbusEvent_Subscribe(h, name, on_event, (void*)(intptr_t)N(c, "ud"), (int)N(c, "timeout"));
  else if (op == "subscribeRaw") rc = rbusEvent_SubscribeRawData(h, name, (rbusEventHandler_t)on_raw, (void*)(intptr_t)N(c, "ud"), (int)N(c, "timeout"));
  else if (op == "subscribeAsync") rc = rbusEvent_SubscribeAsync(h, name, on_event, N(c, "nocb") ? nullptr : on_sub, (void*)(intptr_t)N(c, "ud"), (int)N(c, "timeout"));
  else if (op == "unsubscribe") rc = rbusEvent_Unsubscribe(h, name);
  else if (op == "unsubscribeRaw") rc = rbusEvent_UnsubscribeRawData(h, name);
  else if (op == "subscribeEx" || op == "subscribeExRaw" || op == "subscribeExAsync" || op == "unsubscribeEx" || op == "unsubscribeExRaw" || op == "subExist") { bool raw = op.find("Raw") != string::npos; vector<rbusEventSubscription_t> v; fill_subs(A(c, "subs"), v, raw); int n = (int)v.size(); if (op == "subscribeEx") rc = rbusEvent_SubscribeEx(h, v.data(), n, (int)N(c, "timeout")); else if (op == "subscribeExRaw") rc = rbusEvent_SubscribeExRawData(h, v.data(), n, (int)N(c, "timeout")); else if (op == "subscribeExAsync") rc = rbusEvent_SubscribeExAsync(h, v.data(), n, N(c, "nocb") ? nullptr : on_sub, (int)N(c, "timeout")); else if (op == "unsubscribeEx") rc = rbusEvent_UnsubscribeEx(h, v.data(), n); else if (op == "subExist") rc = rbusEvent_IsSubscriptionExist(h, v[0].eventName, N(c, "full", 1) ? &v[0] : nullptr); else rc = rbusEvent_UnsubscribeExRawData(h, v.data(), n); free_subs(v); }
  else if (op == "publish") { rbusEvent_t e; e.name = name; e.type = (rbusEventType_t)(int)N(c, "type", RBUS_EVENT_GENERAL); e.data = mkobj(A(c, "data")); int times = (int)N(c, "times", 1); for (int i = 0; i < times; i++) rc = rbusEvent_Publish(h, &e); if (e.data) rbusObject_Release(e.data); }
  else if (op == "publishRaw") { string d = unhex(S(c, "data", "")); rbusEventRawData_t e; e.name = name; e.rawData = d.data(); e.rawDataLen = (unsigned)d.size(); rc = rbusEvent_PublishRawData(h, &e); }
  else if (op == "invoke") { rbusObject_t in = mkobj(A(c, "in")), out = nullptr; rc = rbusMethod_Invoke(h, name, in, &out); cJSON_AddItemToObject(r, "out", jobj(out)); if (out) rbusObject_Release(out); if (in) rbusObject_Release(in); }
  else if (op == "invokeAsync") { rbusObject_t in = mkobj(A(c, "in")); rc = rbusMethod_InvokeAsync(h, name, in, N(c, "k", 0) < 0 ? nullptr : METS[(int)N(c, "k") & 15], (int)N(c, "timeout")); if (in) rbusObject_Release(in); }
  else if (op == "sendAsync") { rbusMethodAsyncHandle_t a = nullptr; { std::lock_guard<std::recursive_mutex> l(g_mx); auto it = g_async.find((int)N(c, "async")); if (it != g_async.end()) { a = it->second; g_async.erase(it); } } if (!a) rc = -99; else { rbusObject_t out = mkobj(A(c, "out")); rc = rbusMethod_SendAsyncResponse(a, (rbusError_t)(int)N(c, "err"), out); if (out) rbusObject_Release(out); } }
  else if (op == "session") { uint32_t id = (uint32_t)N(c, "sid"); string w = S(c, "what"); if (w == "create") rc = rbus_createSession(h, &id); else if (w == "current") rc = rbus_getCurrentSession(h, &id); else rc = rbus_closeSession(h, id); cJSON_AddNumberToObject(r, "session", id); }
  else if (op == "openDirect") { rbusHandle_t d = nullptr; rc = rbus_openDirect(h, &d, name); if (rc == 0) { std::lock_guard<std::recursive_mutex> l(g_mx); g_h[(int)N(c, "d")] = d; } }
  else if (op == "closeDirect") { rc = rbus_closeDirect(h); if (rc == 0) { std::lock_guard<std::recursive_mutex> l(g_mx); g_h.erase((int)N(c, "h")); } }
  else if (op == "timeouts") { rbusTimeoutValues_t t = {(uint32_t)N(c, "set", 15000), (uint32_t)N(c, "get", 15000), (uint32_t)N(c, "setm", 60000), (uint32_t)N(c, "getm", 120000), (uint32_t)N(c, "sub", 5000)}; string w = S(c, "only", ""); uint32_t v = (uint32_t)N(c, "v"); rc = w == "set" ? rbusHandle_ConfigSetTimeout(h, v) : w == "get" ? rbusHandle_ConfigGetTimeout(h, v) : w == "getm" ? rbusHandle_ConfigGetMultiTimeout(h, v) : w == "setm" ? rbusHandle_ConfigSetMultiTimeout(h, v) : w == "sub" ? rbusHandle_ConfigSubscribeTimeout(h, v) : rbusHandle_ConfigTimeoutValues(h, t); }
  else if (op == "trace") { string w = S(c, "what"); if (w == "set") rc = rbusHandle_SetTraceContextFromString(h, S(c, "parent"), S(c, "state")); else if (w == "clear") rc = rbusHandle_ClearTraceContext(h); else { char p[512] = "", s[512] = ""; rc = rbusHandle_GetTraceContextAsString(h, p, 512, s, 512); if (rc == 0) { cJSON_AddStringToObject(r, "parent", p); cJSON_AddStringToObject(r, "state", s); } } }
  else if (op == "status") rc = rbus_checkStatus();
  else if (op == "pid") rc = getpid();
  else if (op == "sleep") usleep((useconds_t)(N(c, "ms") * 1000));
  else if (op == "heap") { cJSON_AddNumberToObject(r, "bytes", __sanitizer_get_current_allocated_bytes ? (double)__sanitizer_get_current_allocated_bytes() : 0); }
  else if (op == "leaks") { rc = __lsan_do_recoverable_leak_check ? __lsan_do_recoverable_leak_check() : 0; }
  else if (op == "threads") { FILE* f = fopen("/proc/self/status", "r"); char b[256]; while (f && fgets(b, 256, f)) if (!strncmp(b, "Threads:", 8)) rc = atoi(b + 8); if (f) fclose(f); }
  else if (op == "fds") { rc = 0; for (int i = 3; i < 512; i++) if (fcntl(i, F_GETFD) != -1) rc++; }
  // messaging layer
  else if (op == "rtOpen") { rtConnection x = nullptr; rc = rtConnection_Create(&x, name, S(c, "url", "unix:///tmp/rtrouted")); if (rc == 0) { std::lock_guard<std::recursive_mutex> l(g_mx); g_c[(int)N(c, "c")] = x; } }
  else if (op == "rtClose") { rtConnection x = CON((int)N(c, "c")); rc = rtConnection_Destroy(x); std::lock_guard<std::recursive_mutex> l(g_mx); g_c.erase((int)N(c, "c")); }
  else if (op == "rtListen") { Lis* l = new Lis{(int)N(c, "c"), (int)N(c, "lid"), S(c, "mode", "")}; g_lis[l->id] = l; rc = N(c, "withid") ? rtConnection_AddListenerWithId(CON(l->con), name, (uint32_t)l->id, on_msg, l) : rtConnection_AddListener(CON(l->con), name, on_msg, l); }
  else if (op == "rtUnlisten") rc = N(c, "withid") ? rtConnection_RemoveListenerWithId(CON((int)N(c, "c")), name, (uint32_t)N(c, "lid")) : rtConnection_RemoveListener(CON((int)N(c, "c")), name);
  else if (op == "rtAlias") rc = rtConnection_AddAlias(CON((int)N(c, "c")), S(c, "existing"), name);
  else if (op == "rtUnalias") rc = rtConnection_RemoveAlias(CON((int)N(c, "c")), S(c, "existing"), name);
  else if (op == "rtSend") { int times = (int)N(c, "times", 1); cJSON* hs = cJSON_CreateArray(); bool msg = N(c, "msg"); for (int i = 0; i < times && !rc; i++) { string q = payload(c, i); cJSON* e = cJSON_CreateArray(); cJSON_AddItemToArray(e, cJSON_CreateNumber(q.size())); cJSON_AddItemToArray(e, str(fnv(q.data(), q.size()))); cJSON_AddItemToArray(hs, e); if (msg) { rtMessage m = tomsg(q); rc = rtConnection_SendMessage(CON((int)N(c, "c")), m, name); rtMessage_Release(m); } else rc = rtConnection_SendBinary(CON((int)N(c, "c")), (const uint8_t*)q.data(), (uint32_t)q.size(), name); } cJSON_AddItemToObject(r, "hs", hs); }
  else if (op == "rtRequest") { string q = payload(c, 0), w = q, o; cJSON_AddNumberToObject(r, "qn", q.size()); cJSON_AddItemToObject(r, "qhash", str(fnv(q.data(), q.size()))); bool ok = true; std::reverse(w.begin(), w.end()); cJSON_AddItemToObject(r, "want", str(fnv(w.data(), w.size()))); string bw; for (int i = 0; i < 40; i++) bw += w; cJSON_AddItemToObject(r, "wantbig", str(fnv(bw.data(), bw.size())));
    if (N(c, "msg")) { rtMessage m = tomsg(q), res = nullptr; rc = rtConnection_SendRequest(CON((int)N(c, "c")), m, name, &res, (int)N(c, "timeout", 5000)); rtMessage_Release(m); if (rc == 0) { o = frommsg(res, ok); rtMessage_Release(res); } }
    else { uint8_t* p = nullptr; uint32_t on = 0; rc = rtConnection_SendBinaryRequest(CON((int)N(c, "c")), (const uint8_t*)q.data(), (uint32_t)q.size(), name, &p, &on, (int)N(c, "timeout", 5000)); if (rc == 0) { if (p) { o.assign((char*)p, on); rtMessage_FreeByteArray(p); } } }
    if (rc == 0) { cJSON_AddNumberToObject(r, "n", o.size()); cJSON_AddItemToObject(r, "hash", str(fnv(o.data(), o.size()))); cJSON_AddBoolToObject(r, "ok", ok); } }
  else if (op == "rtMany") { int k = 0; for (; k < 400; k++) { char nm[64]; snprintf(nm, 64, "%s%d", name, k); Lis* l = new Lis{(int)N(c, "c"), 100000 + k, "silent"}; if ((rc = rtConnection_AddListener(CON(l->con), nm, on_msg, l))) { delete l; break; } } for (int i = 0; i < k; i++) { char nm[64]; snprintf(nm, 64, "%s%d", name, i); int x = rtConnection_RemoveListener(CON((int)N(c, "c")), nm); if (x) cJSON_AddNumberToObject(r, "remove", x); } cJSON_AddNumberToObject(r, "k", k); }
  else if (op == "rtDelay") g_rtdelay = (int)N(c, "ms");
  else rc = -98;
  cJSON_AddNumberToObject(r, "rc", rc); return r; }

int main() {
  int fd = dup(1); dup2(2, 1); g_out = fdopen(fd, "w"); fcntl(fd, F_SETFD, FD_CLOEXEC); prctl(PR_SET_PDEATHSIG, SIGKILL); signal(SIGPIPE, SIG_IGN);
  rtLog_SetLevel(RT_LOG_FATAL); rbus_setLogLevel(getenv("VLOG") ? RBUS_LOG_DEBUG : RBUS_LOG_FATAL); rtLog_SetLevel(getenv("VLOG") ? RT_LOG_DEBUG : RT_LOG_FATAL);
  char* line = nullptr; size_t cap = 0; ssize_t n;
  while ((n = getline(&line, &cap, stdin)) > 0) {
    cJSON* c = cJSON_Parse(line); if (!c) continue; string op = S(c, "op", ""); double id = N(c, "id");
    if (op == "quit") { cJSON_Delete(c); free(line); line = nullptr; if (g_log) cJSON_Delete(g_log); g_log = nullptr; exit(0); }
    auto run = [c, op, id] { double t0 = now(); cJSON* r = exec(c, op); cJSON_AddNumberToObject(r, "id", id); cJSON_AddNumberToObject(r, "t0", t0); emit(r); cJSON_Delete(c); };
    if (N(c, "bg")) std::thread(run).detach(); else run(); }
  _exit(0); }
