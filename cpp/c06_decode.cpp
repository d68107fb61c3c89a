// C06: arbitrary bytes either decode to a well-formed result or are refused, without touching memory outside
#include "filtergen.h"
#include <vector>
#include <memory>
#include <string.h>
#include <stdio.h>
#include <unistd.h>
#include <stdlib.h>
#include <sys/stat.h>
extern "C" {
#include <rbuscore_message.h>
#include <rtMessageHeader.h>
#include <rtMessage.h>
#include <rtBase64.h>
#include <rtLog.h>
#include <rbus_element.h>
#include <rbus_tokenchain.h>
#include <rbus_subscriptions.h>
void rbusMessage_BeginMetaSectionWrite(rbusMessage message);
void rbusMessage_EndMetaSectionWrite(rbusMessage message);
void rbusMessage_BeginMetaSectionRead(rbusMessage message);
void rbusMessage_EndMetaSectionRead(rbusMessage message);
rbusError_t rbusValue_initFromMessage(rbusValue_t* value, rbusMessage msg) __attribute__((weak));
void rbusValue_appendToMessage(char const* name, rbusValue_t value, rbusMessage msg) __attribute__((weak));
void rbusPropertyList_initFromMessage(rbusProperty_t* prop, rbusMessage msg) __attribute__((weak));
void rbusPropertyList_appendToMessage(rbusProperty_t prop, rbusMessage msg) __attribute__((weak));
void rbusObject_initFromMessage(rbusObject_t* obj, rbusMessage msg) __attribute__((weak));
void rbusObject_appendToMessage(rbusObject_t obj, rbusMessage msg) __attribute__((weak));
void rbusFilter_AppendToMessage(rbusFilter_t filter, rbusMessage msg) __attribute__((weak));
void rbusFilter_InitFromMessage(rbusFilter_t* filter, rbusMessage msg) __attribute__((weak));
}
using namespace pbt; using std::string; using std::vector; typedef vector<uint8_t> V;
static bool quiet = (rtLog_SetLevel(RT_LOG_FATAL), rbus_setLogLevel(RBUS_LOG_FATAL), true);
static volatile size_t g_sink;

// edits of a valid encoding: flips, cuts, insertions, duplicated ranges, length-like fields, splices
static int mutate(Tape& t, V& b, const V& other) {
  int n = (int)t.draw(5);
  for (int i = 0; i < n; i++) { size_t z = b.size(); switch (t.draw(9)) {
    case 0: if (z) b[t.draw(z)] ^= 1u << t.draw(8); break;
    case 1: if (z) b[t.draw(z)] = (uint8_t)t.draw(256); break;
    case 2: if (z) b.resize(t.draw(z)); break;
    case 3: { size_t p = t.draw(z + 1), k = 1 + t.draw(8); uint8_t x = (uint8_t)t.draw(256); b.insert(b.begin() + p, k, x); break; }
    case 4: if (z) { size_t p = t.draw(z), k = 1 + t.draw(std::min<size_t>(16, z - p)); b.erase(b.begin() + p, b.begin() + p + k); } break;
    case 5: if (z >= 2) { size_t p = t.draw(z - 1); static const uint16_t X[] = {0, 1, 0x7fff, 0x8000, 0xffff, 0xfffe, 0x0100, 64, 63, 0x500, 0x50e, 0x512}; uint16_t v = X[t.draw(12)]; b[p] = v & 255; b[p + 1] = v >> 8; } break;
    case 6: if (z >= 4) { size_t p = t.draw(z - 3); static const uint32_t X[] = {0, 1, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xfffffff0u, 0x10000, 0x40000000, 5, 256, 0x3fffffff}; uint32_t v = X[t.draw(11)]; if (t.draw(2)) v = __builtin_bswap32(v); memcpy(&b[p], &v, 4); } break;
    case 7: if (z) { size_t p = t.draw(z), k = 1 + t.draw(std::min<size_t>(32, z - p)); V s(b.begin() + p, b.begin() + p + k); b.insert(b.begin() + t.draw(z), s.begin(), s.end()); } break;
    default: if (z && other.size()) { b.resize(t.draw(z)); size_t p = t.draw(other.size()); b.insert(b.end(), other.begin() + p, other.end()); } } }
  return n; }
static V random_bytes(Tape& t, size_t max) { V r; size_t n = gen_len(t, max); for (size_t i = 0; i < n; i++) r.push_back((uint8_t)t.draw(256)); return r; }
struct Exact { uint8_t* p; size_t n; Exact(const V& v) : p((uint8_t*)malloc(v.size() ? v.size() : 1)), n(v.size()) { if (n) memcpy(p, v.data(), n); } ~Exact() { free(p); } };
struct Buf { struct _rbusBuffer b; Exact e; Buf(const V& v) : e(v) { memset(&b, 0x5a, sizeof b); b.lenAlloc = b.posWrite = (int)v.size(); b.posRead = 0; b.data = e.p; } };
static V bytes_of(rbusBuffer_t b) { return V(b->data, b->data + b->posWrite); }

static void touch_value(rbusValue_t v, Case& c, int depth = 0);
static void touch_props(rbusProperty_t p, Case& c, int depth) { for (; p; p = rbusProperty_GetNext(p)) { const char* n = rbusProperty_GetName(p); g_sink += n ? strlen(n) : 0; if (rbusValue_t v = rbusProperty_GetValue(p)) touch_value(v, c, depth + 1); } }
static void touch_obj(rbusObject_t o, Case& c, int depth) { for (; o; o = rbusObject_GetNext(o)) { const char* n = rbusObject_GetName(o); g_sink += n ? strlen(n) : 0; touch_props(rbusObject_GetProperties(o), c, depth + 1); touch_obj(rbusObject_GetChildren(o), c, depth + 1); } }
static void touch_value(rbusValue_t v, Case& c, int depth) {
  if (!v) return; rbusValueType_t ty = rbusValue_GetType(v);
  switch (ty) {
    case RBUS_STRING: { int l = 0; const char* s = rbusValue_GetString(v, &l); if (s) { g_sink += strlen(s); CHECK(l >= 0 && (size_t)l <= strlen(s) + 1, "a decoded string of length %d has %zu characters", l, strlen(s)); } break; }
    case RBUS_BYTES: { int l = 0; const uint8_t* b = rbusValue_GetBytes(v, &l); for (int i = 0; i < l; i++) g_sink += b[i]; break; }
    case RBUS_PROPERTY: touch_props(rbusValue_GetProperty(v), c, depth + 1); break;
    case RBUS_OBJECT: touch_obj(rbusValue_GetObject(v), c, depth + 1); break;
    default: break; }
  char* s = rbusValue_ToString(v, nullptr, 0); if (s) { g_sink += strlen(s); free(s); }
}
static bool has_nan(rbusValue_t v) { return v && ((rbusValue_GetType(v) == RBUS_DOUBLE && std::isnan(rbusValue_GetDouble(v))) || (rbusValue_GetType(v) == RBUS_SINGLE && std::isnan(rbusValue_GetSingle(v)))); }
static bool scalar(rbusValueType_t ty) { for (auto s : SCALARS) if (s == ty) return true; return false; }

PROP(value, 2, "bytes of encoded values (up to three in a row), mutated by 0..4 edits, or random; decoded until refused; non-trivial: mutated and at least one value accepted or the first refused after its header") {
  size_t h0 = heap_bytes(); {
    V in; int k = 1 + (int)t.draw(3); vector<MV> ms;
    { rbusBuffer_t b; rbusBuffer_Create(&b); for (int i = 0; i < k; i++) { MV m = gen_value(t, t.draw(20) == 19 ? 3000 : 80); ms.push_back(m); rbusValue_t v = init_value(m); rbusValue_Encode(v, b); rbusValue_Release(v); } in = bytes_of(b); rbusBuffer_Destroy(b); }
    V orig = in; int muts = 0; if (t.draw(12) == 11) { in = random_bytes(t, 200); muts = 1; c.label("random"); } else muts = mutate(t, in, orig);
    c.note("%zu bytes, %d edits: %s", in.size(), muts, hex(in.data(), in.size(), 60).c_str());
    Buf b(in); int got = 0, pos = 0;
    while (b.b.posRead < b.b.posWrite && got < 4000) { rbusValue_t v = nullptr; int rc = rbusValue_Decode(&v, &b.b);
      CHECK(b.b.posRead <= b.b.posWrite && b.b.posRead >= pos, "decoding moved from %d to %d of %d bytes", pos, b.b.posRead, b.b.posWrite);
      if (rc < 0) { c.label("refused"); break; }
      CHECK(v, "decoding reports success without a value"); CHECK(b.b.posRead > pos, "decoding consumed nothing"); pos = b.b.posRead; got++;
      if (in == orig && got <= (int)ms.size()) { MV want = ms[got - 1]; if (!want.null) { string e = check_value(v, want); if (e.size()) c.fail("unedited value %d: %s", got, e.c_str()); } }
      rbusValueType_t ty = rbusValue_GetType(v); CHECK(ty == RBUS_NONE || scalar(ty), "decoded value has the unknown type %x", ty); touch_value(v, c);
      rbusBuffer_t o; rbusBuffer_Create(&o); rbusValue_Encode(v, o); rbusValue_t w = nullptr; int rc2 = rbusValue_Decode(&w, o); if (scalar(ty)) { CHECK(rc2 >= 0, "an accepted value does not decode again"); if (!has_nan(v)) CHECK(rbusValue_Compare(v, w) == 0, "an accepted value differs after encoding and decoding again"); } if (rc2 >= 0 && w) rbusValue_Release(w); rbusBuffer_Destroy(o);
      rbusValue_Release(v); }
    if (got) c.label("accepted"); c.nontrivial = muts && in.size() > 4 && (got || b.b.posRead > 0);
  } LEAKCHECK(h0);
}

static void touch_filter(rbusFilter_t f, Case& c) { if (!f) return; if (rbusFilter_GetType(f) == RBUS_FILTER_EXPRESSION_RELATION) { CHECK((unsigned)rbusFilter_GetRelationOperator(f) <= RBUS_FILTER_OPERATOR_NOT_EQUAL, "accepted filter has the relation operator %d", rbusFilter_GetRelationOperator(f)); CHECK(rbusFilter_GetRelationValue(f), "accepted relation has no value"); touch_value(rbusFilter_GetRelationValue(f), c); } else { CHECK(rbusFilter_GetType(f) == RBUS_FILTER_EXPRESSION_LOGIC, "accepted filter has the kind %d", rbusFilter_GetType(f)); CHECK((unsigned)rbusFilter_GetLogicOperator(f) <= RBUS_FILTER_OPERATOR_NOT, "accepted filter has the logic operator %d", rbusFilter_GetLogicOperator(f)); touch_filter(rbusFilter_GetLogicLeft(f), c); touch_filter(rbusFilter_GetLogicRight(f), c); } }
static bool filter_nan(rbusFilter_t f) { if (!f) return false; if (rbusFilter_GetType(f) == RBUS_FILTER_EXPRESSION_RELATION) return has_nan(rbusFilter_GetRelationValue(f)); return filter_nan(rbusFilter_GetLogicLeft(f)) || filter_nan(rbusFilter_GetLogicRight(f)); }
static bool filter_scalar(rbusFilter_t f) { if (!f) return true; if (rbusFilter_GetType(f) == RBUS_FILTER_EXPRESSION_RELATION) return scalar(rbusValue_GetType(rbusFilter_GetRelationValue(f))); return filter_scalar(rbusFilter_GetLogicLeft(f)) && filter_scalar(rbusFilter_GetLogicRight(f)); }
static void use_filter(Tape& t, rbusFilter_t f, Case& c) { touch_filter(f, c); for (int i = 0; i < 2; i++) { MV m = gen_value(t, 40); rbusValue_t v = init_value(m); g_sink += rbusFilter_Apply(f, v); rbusValue_Release(v); } }

PROP(filter, 2, "bytes of encoded filter trees, mutated or random, also long chains of nesting; non-trivial: mutated") {
  size_t h0 = heap_bytes(); {
    V in, other; { rbusBuffer_t b; rbusBuffer_Create(&b); FTp f = ft_gen(t, SCALARS[t.draw(N_SCALARS)], 4); rbusFilter_t x = ft_build(*f); rbusFilter_Encode(x, b); rbusFilter_Release(x); in = bytes_of(b); rbusBuffer_Destroy(b); }
    other = in; int muts; unsigned how = t.draw(16);
    if (how == 15) { in = random_bytes(t, 120); muts = 1; c.label("random"); }
    else if (how == 14) { // one byte pattern repeated: deep nesting if it is a logic header
      size_t k = std::min<size_t>(in.size(), 1 + t.draw(16)), reps = t.draw(3) ? t.draw(200) : 20000 + t.draw(60000); V p(in.begin(), in.begin() + k); V x; for (size_t i = 0; i < reps; i++) x.insert(x.end(), p.begin(), p.end()); x.insert(x.end(), in.begin(), in.end()); in = x; muts = 1; c.label("repeated prefix"); }
    else muts = mutate(t, in, other);
    c.note("%zu bytes, %d edits: %s", in.size(), muts, hex(in.data(), in.size(), 60).c_str());
    Buf b(in); rbusFilter_t f = nullptr; int rc = rbusFilter_Decode(&f, &b.b);
    CHECK(b.b.posRead <= b.b.posWrite && b.b.posRead >= 0, "decoding moved to %d of %d bytes", b.b.posRead, b.b.posWrite);
    if (in == other) CHECK(rc == 0, "an unedited filter is refused");
    if (rc == 0) { c.label("accepted"); CHECK(f, "decoding reports success without a filter"); use_filter(t, f, c);
      rbusBuffer_t o; rbusBuffer_Create(&o); rbusFilter_Encode(f, o); rbusFilter_t g = nullptr; int rc2 = rbusFilter_Decode(&g, o); if (filter_scalar(f)) { CHECK(rc2 == 0 && g, "an accepted filter does not decode again"); if (!filter_nan(f)) CHECK(rbusFilter_Compare(f, g) == 0, "an accepted filter differs after encoding and decoding again"); } if (rc2 == 0 && g) rbusFilter_Release(g); rbusBuffer_Destroy(o); rbusFilter_Release(f); }
    else c.label("refused");
    c.nontrivial = muts > 0;
  } LEAKCHECK(h0);
}

static rbusProperty_t small_props(Tape& t, int depth); 
static rbusObject_t small_obj(Tape& t, int depth) { rbusObject_t o; string n = gen_string(t, 12); if (t.draw(3) == 2) rbusObject_InitMultiInstance(&o, n.c_str()); else rbusObject_Init(&o, n.c_str()); rbusProperty_t p = small_props(t, depth - 1); if (p) { rbusObject_SetProperties(o, p); rbusProperty_Release(p); } if (depth > 0 && t.draw(2)) { rbusObject_t k = small_obj(t, depth - 1); rbusObject_SetChildren(o, k); rbusObject_Release(k); } return o; }
static rbusProperty_t small_props(Tape& t, int depth) { rbusProperty_t first = nullptr; int n = (int)t.draw(4); for (int i = 0; i < n; i++) { rbusValue_t v; unsigned k = depth > 0 ? t.draw(6) : 0; if (k == 4) { rbusValue_Init(&v); rbusProperty_t p = small_props(t, depth - 1); rbusValue_SetProperty(v, p); if (p) rbusProperty_Release(p); } else if (k == 5) { rbusValue_Init(&v); rbusObject_t o = small_obj(t, depth - 1); rbusValue_SetObject(v, o); rbusObject_Release(o); } else v = init_value(gen_value(t, 30)); rbusProperty_t p; rbusProperty_Init(&p, gen_string(t, 10).c_str(), v); rbusValue_Release(v); if (!first) first = p; else { rbusProperty_Append(first, p); rbusProperty_Release(p); } } return first; }
enum { FI32, FI64, FDBL, FSTR, FBIN, FMSG, FVAL, FPROPS, FOBJ, FFILT, FMETA, FDBG, NF };
static rbusMessage gen_msg(Tape& t, int depth, vector<int>& order) {
  rbusMessage m; rbusMessage_Init(&m); int n = (int)t.draw(7);
  for (int i = 0; i < n; i++) { int k = (int)t.draw(depth > 0 ? 10 : 5); order.push_back(k); switch (k) {
    case FI32: rbusMessage_SetInt32(m, (int32_t)gen_int(t, 32, true)); break; case FI64: rbusMessage_SetInt64(m, gen_int(t, 64, true)); break; case FDBL: rbusMessage_SetDouble(m, gen_double(t)); break; case FSTR: rbusMessage_SetString(m, gen_string(t, 60).c_str()); break; case FBIN: { string s = gen_bytes(t, 60); rbusMessage_SetBytes(m, (const uint8_t*)s.data(), s.size()); break; }
    case FMSG: { vector<int> o; rbusMessage s = gen_msg(t, depth - 1, o); rbusMessage_SetMessage(m, s); rbusMessage_Release(s); break; }
    case FVAL: { rbusValue_t v = init_value(gen_value(t, 40)); rbusValue_appendToMessage(gen_string(t, 20).c_str(), v, m); rbusValue_Release(v); break; }
    case FPROPS: { rbusProperty_t p = small_props(t, 2); rbusPropertyList_appendToMessage(p, m); if (p) rbusProperty_Release(p); break; }
    case FOBJ: { rbusObject_t o = small_obj(t, 2); rbusObject_appendToMessage(o, m); rbusObject_Release(o); break; }
    default: { FTp f = ft_gen(t, SCALARS[t.draw(N_SCALARS)], 3); rbusFilter_t x = ft_build(*f); rbusFilter_AppendToMessage(x, m); rbusFilter_Release(x); } } }
  if (t.draw(3) == 2) { rbusMessage_BeginMetaSectionWrite(m); for (int i = 0; i < 3; i++) rbusMessage_SetString(m, gen_string(t, 20).c_str()); rbusMessage_EndMetaSectionWrite(m); order.push_back(FMETA); }
  return m; }
static void read_field(Tape& t, rbusMessage m, int k, Case& c, int depth) {
  switch (k) {
    case FI32: { int32_t x; if (t.draw(2)) { uint32_t u; rbusMessage_GetUInt32(m, &u); } else rbusMessage_GetInt32(m, &x); break; } case FI64: { int64_t x; rbusMessage_GetInt64(m, &x); break; } case FDBL: { double d; rbusMessage_GetDouble(m, &d); break; }
    case FSTR: { const char* s = nullptr; if (rbusMessage_GetString(m, &s) == RT_OK) { CHECK(s, "string field without text"); g_sink += strlen(s); } break; }
    case FBIN: { const uint8_t* b = nullptr; uint32_t n = 0; if (rbusMessage_GetBytes(m, &b, &n) == RT_OK) for (uint32_t i = 0; i < n; i++) g_sink += b[i]; break; }
    case FMSG: { rbusMessage s = nullptr; if (rbusMessage_GetMessage(m, &s) == RT_OK) { CHECK(s, "nested message missing"); int n = (int)t.draw(5); for (int i = 0; i < n && depth < 4; i++) read_field(t, s, (int)t.draw(NF), c, depth + 1); rbusMessage_Release(s); } break; }
    case FVAL: { const char* n; if (rbusMessage_GetString(m, &n) != RT_OK) break; rbusValue_t v = nullptr; if (rbusValue_initFromMessage(&v, m) == RBUS_ERROR_SUCCESS) { CHECK(v, "no value"); touch_value(v, c); rbusBuffer_t o; rbusBuffer_Create(&o); if (scalar(rbusValue_GetType(v))) rbusValue_Encode(v, o); rbusBuffer_Destroy(o); } if (v) rbusValue_Release(v); break; }
    case FPROPS: { rbusProperty_t p = nullptr; rbusPropertyList_initFromMessage(&p, m); if (p) { touch_props(p, c, 0); rbusProperty_Release(p); } break; }
    case FOBJ: { rbusObject_t o = nullptr; rbusObject_initFromMessage(&o, m); if (o) { touch_obj(o, c, 0); rbusObject_Release(o); } break; }
    case FFILT: { rbusFilter_t f = nullptr; rbusFilter_InitFromMessage(&f, m); if (f) { use_filter(t, f, c); rbusFilter_Release(f); } break; }
    case FMETA: { const char* s = nullptr; rbusMessage_BeginMetaSectionRead(m); for (int i = 0; i < 3; i++) if (rbusMessage_GetString(m, &s) == RT_OK) g_sink += strlen(s); rbusMessage_EndMetaSectionRead(m); break; }
    default: { char* s = nullptr; uint32_t n = 0; rbusMessage_ToDebugString(m, &s, &n); if (s) g_sink += strlen(s); free(s); } } }

PROP(message, 2, "bytes of packed messages (all field kinds, nested, with metadata), mutated or random, read with the packing order or in random order; non-trivial: mutated and at least three fields read") {
  size_t h0 = heap_bytes(); {
    vector<int> order, o2; V in, other; { rbusMessage m = gen_msg(t, 2, order); uint8_t* p; uint32_t n; rbusMessage_ToBytes(m, &p, &n); in.assign(p, p + n); rbusMessage_Release(m); } other = in;
    int muts; if (t.draw(16) == 15) { in = random_bytes(t, 120); muts = 1; c.label("random"); } else muts = mutate(t, in, other);
    c.note("%zu bytes, %d edits: %s reads:", in.size(), muts, hex(in.data(), in.size(), 60).c_str());
    rbusMessage m; { Exact e(in); rbusMessage_FromBytes(&m, e.p, (uint32_t)e.n); }
    int reads = 0; if (t.draw(3)) { for (int k : order) { if (t.draw(20) == 19) k = (int)t.draw(NF); c.note(" %d", k); read_field(t, m, k, c, 0); reads++; } }
    int n = (int)t.draw(6); for (int i = 0; i < n; i++) { int k = (int)t.draw(NF); c.note(" %d", k); read_field(t, m, k, c, 0); reads++; }
    rbusMessage_Release(m); c.nontrivial = muts && reads >= 3; if (muts) c.label("edited"); else c.label("unedited");
  } LEAKCHECK(h0);
}

PROP(header, 1, "frame headers, mutated or random, decoded from a buffer of exactly the announced length; non-trivial: mutated") {
  rtMessageHeader h; rtMessageHeader_Init(&h); string a = gen_string(t, 40), b = gen_string(t, 40); if (t.draw(6) == 5) { a = string(255, 'a'); b = string(240 + t.draw(16), 'b'); } if (a.size() > 255) a.resize(255); if (b.size() > 255) b.resize(255);
  memcpy(h.topic, a.c_str(), a.size() + 1); memcpy(h.reply_topic, b.c_str(), b.size() + 1); h.payload_length = (uint32_t)gen_int(t, 32, false); h.sequence_number = (uint32_t)t.draw(1000);
  V in(52 + a.size() + b.size() + 64); rtMessageHeader_Encode(&h, in.data()); in.resize(h.header_length); V other = in; int muts = mutate(t, in, other); if (t.draw(20) == 19) { in = random_bytes(t, 80); muts = 1; if (in.size() >= 2 && t.draw(2)) in[0] = in[1] = 0xaa; }
  // the reader has the preamble, takes the length from it and reads that many bytes in all
  if (in.size() < 6) in.resize(6); size_t want = std::max<size_t>(6, in[4] << 8 | in[5]); in.resize(want, 0xaa);
  c.note("%d edits: %s", muts, hex(in.data(), in.size(), 80).c_str());
  Exact e(in); std::unique_ptr<rtMessageHeader> d(new rtMessageHeader); rtMessageHeader_Init(d.get()); rtError rc = rtMessageHeader_Decode(d.get(), e.p);
  if (rc == RT_OK) { c.label("accepted"); CHECK(d->payload_length <= RTMSG_HEADER_MAX_PAYLOAD_LENGTH, "a payload of %u bytes is accepted", d->payload_length); CHECK(d->topic_length < 256 && d->reply_topic_length < 256, "topic lengths %u and %u are accepted", d->topic_length, d->reply_topic_length); CHECK(strlen(d->topic) <= d->topic_length && strlen(d->reply_topic) <= d->reply_topic_length, "topics are not terminated"); CHECK(d->header_length == want, "header length"); CHECK(e.p[0] == 0xaa && e.p[1] == 0xaa, "accepted without the marker"); } else c.label("refused");
  if (!muts && h.payload_length <= RTMSG_HEADER_MAX_PAYLOAD_LENGTH) CHECK(rc == RT_OK, "an unedited header is refused");
  c.nontrivial = muts > 0;
}

static string gen_json(Tape& t, int depth) {
  static const char* NM[] = {"expression", "route_id", "add", "a", "B", "list", "data", "num", "", "_topic", "A"};
  switch (t.draw(depth > 0 ? 9 : 6)) { case 0: return std::to_string(gen_int(t, 64, true)); case 1: { char b[60]; snprintf(b, 60, "%.17g", gen_double(t)); return b; } case 2: return t.draw(2) ? "true" : "null"; case 3: { string s = "\""; int n = (int)t.draw(12); for (int i = 0; i < n; i++) { static const char* P[] = {"a", "\\n", "\\u00e9", "\\ud83d\\ude00", "\\ud83d", "\\", "\"", "\x01", "\xc3", "=", "QUJD", "/"}; s += P[t.draw(12)]; } return s + "\""; } case 4: return "\"" + string(t.draw(8) == 7 ? 1369 + t.draw(20) : t.draw(40), "ABCD+/="[t.draw(7)]) + "\""; case 5: return "false";
    case 6: { string s = "["; int n = (int)t.draw(5); for (int i = 0; i < n; i++) s += (i ? "," : "") + gen_json(t, depth - 1); return s + "]"; }
    case 7: { if (t.draw(40) == 39) { int n = 200 + (int)t.draw(2000); return string(n, '[') + string(t.draw(2) ? n : n / 2, ']'); } }
    default: { string s = "{"; int n = (int)t.draw(6); for (int i = 0; i < n; i++) s += string(i ? "," : "") + "\"" + NM[t.draw(11)] + "\":" + gen_json(t, depth - 1); return s + "}"; } } }
PROP(json, 1, "JSON control messages built from generated text, mutated or random; all getters with names present and absent and all indexes around the array bounds; non-trivial: accepted object with a getter that succeeds") {
  size_t h0 = heap_bytes(); {
    string s = gen_json(t, 4); V in(s.begin(), s.end()), other = in; int muts = mutate(t, in, other); if (t.draw(20) == 19) in = random_bytes(t, 60);
    c.note("%s", esc(string(in.begin(), in.end()), 300).c_str());
    rtMessage m = nullptr; rtError rc; { Exact e(in); rc = rtMessage_FromBytes(&m, e.p, (int)e.n); }
    if (rc == RT_OK) { CHECK(m, "accepted without a message"); c.label("accepted"); static const char* NM[] = {"expression", "route_id", "add", "a", "B", "list", "data", "num", "", "_topic", "zzz"}; int n = 1 + (int)t.draw(12), good = 0;
      for (int i = 0; i < n; i++) { const char* nm = NM[t.draw(11)]; switch (t.draw(11)) {
        case 0: { const char* x = nullptr; if (rtMessage_GetString(m, nm, &x) == RT_OK) { good++; CHECK(x, "string %s is NULL", nm); g_sink += strlen(x); } break; }
        case 1: { int32_t x; good += rtMessage_GetInt32(m, nm, &x) == RT_OK; break; } case 2: { double x; good += rtMessage_GetDouble(m, nm, &x) == RT_OK; break; } case 3: { bool b = false; good += rtMessage_GetBool(m, nm, &b) == RT_OK; break; }
        case 4: { rtMessage x = nullptr; if (rtMessage_GetMessage(m, nm, &x) == RT_OK) { good++; CHECK(x, "message %s is NULL", nm); int32_t q; rtMessage_GetInt32(x, "a", &q); rtMessage_Release(x); } break; }
        case 5: { void* p = nullptr; uint32_t k = 0; if (rtMessage_GetBinaryData(m, nm, &p, &k) == RT_OK) { good++; for (uint32_t j = 0; j < k; j++) g_sink += ((uint8_t*)p)[j]; free(p); } break; }
        case 6: { int32_t l = -9; if (rtMessage_GetArrayLength(m, nm, &l) == RT_OK) { good++; CHECK(l >= 0, "array %s has %d items", nm, l); } break; }
        case 7: { int32_t l = 0; rtMessage_GetArrayLength(m, nm, &l); int ix = (int)t.draw(l + 4) - 2; const char* x = nullptr; if (rtMessage_GetStringItem(m, nm, ix, &x) == RT_OK && x) { good++; CHECK(ix >= 0 && ix < std::max(l, 1), "item %d of %d is returned", ix, l); g_sink += strlen(x); } break; }
        case 8: { int32_t l = 0; rtMessage_GetArrayLength(m, nm, &l); int ix = (int)t.draw(l + 4) - 2; rtMessage x = nullptr; if (rtMessage_GetMessageItem(m, nm, ix, &x) == RT_OK) { good++; CHECK(x, "item is NULL"); const char* q; rtMessage_GetString(x, "a", &q); rtMessage_Release(x); } break; }
        case 9: { int n2 = (int)t.draw(20); char* buf = (char*)malloc(n2 ? n2 : 1); if (rtMessage_GetStringValue(m, nm, buf, n2) == RT_OK) { good++; CHECK(n2 > 0, "text is returned in no room"); CHECK(strnlen(buf, n2) < (size_t)n2, "the returned text is not terminated"); } free(buf); break; }
        default: { std::unique_ptr<char[]> topic(new char[in.size() * 3 + 16]); rtMessage_GetSendTopic(m, topic.get()); } } }
      char* str = nullptr; uint32_t sn = 0; if (rtMessage_ToString(m, &str, &sn) == RT_OK && str) { g_sink += strlen(str); free(str); }
      uint8_t* by = nullptr; uint32_t bn = 0; if (rtMessage_ToByteArray(m, &by, &bn) == RT_OK && by) { rtMessage w = nullptr; CHECK(rtMessage_FromBytes(&w, by, (int)bn) == RT_OK, "an accepted message does not parse again"); rtMessage_Release(w); rtMessage_FreeByteArray(by); }
      rtMessage cl = nullptr; if (rtMessage_Clone(m, &cl) == RT_OK && cl) rtMessage_Release(cl);
      rtMessage_Release(m); c.nontrivial = good > 0;
    } else c.label("refused");
  } LEAKCHECK(h0);
}

PROP(base64, 1, "base64 texts: encoded bytes, mutated or random over a base64-like alphabet, decoded and compared with an independent decoder; non-trivial: at least 4 characters") {
  static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  size_t h0 = heap_bytes(); {
    string s; size_t n = t.draw(20) == 19 ? 1340 + t.draw(60) : t.draw(60); for (size_t i = 0; i < n; i++) s += A[t.draw(64)]; if (t.draw(2)) s.resize(s.size() / 4 * 4); if (s.size() >= 4 && t.draw(2)) { s[s.size() - 1] = '='; if (t.draw(2)) s[s.size() - 2] = '='; } V in(s.begin(), s.end()), other = in; int muts = t.draw(2) ? mutate(t, in, other) : 0;
    string want; bool valid = in.size() % 4 == 0 && in.size() <= RBUS_BASE64_DATA_SIZE_LIMIT; size_t pad = 0; if (valid && in.size()) { if (in.back() == '=') pad = in[in.size() - 2] == '=' ? 2 : 1; uint32_t acc = 0; int bits = 0; for (size_t i = 0; i + pad < in.size(); i++) { const char* q = in[i] ? strchr(A, in[i]) : nullptr; if (!q) { valid = false; break; } acc = acc << 6 | (uint32_t)(q - A); bits += 6; if (bits >= 8) { bits -= 8; want += (char)(acc >> bits & 255); } } }
    c.note("%s", esc(string(in.begin(), in.end()), 200).c_str());
    Exact e(in); void* out = nullptr; unsigned on = 12345; rtError rc = rtBase64_decode(e.p, (unsigned)e.n, &out, &on);
    CHECK((rc == RT_OK) == valid, "base64 text is %s", valid ? "refused although valid" : "accepted although invalid");
    if (rc == RT_OK) { CHECK(on == want.size() && !memcmp(out, want.data(), on), "decoded to %u bytes %s instead of %zu", on, hex((uint8_t*)out, on).c_str(), want.size()); free(out); c.label("accepted"); } else c.label("refused");
    c.nontrivial = in.size() >= 4; (void)muts;
  } LEAKCHECK(h0);
}

// saved-subscription files
struct CS { string listener, event; int32_t cid, interval, duration, autop, sid, raw; FTp f; bool live; };
static string g_tmp;
static const char* tmpdir() { if (g_tmp.empty() || g_tmp.find("-" + std::to_string(getpid())) == string::npos) { g_tmp = "/tmp/c06-" + std::to_string(getpid()); mkdir(g_tmp.c_str(), 0700); mkdir("/tmp/.rbus", 0777); for (int i = 1; i < 3; i++) { FILE* f = fopen(("/tmp/.rbus/" + std::to_string(getpid()) + "_" + std::to_string(i)).c_str(), "w"); if (f) fclose(f); } } return g_tmp.c_str(); }
static void cleantmp() { if (g_tmp.empty()) return; unlink((g_tmp + "/rbus_subs_comp").c_str()); unlink((g_tmp + "/rbus_subs_comp.new").c_str()); rmdir(g_tmp.c_str()); for (int i = 1; i < 3; i++) unlink(("/tmp/.rbus/" + std::to_string(getpid()) + "_" + std::to_string(i)).c_str()); g_tmp.clear(); }
static V read_file(const string& p) { V r; FILE* f = fopen(p.c_str(), "rb"); if (!f) return r; uint8_t b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.insert(r.end(), b, b + n); fclose(f); return r; }
PROP(saved_subs, 1, "saved-subscription files with 0..5 entries (live and dead listeners, filters), mutated by 0..4 edits, truncated at any byte, or random; every entry before the damage with a live listener is found again, a second load of what was kept changes nothing; non-trivial: at least one entry and an edit") {
  string dir = tmpdir(), file = dir + "/rbus_subs_comp"; size_t h0 = heap_bytes(); string msg; {
    int n = (int)t.draw(6); vector<CS> cs; vector<size_t> ends; rbusBuffer_t b; rbusBuffer_Create(&b); V in;
    for (int i = 0; i < n; i++) { CS s; s.live = t.draw(4) != 3; int pid = s.live ? (int)getpid() : 4190000 + (int)t.draw(4); s.listener = "rbus.c" + std::to_string(t.draw(5)) + ".INBOX." + std::to_string(pid); s.event = "Device.E" + std::to_string(i) + (t.draw(3) == 2 ? ".*.X!" : "!"); if (t.draw(10) == 9) s.event += string(t.draw(RBUS_MAX_NAME_LENGTH - 1 - s.event.size() + 1), 'y'); s.cid = s.live && t.draw(5) != 4 ? 1 + (int)t.draw(2) : 3; s.interval = (int)t.draw(3); s.duration = (int)t.draw(3); s.autop = t.draw(2); s.sid = (int)t.draw(9); s.raw = t.draw(4) == 3; if (t.draw(2)) s.f = ft_gen(t, SCALARS[t.draw(N_SCALARS)], 2);
      if (s.f && ft_has_nan(*s.f)) s.f.reset();
      rbusBuffer_WriteStringTLV(b, s.listener.c_str(), (int)s.listener.size() + 1); rbusBuffer_WriteStringTLV(b, s.event.c_str(), (int)s.event.size() + 1); for (int32_t x : {s.cid, s.interval, s.duration, s.autop, s.sid, s.raw, (int32_t)(s.f ? 1 : 0)}) rbusBuffer_WriteInt32TLV(b, x); if (s.f) { rbusFilter_t f = ft_build(*s.f); rbusFilter_Encode(f, b); rbusFilter_Release(f); } ends.push_back(b->posWrite); cs.push_back(std::move(s)); }
    in = bytes_of(b); rbusBuffer_Destroy(b); V orig = in; int muts = 0; unsigned how = t.draw(8); if (how == 7) { in = random_bytes(t, 100); muts = 1; } else if (how >= 4) { if (in.size()) in.resize(t.draw(in.size() + 1)); muts = in != orig; c.label("truncated"); } else if (how) muts = mutate(t, in, orig);
    size_t same = 0; while (same < in.size() && same < orig.size() && in[same] == orig[same]) same++;
    c.note("%d entries, %zu bytes of %zu, unchanged up to %zu", n, in.size(), orig.size(), same);
    { FILE* f = fopen(file.c_str(), "wb"); if (!f) return; if (in.size()) fwrite(in.data(), 1, in.size(), f); fclose(f); }
    char none[] = "none"; (void)none; elementNode* root = getEmptyElementNode();
    for (int round = 0; round < 2; round++) { rbusSubscriptions_t subs = nullptr; rbusSubscriptions_create(&subs, nullptr, "comp", root, dir.c_str()); CHECK(subs, "no registry");
      bool intact = in == orig; int kept = 0;
      for (int i = 0; i < n; i++) { if (ends[i] > same) continue; auto& s = cs[i]; bool want = s.live && s.cid != 3; rbusFilter_t f = s.f ? ft_build(*s.f) : nullptr; rbusSubscription_t* q = rbusSubscriptions_getSubscription(subs, s.listener.c_str(), s.event.c_str(), s.cid, f, s.interval, s.duration, s.raw);
        if (msg.empty() && (round == 0 || intact)) { if (want && !q) msg = "entry " + std::to_string(i) + " in front of the damage is lost in load " + std::to_string(round); if (!want && q) msg = "entry " + std::to_string(i) + " of a dead listener is kept"; if (want && q && intact && (q->autoPublish != !!s.autop || q->subscriptionId != (uint32_t)s.sid)) msg = "entry " + std::to_string(i) + " changed"; }
        if (q) { kept++; g_sink += strlen(q->listener) + strlen(q->eventName); } if (f) rbusFilter_Release(f); }
      rbusSubscriptions_destroy(subs); if (kept) c.label("entries kept"); }
    freeElementNode(root); c.nontrivial = n && muts; if (access(file.c_str(), F_OK)) c.label("file removed");
  } cleantmp(); if (msg.size()) c.fail("%s", msg.c_str()); LEAKCHECK(h0);
}
