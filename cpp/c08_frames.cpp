#include <cfloat>
#include <cmath>
// C08: frame headers, JSON control messages and base64 text round-trip exactly
#include "pbt.h"
#include <string.h>
#include <math.h>
#include <set>
#include <memory>
extern "C" {
#include <rtMessageHeader.h>
#include <rtMessage.h>
#include <rtBase64.h>
#include <rtLog.h>
}
using namespace pbt; using std::string; using std::vector;
static bool quiet = (rtLog_SetLevel(RT_LOG_FATAL), true);
static string gen_topic(Tape& t) { size_t n = t.draw(4) == 3 ? 250 + t.draw(6) : gen_len(t, 255); string s; while (s.size() < n) { static const char A[] = "abcXYZ019._{}*[]-"; s += t.draw(16) == 15 ? (char)(1 + t.draw(255)) : A[t.draw(sizeof(A) - 1)]; } s.resize(n); return s; }

PROP(header, 2, "header with a non-empty topic and reply topic") {
  rtMessageHeader h; rtMessageHeader_Init(&h);
  string a = gen_topic(t), b = gen_topic(t);
  h.sequence_number = (uint32_t)gen_int(t, 32, false); h.flags = t.draw(2) ? (uint32_t)t.draw(64) : (uint32_t)gen_int(t, 32, false); h.control_data = (uint32_t)gen_int(t, 32, false);
  h.payload_length = t.draw(8) == 7 ? RTMSG_HEADER_MAX_PAYLOAD_LENGTH - (uint32_t)t.draw(3) : (uint32_t)gen_int(t, 29, false);
  memcpy(h.topic, a.c_str(), a.size() + 1); memcpy(h.reply_topic, b.c_str(), b.size() + 1);
#ifdef MSG_ROUNDTRIP_TIME
  h.T1 = (uint32_t)gen_int(t, 31, false); h.T2 = (uint32_t)gen_int(t, 32, false); h.T3 = (uint32_t)gen_int(t, 32, false); h.T4 = (uint32_t)t.draw(3); h.T5 = (uint32_t)gen_int(t, 32, false);
  size_t fixed = 52;
#else
  size_t fixed = 32;
#endif
  size_t len = fixed + a.size() + b.size(); c.note("seq=%u flags=%x ctl=%u payload=%u topic[%zu] reply[%zu]", h.sequence_number, h.flags, h.control_data, h.payload_length, a.size(), b.size());
  std::unique_ptr<uint8_t[]> buf(new uint8_t[len]);
  CHECK(rtMessageHeader_Encode(&h, buf.get()) == RT_OK, "encoding fails");
  CHECK(h.header_length == len, "encoding reports %u bytes instead of %zu", h.header_length, len);
  CHECK(buf[0] == 0xAA && buf[1] == 0xAA && buf[len - 2] == 0xAA && buf[len - 1] == 0xAA, "markers are not at both ends");
  CHECK((buf[4] << 8 | buf[5]) == (int)len, "the frame carries the length %d instead of %zu", buf[4] << 8 | buf[5], len);
  CHECK((buf[2] << 8 | buf[3]) == RTMSG_HEADER_VERSION, "the frame carries the version %d", buf[2] << 8 | buf[3]);
  rtMessageHeader d; rtMessageHeader_Init(&d); if (t.draw(2)) { memset(d.topic, 'z', sizeof d.topic); memset(d.reply_topic, 'z', sizeof d.reply_topic); d.flags = ~0u; }
  CHECK(rtMessageHeader_Decode(&d, buf.get()) == RT_OK, "decoding the encoded header fails");
  CHECK(d.version == RTMSG_HEADER_VERSION && d.header_length == len, "length or version differs after decoding");
  CHECK(d.sequence_number == h.sequence_number, "sequence number is %u instead of %u", d.sequence_number, h.sequence_number);
  CHECK(d.flags == h.flags, "flags are %x instead of %x", d.flags, h.flags);
  CHECK(d.control_data == h.control_data, "control data is %u instead of %u", d.control_data, h.control_data);
  CHECK(d.payload_length == h.payload_length, "payload length is %u instead of %u", d.payload_length, h.payload_length);
  CHECK(d.topic_length == a.size() && a == d.topic, "topic is \"%s\" instead of \"%s\"", esc(d.topic).c_str(), esc(a).c_str());
  CHECK(d.reply_topic_length == b.size() && b == d.reply_topic, "reply topic is \"%s\" instead of \"%s\"", esc(d.reply_topic).c_str(), esc(b).c_str());
#ifdef MSG_ROUNDTRIP_TIME
  CHECK(d.T1 == h.T1 && d.T2 == h.T2 && d.T3 == h.T3 && d.T4 == h.T4 && d.T5 == h.T5, "timestamps differ after decoding");
#endif
  CHECK(rtMessageHeader_IsRequest(&d) == ((h.flags & rtMessageFlags_Request) ? 1 : 0), "request flag misread");
  c.nontrivial = a.size() && b.size();
}

struct J { int k; string s; vector<string> arr; int32_t i; double d; bool b; vector<std::pair<string, J>> obj; vector<vector<std::pair<string, J>>> msgs; };
typedef vector<std::pair<string, J>> Obj;
static string low(string s) { for (auto& x : s) x = tolower((unsigned char)x); return s; }
static Obj gen_obj(Tape& t, int depth) {
  Obj o; std::set<string> used; used.insert("_topic"); int n = (int)t.draw(6);
  for (int q = 0; q < n; q++) { string name = t.draw(3) ? string(1, 'a' + t.draw(20)) : gen_string(t, 20); if (!used.insert(low(name)).second) continue;
    J j; j.k = (int)t.draw(depth > 0 ? 8 : 6);
    switch (j.k) { case 0: j.s = gen_string(t, 60); break; case 1: j.i = (int32_t)gen_int(t, 32, true); break; case 2: j.d = gen_double(t); if (!std::isfinite(j.d) || std::fabs(j.d) > 1.79e308) j.d = 1.5; break; case 3: j.b = t.draw(2); break;
      case 4: { int m = 1 + (int)t.draw(4); for (int i = 0; i < m; i++) j.arr.push_back(gen_string(t, 20)); break; }
      case 5: j.s = gen_bytes(t, t.draw(8) == 7 ? 1026 : 60); break;
      case 6: j.obj = gen_obj(t, depth - 1); break; default: { int m = 1 + (int)t.draw(3); for (int i = 0; i < m; i++) j.msgs.push_back(gen_obj(t, depth - 1)); } }
    o.push_back({name, j}); }
  return o; }
static rtMessage build(const Obj& o, Case& c) {
  rtMessage m; CHECK(rtMessage_Create(&m) == RT_OK, "create fails");
  for (auto& kv : o) { const char* n = kv.first.c_str(); const J& j = kv.second;
    switch (j.k) { case 0: rtMessage_SetString(m, n, j.s.c_str()); break; case 1: rtMessage_SetInt32(m, n, j.i); break; case 2: rtMessage_SetDouble(m, n, j.d); break; case 3: rtMessage_SetBool(m, n, j.b); break;
      case 4: for (auto& s : j.arr) CHECK(rtMessage_AddString(m, n, s.c_str()) == RT_OK, "adding a string fails"); break;
      case 5: CHECK(rtMessage_AddBinaryData(m, n, j.s.data(), j.s.size()) == RT_OK, "adding %zu bytes fails", j.s.size()); break;
      case 6: { rtMessage s = build(j.obj, c); CHECK(rtMessage_SetMessage(m, n, s) == RT_OK, "setting a message fails"); rtMessage_Release(s); break; }
      default: for (auto& x : j.msgs) { rtMessage s = build(x, c); CHECK(rtMessage_AddMessage(m, n, s) == RT_OK, "adding a message fails"); rtMessage_Release(s); } } }
  return m; }
static void check(rtMessage m, const Obj& o, const char* when, Case& c) {
  for (auto& kv : o) { const char* n = kv.first.c_str(); const J& j = kv.second; string nm = esc(kv.first);
    switch (j.k) {
      case 0: { const char* s = nullptr; CHECK(rtMessage_GetString(m, n, &s) == RT_OK && s && j.s == s, "%s: string \"%s\" is \"%s\" instead of \"%s\"", when, nm.c_str(), s ? esc(s).c_str() : "(none)", esc(j.s).c_str());
        vector<char> f(j.s.size() + 1, 'q'); CHECK(rtMessage_GetStringValue(m, n, f.data(), (int)f.size()) == RT_OK && j.s == f.data(), "%s: string value \"%s\" not copied", when, nm.c_str()); f.resize(j.s.size()); f.shrink_to_fit(); CHECK(rtMessage_GetStringValue(m, n, f.data(), (int)f.size()) != RT_OK, "%s: string \"%s\" reported as fitting in %zu bytes", when, nm.c_str(), f.size()); break; }
      case 1: { int32_t v = 0; CHECK(rtMessage_GetInt32(m, n, &v) == RT_OK && v == j.i, "%s: number \"%s\" is %d instead of %d", when, nm.c_str(), v, j.i); break; }
      case 2: { double v = 0; CHECK(rtMessage_GetDouble(m, n, &v) == RT_OK && (v == j.d || (strncmp(when, "as built", 8) && strncmp(when, "after cloning", 8) && std::fabs(v - j.d) <= 4 * DBL_EPSILON * std::fabs(j.d))), "%s: number \"%s\" is %.17g instead of %.17g", when, nm.c_str(), v, j.d); break; }
      case 3: { bool v = !j.b; CHECK(rtMessage_GetBool(m, n, &v) == RT_OK && v == j.b, "%s: flag \"%s\" is %d", when, nm.c_str(), v); break; }
      case 4: { int32_t l = -1; CHECK(rtMessage_GetArrayLength(m, n, &l) == RT_OK && l == (int)j.arr.size(), "%s: array \"%s\" has %d items instead of %zu", when, nm.c_str(), l, j.arr.size()); const char* s = nullptr;
        for (int i = 0; i < l; i++) { s = nullptr; CHECK(rtMessage_GetStringItem(m, n, i, &s) == RT_OK && s && j.arr[i] == s, "%s: item %d of \"%s\" is \"%s\" instead of \"%s\"", when, i, nm.c_str(), s ? esc(s).c_str() : "(none)", esc(j.arr[i]).c_str()); }
        CHECK(rtMessage_GetStringItem(m, n, l, &s) != RT_OK && rtMessage_GetStringItem(m, n, -1, &s) != RT_OK, "%s: item outside the array is returned", when); break; }
      case 5: { void* p = nullptr; uint32_t l = 0; rtError e = rtMessage_GetBinaryData(m, n, &p, &l); string got = e == RT_OK ? string((char*)p, l) : ""; if (e == RT_OK) free(p); CHECK(e == RT_OK && got == j.s, "%s: %zu bytes \"%s\" come back as %u bytes (%d)", when, j.s.size(), nm.c_str(), l, (int)e); break; }
      case 6: { rtMessage s = nullptr; CHECK(rtMessage_GetMessage(m, n, &s) == RT_OK && s, "%s: message \"%s\" missing", when, nm.c_str()); check(s, j.obj, when, c); rtMessage_Release(s); break; }
      default: { int32_t l = -1; rtMessage_GetArrayLength(m, n, &l); CHECK(l == (int)j.msgs.size(), "%s: array \"%s\" has %d messages instead of %zu", when, nm.c_str(), l, j.msgs.size());
        for (int i = 0; i < l; i++) { rtMessage s = nullptr; CHECK(rtMessage_GetMessageItem(m, n, i, &s) == RT_OK && s, "%s: message %d of \"%s\" missing", when, i, nm.c_str()); check(s, j.msgs[i], when, c); rtMessage_Release(s); }
        rtMessage s = nullptr; CHECK(rtMessage_GetMessageItem(m, n, l, &s) != RT_OK && rtMessage_GetMessageItem(m, n, -1, &s) != RT_OK, "%s: message outside the array is returned", when); } } }
  const char* s; int32_t v; double d; bool b; rtMessage x;
  CHECK(rtMessage_GetString(m, "~absent", &s) != RT_OK && rtMessage_GetInt32(m, "~absent", &v) != RT_OK && rtMessage_GetDouble(m, "~absent", &d) != RT_OK && rtMessage_GetBool(m, "~absent", &b) != RT_OK && rtMessage_GetMessage(m, "~absent", &x) != RT_OK, "%s: an absent field is returned", when);
}
static size_t count(const Obj& o) { size_t n = 0; for (auto& kv : o) { n += 1 + kv.second.arr.size() + count(kv.second.obj); for (auto& x : kv.second.msgs) n += count(x); } return n; }
PROP(control, 2, "message with at least 4 fields") {
  size_t h0 = heap_bytes();
  { Obj o = gen_obj(t, 3); for (auto& kv : o) { c.note("%s:%d ", esc(kv.first, 10).c_str(), kv.second.k); } c.nontrivial = count(o) >= 4;
    rtMessage m = build(o, c); check(m, o, "as built", c);
    string topic = gen_topic(t), t2; bool top = t.draw(2); char tb[300];
    if (top) { if (t.draw(3) == 1) rtMessage_SetSendTopic(m, "Earlier.Topic"); rtMessage_SetSendTopic(m, topic.c_str()); CHECK(rtMessage_GetSendTopic(m, tb) == RT_OK && topic == tb, "send topic is \"%s\" instead of \"%s\"", esc(tb).c_str(), esc(topic).c_str()); } else CHECK(rtMessage_GetSendTopic(m, tb) != RT_OK, "send topic without being set");
    uint8_t* by = nullptr; uint32_t n = 0; int how = (int)t.draw(3);
    if (how == 0) CHECK(rtMessage_ToByteArray(m, &by, &n) == RT_OK && by, "serialising fails"); else if (how == 1) CHECK(rtMessage_ToByteArrayWithSize(m, &by, 1 + (uint32_t)t.draw(600), &n) == RT_OK && by, "serialising fails"); else { char* s = nullptr; CHECK(rtMessage_ToString(m, &s, &n) == RT_OK && s, "serialising fails"); by = (uint8_t*)s; }
    CHECK(n == strlen((char*)by), "serialised length is %u instead of %zu", n, strlen((char*)by));
    std::unique_ptr<uint8_t[]> ex(new uint8_t[n]); memcpy(ex.get(), by, n); rtMessage_FreeByteArray(by);
    rtMessage r = nullptr; CHECK(rtMessage_FromBytes(&r, ex.get(), (int)n) == RT_OK && r, "parsing the serialised message fails");
    check(r, o, "after serialisation", c); if (top) CHECK(rtMessage_GetSendTopic(r, tb) == RT_OK && topic == tb, "send topic differs after serialisation"); rtMessage_Release(r);
    rtMessage k = nullptr; CHECK(rtMessage_Clone(m, &k) == RT_OK && k, "clone fails"); if (t.draw(2)) { rtMessage_SetInt32(k, "~new", 5); int32_t v; CHECK(rtMessage_GetInt32(m, "~new", &v) != RT_OK, "changing the clone changes the original"); rtMessage_SetSendTopic(k, "X.Y"); if (top) CHECK(rtMessage_GetSendTopic(m, tb) == RT_OK && topic == tb, "changing the clone's topic changes the original's"); }
    rtMessage_Retain(m); rtMessage_Release(m); check(m, o, "after cloning", c); rtMessage_Release(m); check(k, o, "in the clone", c); rtMessage_Release(k);
  }
  LEAKCHECK(h0);
}

static string ref_encode(const string& s) { static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; string r; uint32_t acc = 0; int bits = 0; for (unsigned char ch : s) { acc = acc << 8 | ch; bits += 8; while (bits >= 6) { bits -= 6; r += A[acc >> bits & 63]; } } if (bits) r += A[acc << (6 - bits) & 63]; while (r.size() % 4) r += '='; return r; }
static bool ref_decode(const string& s, string& out) { static const string A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; if (s.size() % 4) return false; size_t n = s.size(); if (n && s[n - 1] == '=') { n--; if (s[n - 1] == '=') n--; } uint32_t acc = 0; int bits = 0; out.clear(); for (size_t i = 0; i < n; i++) { size_t v = A.find(s[i]); if (s[i] == 0 || v == string::npos) return false; acc = acc << 6 | v; bits += 6; if (bits >= 8) { bits -= 8; out += (char)(acc >> bits & 255); } } return true; }
PROP(base64, 1, "payload of at least 4 bytes, or a text with a bad character or length") {
  size_t h0 = heap_bytes();
  { size_t want = t.draw(10) == 9 ? 1000 + t.draw(40) : gen_len(t, 1030); string s; while (s.size() < want) s += (char)t.draw(256);
    std::unique_ptr<uint8_t[]> in(new uint8_t[s.size()]); memcpy(in.get(), s.data(), s.size()); unsigned char* o = nullptr; unsigned n = 0;
    rtError e = rtBase64_encode(in.get(), s.size(), &o, &n); c.note("%zu bytes %s", s.size(), hex((uint8_t*)s.data(), std::min<size_t>(s.size(), 24)).c_str());
    if (s.size() > RBUS_BINARY_DATA_SIZE_LIMIT) { CHECK(e != RT_OK, "%zu bytes are accepted", s.size()); c.label("over the limit"); }
    else { string ref = ref_encode(s); CHECK(e == RT_OK && o, "encoding %zu bytes fails", s.size()); string got((char*)o); free(o); CHECK(got == ref, "%zu bytes (%s) encode to \"%s\" instead of \"%s\"", s.size(), hex((uint8_t*)s.data(), s.size()).c_str(), esc(got).c_str(), esc(ref).c_str());
      CHECK(n >= got.size() + 1 && n <= got.size() + 4, "the size reported for %zu characters is %u", got.size(), n);
      string txt = ref; int bad = (int)t.draw(4);
      if (bad == 1 && !txt.empty()) { static const char X[] = "=-_ \n.@A\xff"; txt[t.draw(txt.size())] = X[t.draw(9)]; } else if (bad == 2) txt.resize(t.draw(txt.size() + 1)); else if (bad == 3) { txt.clear(); int m = (int)t.draw(16); for (int i = 0; i < m; i++) txt += "AZaz09+/=="[t.draw(10)]; }
      std::unique_ptr<uint8_t[]> ti(new uint8_t[txt.size()]); memcpy(ti.get(), txt.data(), txt.size()); void* p = nullptr; unsigned l = 0; rtError de = rtBase64_decode(ti.get(), txt.size(), &p, &l); string want2; bool ok = ref_decode(txt, want2);
      string got2 = de == RT_OK ? string((char*)p, l) : ""; if (de == RT_OK) free(p);
      CHECK((de == RT_OK) == ok, "text \"%s\" is %s", esc(txt).c_str(), ok ? "refused" : "accepted"); if (ok) CHECK(got2 == want2, "text \"%s\" decodes to %zu bytes %s instead of %zu bytes", esc(txt).c_str(), got2.size(), hex((uint8_t*)got2.data(), got2.size()).c_str(), want2.size());
      if (!bad) CHECK(got2 == s, "%zu bytes do not come back", s.size()); if (!ok) c.label("refused text");
      c.nontrivial = s.size() >= 4 || !ok; } }
  LEAKCHECK(h0);
}
