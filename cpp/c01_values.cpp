// C01: values keep type and content through store / copy / encode / compare
#include "rbmodel.h"
#include <vector>
#include <algorithm>
using namespace pbt;

PROP(value_history, 3, "history of 1..24 store/replace/copy/swap/share/encode/TLV/retain operations over 1..5 value handles of all 16 scalar types; non-trivial: at least two handles shared or copied content and one was later overwritten") {
  size_t h0 = heap_bytes();
  {
    struct Obj { rbusValue_t v; MV m; int refs; };      // model objects: identity + reference count
    std::vector<Obj> objs; std::vector<int> slot; int n = 1 + (int)t.draw(5);
    auto fresh = [&](const MV& m, bool viaInit) { Obj o; if (viaInit) o.v = init_value(m); else { rbusValue_Init(&o.v); set_value(o.v, m); } o.m = m; o.refs = 1; objs.push_back(o); return (int)objs.size() - 1; };
    for (int i = 0; i < n; i++) { MV m = gen_value(t); c.note("s%d=%s; ", i, mv_show(m).c_str()); slot.push_back(fresh(m, t.draw(2))); }
    auto drop = [&](int o) { objs[o].refs--; rbusValue_Release(objs[o].v); if (!objs[o].refs) objs[o].v = nullptr; };
    auto check_all = [&](const char* op) { for (size_t i = 0; i < slot.size(); i++) { Obj& o = objs[slot[i]]; std::string e = check_value(o.v, o.m); if (e.size()) c.fail("after %s: slot %zu: %s", op, i, e.c_str()); } };
    check_all("init");
    int ops = 1 + (int)t.draw(24); bool shared = false, over = false;
    for (int k = 0; k < ops; k++) {
      int a = (int)t.draw(n), b = (int)t.draw(n); const char* nm = "";
      switch (t.draw(9)) {
        case 0: case 1: { nm = "set"; MV m = t.draw(3) == 2 ? gen_value(t, 70000) : gen_value(t); if (t.draw(40) == 39) { m = MV(); m.type = t.draw(2) ? RBUS_STRING : RBUS_BYTES; m.s = std::string(65520 + t.draw(24), (char)(97 + t.draw(26))); } c.note("set s%d %s; ", a, mv_show(m).c_str()); set_value(objs[slot[a]].v, m); objs[slot[a]].m = m; if (shared) over = true; break; }
        case 2: { nm = "copy"; c.note("copy s%d<-s%d; ", a, b); rbusValue_Copy(objs[slot[a]].v, objs[slot[b]].v); if (slot[a] != slot[b]) { MV m = objs[slot[b]].m; objs[slot[a]].m = m; shared = true; } break; }
        case 3: { nm = "swap"; c.note("swap s%d,s%d; ", a, b); rbusValue_t x = objs[slot[a]].v, y = objs[slot[b]].v; rbusValue_t x0 = x, y0 = y; rbusValue_Swap(&x, &y); CHECK(x == y0 && y == x0, "swap did not exchange the handles"); std::swap(slot[a], slot[b]); break; }
        case 4: { nm = "setpointer"; c.note("ptr s%d<-s%d; ", a, b); if (slot[a] == slot[b]) break; rbusValue_t x = objs[slot[a]].v; int old = slot[a]; objs[old].refs--; rbusValue_SetPointer(&x, objs[slot[b]].v); if (!objs[old].refs) objs[old].v = nullptr; CHECK(x == objs[slot[b]].v, "SetPointer result"); objs[slot[b]].refs++; slot[a] = slot[b]; shared = true; break; }
        case 5: { nm = "encode"; MV m = objs[slot[b]].m; if (m.s.size() > (m.type == RBUS_STRING ? 65534u : 65535u)) break; /* beyond: the listed finding */ c.note("enc s%d<-s%d; ", a, b); rbusBuffer_t buf; rbusBuffer_Create(&buf);
          int pre = (int)t.draw(3); std::vector<MV> extra; for (int i = 0; i < pre; i++) { MV e = gen_value(t, 90); extra.push_back(e); rbusValue_t ev = init_value(e); rbusValue_Encode(ev, buf); rbusValue_Release(ev); }
          rbusValue_Encode(objs[slot[b]].v, buf);
          for (int i = 0; i <= pre; i++) { rbusValue_t d = nullptr; int rc = rbusValue_Decode(&d, buf); const MV& want = i < pre ? extra[i] : m; if (rc < 0) c.fail("decode of encoded %s failed", mv_show(want).c_str());
            MV got = want; if (want.type == RBUS_BYTES && want.null) { int l; got.null = rbusValue_GetBytes(d, &l) == nullptr; } // NULL bytes travel as zero bytes
            std::string e = check_value(d, got); if (e.size()) c.fail("encode/decode: %s", e.c_str());
            if (i == pre) m = got;
            if (i < pre) rbusValue_Release(d); else { drop(slot[a]); Obj o; o.v = d; o.m = m; o.refs = 1; objs.push_back(o); slot[a] = (int)objs.size() - 1; } }
          CHECK(buf->posRead == buf->posWrite, "decoding consumed %d of %d bytes", buf->posRead, buf->posWrite);
          rbusBuffer_Destroy(buf); break; }
        case 6: { nm = "tlv"; MV m = objs[slot[b]].m; c.note("tlv s%d<-s%d; ", a, b); rbusValue_t d; rbusValue_Init(&d); uint32_t len = rbusValue_GetL(objs[slot[b]].v); const uint8_t* p = rbusValue_GetV(objs[slot[b]].v);
          if (m.null) { CHECK(len == 0, "length of a NULL value is %u", len); rbusValue_Release(d); break; }
          uint8_t* cp = (uint8_t*)malloc(len ? len : 1); memcpy(cp, p, len); rbusValue_SetTLV(d, m.type, len, cp); free(cp); drop(slot[a]); Obj o; o.v = d; o.m = m; o.refs = 1; objs.push_back(o); slot[a] = (int)objs.size() - 1; break; }
        case 7: { nm = "retain"; c.note("ret s%d; ", a); int o = slot[a]; int x = 1 + (int)t.draw(3); for (int i = 0; i < x; i++) rbusValue_Retain(objs[o].v); if (t.draw(2)) { for (int i = 0; i < x; i++) rbusValue_Release(objs[o].v); } else { objs[o].refs += x; for (int i = 0; i < x; i++) drop(o); } break; }
        default: { nm = "wrongtype"; std::string e = check_wrong(objs[slot[a]].v, objs[slot[a]].m); if (e.size()) c.fail("%s", e.c_str()); break; }
      }
      check_all(nm);
      for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { const MV &x = objs[slot[i]].m, &y = objs[slot[j]].m; int w = slot[i] == slot[j] ? 0 : mv_cmp(x, y); if (w == 2) continue; int g = rbusValue_Compare(objs[slot[i]].v, objs[slot[j]].v); if (w == 3 ? g == 0 : sgn(g) != w) c.fail("compare(%s, %s) = %d, expected sign %d", mv_show(x).c_str(), mv_show(y).c_str(), g, w); }
    }
    for (int s : slot) drop(s);
    c.nontrivial = shared && over;
  }
  LEAKCHECK(h0);
}

// a value close to m
static MV neighbour(Tape& t, const MV& m) {
  MV r = m;
  if (is_int(m.type)) { int64_t d = t.range(-2, 2); uint64_t x = m.u + (uint64_t)d; int b = int_bits(m.type); uint64_t mask = b == 64 ? ~0ull : (1ull << b) - 1; x &= mask; if (is_signed(m.type) && b < 64 && (x >> (b - 1))) x |= ~mask; r.u = x; r.i = (int64_t)x; return r; }
  switch (m.type) {
    case RBUS_SINGLE: { float f = (float)m.f; int k = (int)t.draw(3); r.f = k == 0 ? f : k == 1 ? nextafterf(f, INFINITY) : nextafterf(f, -INFINITY); break; }
    case RBUS_DOUBLE: { int k = (int)t.draw(3); r.f = k == 0 ? m.f : k == 1 ? nextafter(m.f, INFINITY) : nextafter(m.f, -INFINITY); break; }
    case RBUS_DATETIME: { if (!m.dt.m_time.tm_year && !m.dt.m_time.tm_mday) break; switch (t.draw(7)) { case 0: break; case 1: r.dt.m_time.tm_sec = (m.dt.m_time.tm_sec + 1) % 60; break; case 2: r.dt.m_time.tm_min = (m.dt.m_time.tm_min + 1) % 60; break; case 3: r.dt.m_time.tm_hour = (m.dt.m_time.tm_hour + 1) % 24; break;
        case 4: r.dt.m_tz.m_tzhour = (int)t.draw(14); r.dt.m_tz.m_isWest = t.draw(2); break; case 5: r.dt.m_tz.m_tzmin = (int)t.draw(60); break; default: r.dt.m_time.tm_mday = 1 + m.dt.m_time.tm_mday % 28; } break; }
    case RBUS_STRING: case RBUS_BYTES: if (m.null) { if (t.draw(2)) { r.null = false; } break; }
      switch (t.draw(5)) { case 0: break; case 1: r.s += (char)(1 + t.draw(255)); break; case 2: if (r.s.size()) r.s.pop_back(); break; case 3: if (r.s.size()) r.s[t.draw(r.s.size())] = (char)(1 + t.draw(255)); break; default: r.s.resize(t.draw(r.s.size() + 1)); } break;
    default: break; }
  return r; }

PROP(value_compare, 2, "pairs and triples of same-type (or mixed numeric type) values, half of them near-equal neighbours; non-trivial: the contents differ but only slightly, or are equal but distinct objects") {
  size_t h0 = heap_bytes();
  {
    rbusValueType_t ty = SCALARS[t.draw(N_SCALARS)]; MV a = gen_value_of(t, ty, 300); MV b; bool near = t.draw(3) < 2;
    if (near) b = neighbour(t, a); else if (ty <= RBUS_DOUBLE && t.draw(2)) { b = gen_value_of(t, SCALARS[t.draw(13)]); if (t.draw(2) && is_int(b.type)) { uint64_t mask = int_bits(b.type) == 64 ? ~0ull : (1ull << int_bits(b.type)) - 1; uint64_t x = a.u & mask; if (is_signed(b.type) && (x >> (int_bits(b.type) - 1))) x |= ~mask; b.u = x; b.i = (int64_t)x; } } else b = gen_value_of(t, ty, 300);
    c.note("%s vs %s", mv_show(a).c_str(), mv_show(b).c_str());
    rbusValue_t va = init_value(a), vb = init_value(b);
    int w = mv_cmp_any(a, b), g1 = rbusValue_Compare(va, vb), g2 = rbusValue_Compare(vb, va);
    if (w == 3) CHECK(g1 && g2, "NULL and non-NULL compare equal"); else if (w != 2) CHECK(sgn(g1) == w && sgn(g2) == -w, "compare(%s, %s) = %d, reverse %d, expected sign %d", mv_show(a).c_str(), mv_show(b).c_str(), g1, g2, w);
    rbusValue_t cp; rbusValue_Init(&cp); set_value(cp, gen_value(t, 80)); rbusValue_Copy(cp, va); CHECK(rbusValue_Compare(cp, va) == 0, "copy of %s does not compare equal", mv_show(a).c_str());
    std::string e = check_value(cp, a); if (e.size()) c.fail("copy: %s", e.c_str()); e = check_value(va, a); if (e.size()) c.fail("source after copy: %s", e.c_str());
    rbusValue_Releases(3, va, vb, cp); c.nontrivial = near; c.label(w == 0 ? "equal" : w == 3 ? "null" : "different"); c.label(tname(ty));
  }
  LEAKCHECK(h0);
}

PROP(kf_encode_long, 0, "demonstrator: a value of more than 65535 encoded bytes does not survive encode/decode") {
  std::string s(70000, 'x'); rbusValue_t v = rbusValue_InitString(s.c_str()), w = nullptr; rbusBuffer_t b; rbusBuffer_Create(&b); rbusValue_Encode(v, b); int rc = rbusValue_Decode(&w, b); bool same = rc >= 0 && w && rbusValue_Compare(v, w) == 0; if (rc >= 0 && w) rbusValue_Release(w); rbusValue_Release(v); rbusBuffer_Destroy(b); CHECK(same, "a string of 70000 characters is cut by encode/decode");
}
