// C04: filters
#include "filtergen.h"
extern "C" {
#include <rbuscore_message.h>
void rbusFilter_Encode(rbusFilter_t filter, rbusBuffer_t buff);
int rbusFilter_Decode(rbusFilter_t* filter, rbusBuffer_t const buff);
void rbusFilter_AppendToMessage(rbusFilter_t filter, rbusMessage msg) __attribute__((weak));
void rbusFilter_InitFromMessage(rbusFilter_t* filter, rbusMessage msg) __attribute__((weak));
}
using namespace pbt;

PROP(apply, 4, "random expression trees (depth 0..5, all relation operators, AND/OR/NOT, operands of all scalar types) tested on values near the operands against three-valued Boolean evaluation; encoded/decoded and message copies must decide alike and compare equal; non-trivial: at least two relations and the decision is specified") {
  size_t h0 = heap_bytes();
  {
    rbusValueType_t ty = SCALARS[t.draw(N_SCALARS)]; FTp f = ft_gen(t, ty, (int)t.draw(6)); c.note("%s", ft_show(*f).c_str());
    rbusFilter_t x = ft_build(*f); std::string e = ft_check(x, *f); if (e.size()) c.fail("built filter: %s", e.c_str());
    rbusFilter_t y = nullptr, z = nullptr; int n = ft_count(*f);
    rbusBuffer_t b; rbusBuffer_Create(&b); bool lead = t.flip(1, 3); if (lead) rbusBuffer_WriteInt32TLV(b, 77); rbusFilter_Encode(x, b); rbusBuffer_WriteInt32TLV(b, 4242);
    if (lead) b->posRead = 8;
    int rc = rbusFilter_Decode(&y, b); CHECK(rc == 0 && y, "decoding the encoded filter fails (%d)", rc);
    uint16_t ty2 = 0, ln = 0; int32_t mark = 0; CHECK(rbusBuffer_ReadUInt16(b, &ty2) == 0 && rbusBuffer_ReadUInt16(b, &ln) == 0 && ty2 == RBUS_INT32 && ln == 4 && rbusBuffer_ReadInt32(b, &mark) == 0 && mark == 4242, "decoding the filter did not stop where encoding did");
    rbusBuffer_Destroy(b);
    e = ft_check(y, *f); if (e.size()) c.fail("decoded filter: %s", e.c_str());
    if (rbusFilter_AppendToMessage && rbusFilter_InitFromMessage) { rbusMessage m, m2; rbusMessage_Init(&m); rbusFilter_AppendToMessage(x, m); rbusMessage_SetInt32(m, 4243); uint8_t* by; uint32_t bn; rbusMessage_ToBytes(m, &by, &bn); rbusMessage_FromBytes(&m2, by, bn); rbusMessage_Release(m); rbusFilter_InitFromMessage(&z, m2); int32_t k = 0; rbusMessage_GetInt32(m2, &k); rbusMessage_Release(m2); CHECK(k == 4243, "reading the filter from a message did not stop at its end"); e = ft_check(z, *f); if (e.size()) c.fail("filter read from a message: %s", e.c_str()); }
    rbusFilter_t all[3] = {x, y, z}; bool nan = ft_has_nan(*f);
    if (!nan) { CHECK(rbusFilter_Compare(x, y) == 0 && rbusFilter_Compare(y, x) == 0, "decoded filter does not compare equal"); if (z) CHECK(rbusFilter_Compare(x, z) == 0, "filter read from a message does not compare equal"); }
    int k = 1 + (int)t.draw(4); int spec = 0;
    for (int i = 0; i < k; i++) { MV v = ft_value(t, ty); int w = ft_eval(*f, v); if (w == 2) continue; spec++; rbusValue_t r = init_value(v); for (auto q : all) if (q) { bool g = rbusFilter_Apply(q, r); CHECK(g == (w == 1), "%s filter %s on %s decides %d, expected %d", q == x ? "built" : q == y ? "decoded" : "received", ft_show(*f).c_str(), mv_show(v).c_str(), g, w); } rbusValue_Release(r); c.label(w ? "accepts" : "rejects"); }
    // a filter differing in one place compares unequal
    FTp d = ft_copy(*f); int at = (int)t.draw(n); if (t.draw(2) && !nan && ft_mutate(t, *d, at) && !ft_has_nan(*d)) { rbusFilter_t q = ft_build(*d); int g1 = rbusFilter_Compare(x, q), g2 = rbusFilter_Compare(q, x); CHECK(g1 && g2, "filters %s and %s compare equal", ft_show(*f).c_str(), ft_show(*d).c_str()); rbusFilter_Release(q); c.label("compared with a variant"); }
    // shared ownership: a part outlives the whole
    if (!f->rel) { rbusFilter_t part = rbusFilter_GetLogicLeft(x); rbusFilter_Retain(part); rbusFilter_Release(x); std::string s = ft_check(part, *f->l); if (s.size()) c.fail("part that outlived its whole: %s", s.c_str()); rbusFilter_Release(part); } else rbusFilter_Release(x);
    rbusFilter_Release(y); if (z) rbusFilter_Release(z);
    c.nontrivial = n >= 3 && spec > 0;
  }
  LEAKCHECK(h0);
}
