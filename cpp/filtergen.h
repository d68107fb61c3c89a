// Random filters with a three-valued reference evaluation (2 = not specified)
#pragma once
#include "rbmodel.h"
#include <memory>
struct FT { bool rel = true; int op = 0; MV v; std::unique_ptr<FT> l, r; };
typedef std::unique_ptr<FT> FTp;
static inline FTp ft_copy(const FT& f) { FTp n(new FT); n->rel = f.rel; n->op = f.op; n->v = f.v; if (f.l) n->l = ft_copy(*f.l); if (f.r) n->r = ft_copy(*f.r); return n; }
static inline int ft_count(const FT& f) { return 1 + (f.l ? ft_count(*f.l) : 0) + (f.r ? ft_count(*f.r) : 0); }
static inline int ft_depth(const FT& f) { int a = f.l ? ft_depth(*f.l) : 0, b = f.r ? ft_depth(*f.r) : 0; return 1 + std::max(a, b); }
// values near one another so that equality and both orders are common
static inline MV ft_value(pbt::Tape& t, rbusValueType_t ty) {
  MV m; m.type = ty;
  if (t.draw(4) == 3) return gen_value_of(t, ty, 60, false);
  if (is_int(ty)) { int64_t x = (int64_t)t.draw(4) - (is_signed(ty) ? 2 : 0); if (ty == RBUS_BOOLEAN) x = t.draw(2); m.i = x; m.u = (uint64_t)x; return m; }
  if (ty == RBUS_SINGLE || ty == RBUS_DOUBLE) { m.f = ((int)t.draw(5) - 2) * 0.5; return m; }
  if (ty == RBUS_STRING || ty == RBUS_BYTES) { size_t n = t.draw(3); for (size_t i = 0; i < n; i++) m.s += (char)("ab\xe9"[t.draw(3)]); return m; }
  return gen_value_of(t, ty, 60, false); }
static inline FTp ft_gen(pbt::Tape& t, rbusValueType_t ty, int depth) {
  FTp f(new FT);
  if (depth <= 0 || t.draw(5) == 0) { f->op = (int)t.draw(6); f->v = ft_value(t, t.draw(6) == 5 ? SCALARS[t.draw(N_SCALARS)] : ty); return f; }
  f->rel = false; f->op = (int)t.draw(3); f->l = ft_gen(t, ty, depth - 1); if (f->op != RBUS_FILTER_OPERATOR_NOT) f->r = ft_gen(t, ty, depth - 1); return f; }
static inline rbusFilter_t ft_build(const FT& f) { rbusFilter_t x; if (f.rel) { rbusValue_t v = init_value(f.v); rbusFilter_InitRelation(&x, (rbusFilter_RelationOperator_t)f.op, v); rbusValue_Release(v); }
  else { rbusFilter_t a = ft_build(*f.l), b = f.r ? ft_build(*f.r) : nullptr; rbusFilter_InitLogic(&x, (rbusFilter_LogicOperator_t)f.op, a, b); rbusFilter_Release(a); if (b) rbusFilter_Release(b); } return x; }
static inline std::string ft_show(const FT& f) { static const char* R[] = {">", ">=", "<", "<=", "==", "!="}; if (f.rel) return std::string("x") + R[f.op] + mv_show(f.v, 6); if (f.op == RBUS_FILTER_OPERATOR_NOT) return "!(" + ft_show(*f.l) + ")"; return "(" + ft_show(*f.l) + (f.op == RBUS_FILTER_OPERATOR_AND ? " && " : " || ") + ft_show(*f.r) + ")"; }
// 0/1/2
static inline int ft_eval(const FT& f, const MV& x) {
  if (!f.rel) { int a = ft_eval(*f.l, x); if (f.op == RBUS_FILTER_OPERATOR_NOT) return a == 2 ? 2 : !a; int b = ft_eval(*f.r, x); if (f.op == RBUS_FILTER_OPERATOR_AND) return a == 0 || b == 0 ? 0 : a == 1 && b == 1 ? 1 : 2; return a == 1 || b == 1 ? 1 : a == 0 && b == 0 ? 0 : 2; }
  int c = mv_cmp_any(x, f.v); // numbers compare by value across types; other type mixes are not specified
  if (c == 2) return 2;
  if (c == 3) return f.op == RBUS_FILTER_OPERATOR_EQUAL ? 0 : f.op == RBUS_FILTER_OPERATOR_NOT_EQUAL ? 1 : 2;
  switch (f.op) { case RBUS_FILTER_OPERATOR_GREATER_THAN: return c > 0; case RBUS_FILTER_OPERATOR_GREATER_THAN_OR_EQUAL: return c >= 0; case RBUS_FILTER_OPERATOR_LESS_THAN: return c < 0; case RBUS_FILTER_OPERATOR_LESS_THAN_OR_EQUAL: return c <= 0; case RBUS_FILTER_OPERATOR_EQUAL: return c == 0; default: return c != 0; } }
static inline bool ft_has_nan(const FT& f) { if (f.rel) return (f.v.type == RBUS_SINGLE || f.v.type == RBUS_DOUBLE) && std::isnan(f.v.f); return ft_has_nan(*f.l) || (f.r && ft_has_nan(*f.r)); }
// structure seen through the public getters
static inline std::string ft_check(rbusFilter_t x, const FT& f) {
  if (!x) return "filter is NULL"; if ((rbusFilter_GetType(x) == RBUS_FILTER_EXPRESSION_RELATION) != f.rel) return "kind of filter differs";
  if (f.rel) { if (rbusFilter_GetRelationOperator(x) != (rbusFilter_RelationOperator_t)f.op) return "relation operator differs"; return check_value(rbusFilter_GetRelationValue(x), f.v); }
  if (rbusFilter_GetLogicOperator(x) != (rbusFilter_LogicOperator_t)f.op) return "logic operator differs"; std::string e = ft_check(rbusFilter_GetLogicLeft(x), *f.l); if (e.size()) return e; if (f.r) return ft_check(rbusFilter_GetLogicRight(x), *f.r); return rbusFilter_GetLogicRight(x) ? "NOT has a right side" : ""; }
// one difference somewhere
static inline bool ft_mutate(pbt::Tape& t, FT& f, int& at) {
  if (at-- == 0) { if (f.rel) { if (t.draw(2)) { f.op = (f.op + 1 + (int)t.draw(5)) % 6; return true; } for (int i = 0; i < 4; i++) { MV q = ft_value(t, f.v.type); int c = mv_cmp(f.v, q); if (c == 1 || c == -1 || c == 3) { f.v = q; return true; } } f.op = (f.op + 1) % 6; return true; }
    if (f.op == RBUS_FILTER_OPERATOR_NOT) { FTp n = std::move(f.l); f = std::move(*n); return true; } f.op = f.op == RBUS_FILTER_OPERATOR_AND ? RBUS_FILTER_OPERATOR_OR : RBUS_FILTER_OPERATOR_AND; return true; }
  if (f.l && ft_mutate(t, *f.l, at)) return true; return f.r && ft_mutate(t, *f.r, at); }
