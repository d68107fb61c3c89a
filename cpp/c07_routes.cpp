// C07: the router's topic table resolves names to exactly the current owners
#include "pbt.h"
#include <set>
#include <algorithm>
#include <string.h>
extern "C" {
#include <rtRoutingTree.h>
#include <rtError.h>
#include <rtLog.h>
}
using namespace pbt; using std::string; using std::vector;
typedef vector<string> Toks;
static Toks split(const string& s) { Toks r; string cur; for (char ch : s) { if (ch == '.') { r.push_back(cur); cur.clear(); } else cur += ch; } if (!cur.empty()) r.push_back(cur); return r; }
static string joinT(const Toks& t) { string r; for (size_t i = 0; i < t.size(); i++) { if (i) r += "."; r += t[i]; } return r; }
// the model: topics as token lists with their owners in order of registration
struct Model {
  std::map<Toks, vector<int>> own;
  bool node(const Toks& p) const { auto it = own.lower_bound(p); return it != own.end() && it->first.size() >= p.size() && std::equal(p.begin(), p.end(), it->first.begin()); }
  std::set<string> kids(const Toks& p) const { std::set<string> r; for (auto it = own.lower_bound(p); it != own.end(); ++it) { if (it->first.size() < p.size() || !std::equal(p.begin(), p.end(), it->first.begin())) break; if (it->first.size() > p.size()) r.insert(it->first[p.size()]); } return r; }
  // resolves as many tokens as exist; rest = index of the first token without a topic
  Toks walk(const Toks& q, size_t& rest, bool& conflict) const {
    Toks at; conflict = false;
    for (rest = 0; rest < q.size(); rest++) {
      auto ks = kids(at); const string& n = q[rest]; string hit; bool ok = false, curly = false;
      for (auto& k : ks) { if (k == n) { hit = k; ok = true; } if (k[0] == '{') curly = true; }
      if (!ok && curly && (isdigit((unsigned char)n[0]) || n[0] == '[' || n[0] == '*')) for (auto& k : ks) if (k[0] == '{') { hit = k; ok = true; }
      if (!ok) { conflict = curly || (n[0] == '{' && !ks.empty()); return at; }
      at.push_back(hit);
    }
    return at;
  }
  bool lookup(const Toks& q, Toks& at) const { size_t r; bool cf; at = walk(q, r, cf); return r == q.size(); }
  std::set<int> below(const Toks& p) const { std::set<int> r; for (auto& kv : own) if (kv.first.size() > p.size() && std::equal(p.begin(), p.end(), kv.first.begin())) r.insert(kv.second.begin(), kv.second.end()); return r; }
};
static int ids[16];
static vector<int> routes_of(rtList l) { vector<int> r; if (!l) return r; rtListItem it = nullptr; rtList_GetFront(l, &it); while (it) { rtTreeRoute* x; rtListItem_GetData(it, (void**)&x); r.push_back((int)((int*)x->route - ids)); rtListItem_GetNext(it, &it); } return r; }
static string show(const vector<int>& v) { string r = "["; for (int i : v) r += (r.size() > 1 ? "," : "") + std::to_string(i); return r + "]"; }
static void check_lookup(rtRoutingTree rt, const Model& m, const string& q, Case& c) {
  rtList l = nullptr; rtRoutingTree_GetTopicRoutes(rt, q.c_str(), &l); vector<int> got = routes_of(l), want; bool ordered = true;
  Toks tk = split(q), at; bool fits = q.size() < 512 && tk.size() <= 32;
  if (fits && !tk.empty() && m.lookup(tk, at)) {
    if (q.back() == '.') { auto s = m.below(at); want.assign(s.begin(), s.end()); ordered = false; }
    else { auto it = m.own.find(at); if (it != m.own.end()) want = it->second; else { at.push_back("{i}"); it = m.own.find(at); if (it != m.own.end()) want = it->second; } }
  }
  if (!ordered) { std::sort(got.begin(), got.end()); }
  CHECK(got == want, "looking up \"%s\" gives owners %s instead of %s", esc(q).c_str(), show(got).c_str(), show(want).c_str());
}
static void check_partial(rtRoutingTree rt, const Model& m, const string& q, Case& c) {
  rtList l; rtList_Create(&l); rtRoutingTree_ResolvePartialPath(rt, q.c_str(), l);
  vector<string> names; rtListItem it = nullptr; rtList_GetFront(l, &it); while (it) { char* n; rtListItem_GetData(it, (void**)&n); names.push_back(n ? n : "(null)"); rtListItem_GetNext(it, &it); } rtList_Destroy(l, nullptr);
  Toks tk = split(q), at; std::set<int> want; if (q.size() < 512 && tk.size() <= 32 && !tk.empty() && m.lookup(tk, at)) want = m.below(at);
  CHECK(names.size() == want.size(), "resolving below \"%s\" gives %zu names for %zu owners", esc(q).c_str(), names.size(), want.size());
  // there must be a way to assign every owner one of the names it owns (bipartite matching)
  vector<int> owners(want.begin(), want.end()); vector<int> used(names.size(), -1);
  vector<vector<int>> adj(owners.size());
  for (size_t i = 0; i < owners.size(); i++) for (size_t j = 0; j < names.size(); j++) for (auto& o : m.own) if (joinT(o.first) == names[j] && std::count(o.second.begin(), o.second.end(), owners[i])) adj[i].push_back(j);
  std::function<bool(int, vector<char>&)> aug = [&](int i, vector<char>& seen) { for (int j : adj[i]) if (!seen[j]) { seen[j] = 1; if (used[j] < 0 || aug(used[j], seen)) { used[j] = i; return true; } } return false; };
  for (size_t i = 0; i < owners.size(); i++) { vector<char> seen(names.size(), 0); CHECK(aug(i, seen), "resolving below \"%s\" gives no name owned by owner %d", esc(q).c_str(), owners[i]); }
}
static void check_topics(rtRoutingTree rt, const Model& m, int o, Case& c) {
  rtList l = nullptr; rtRoutingTree_GetRouteTopics(rt, &ids[o], &l); std::multiset<string> got, want; rtListItem it = nullptr; if (l) rtList_GetFront(l, &it);
  while (it) { rtTreeTopic* x; rtListItem_GetData(it, (void**)&x); got.insert(x->fullName); rtListItem_GetNext(it, &it); }
  for (auto& kv : m.own) if (std::count(kv.second.begin(), kv.second.end(), o)) want.insert(joinT(kv.first));
  CHECK(got == want, "owner %d has %zu names listed instead of %zu", o, got.size(), want.size());
}
static const char* TOK[] = {"A", "B", "{i}", "1", "C", "*", "[a]", "Foo", "22", "{x}", "Fo", "", "_RTROUTED", "ADVISORY", "[1]"};
static string gen_topic(Tape& t, const Model& m, bool lookup) {
  string r; int mode = (int)t.draw(12);
  if (mode >= 4 && !m.own.empty()) { auto it = m.own.begin(); std::advance(it, t.draw(m.own.size())); Toks k = it->first; int e = (int)t.draw(7);
    if (e == 1 && k.size() > 1) k.resize(1 + t.draw(k.size())); if (e == 2) k.push_back(TOK[t.draw(12)]); if (e == 3) k[t.draw(k.size())] = TOK[t.draw(15)]; if (e == 4 || (lookup && e >= 3)) for (auto& x : k) if (x[0] == '{') x = t.draw(2) ? "1" : t.draw(2) ? "[a]" : "*"; r = joinT(k); }
  else if (mode == 0) { int big = (int)t.draw(4); if (big == 3) { int n = 30 + (int)t.draw(5); for (int i = 0; i < n; i++) r += (i ? "." : "") + string(TOK[t.draw(2)]); } else if (big == 2) { r = "A." + string(500 + t.draw(24), 'x'); } else r = TOK[t.draw(15)]; }
  else { int n = 1 + (int)t.draw(5); for (int i = 0; i < n; i++) r += (i ? "." : "") + string(TOK[t.draw(t.draw(3) ? 5 : 15)]); }
  if (t.draw(lookup ? 3 : 8) == 1) r += "."; if (t.draw(60) == 1) r += "."; if (t.draw(60) == 1) r = "." + r;
  if (t.draw(80) == 1) r = "_RTROUTED.ADVISORY";
  return r;
}
PROP(routes, 1, "history with at least 4 accepted registrations of 2 or more owners and a removal") {
  static bool quiet = (rtLog_SetLevel(RT_LOG_FATAL), true); (void)quiet;
  size_t h0 = heap_bytes();
  { Model m; rtRoutingTree rt; rtRoutingTree_Create(&rt); int n = 3 + (int)t.draw(24), adds = 0, rems = 0; std::set<int> who;
    struct Guard { rtRoutingTree rt; ~Guard() { rtRoutingTree_Destroy(rt); } } g{rt};
    for (int i = 0; i < n; i++) {
      int op = (int)t.draw(10); int o = (int)t.draw(5);
      if (op < 5) { string q = gen_topic(t, m, false); int single = t.draw(4) != 3; c.note("add%s(%s,%d) ", single ? "" : "*", q.size() > 60 ? (std::to_string(q.size()) + "ch").c_str() : q.c_str(), o);
        rtError want = RT_OK; Toks k = split(q), at; size_t rest = 0; bool cf = false;
        if (q.find("..") != string::npos || q.size() >= 512 || k.size() > 32) want = RT_ERROR_INVALID_EXPRESSION;
        else if (!k.empty()) { at = m.walk(k, rest, cf); if (cf) want = RT_ERROR_PROTOCOL_ERROR; else if (single && rest == k.size() && m.own.count(at) && q != "_RTROUTED.ADVISORY") want = RT_ERROR_DUPLICATE_ENTRY; }
        rtError e = rtRoutingTree_AddTopicRoute(rt, q.c_str(), &ids[o], single);
        CHECK(e == want, "registering \"%s\" for owner %d gives %d instead of %d", esc(q).c_str(), o, (int)e, (int)want);
        if (e == RT_OK && !k.empty()) { for (size_t j = rest; j < k.size(); j++) at.push_back(k[j]); auto& v = m.own[at]; if (!std::count(v.begin(), v.end(), o)) v.push_back(o); adds++; who.insert(o); }
        else c.label("refused");
      } else if (op < 7) { string q = gen_topic(t, m, false); if (!m.own.empty() && t.draw(2)) { auto it = m.own.begin(); std::advance(it, t.draw(m.own.size())); q = joinT(it->first); o = it->second[t.draw(it->second.size())]; } c.note("rem(%s,%d) ", q.size() > 60 ? "long" : q.c_str(), o);
        Toks k = split(q), at; if (q.size() < 512 && k.size() <= 32 && !k.empty() && m.lookup(k, at) && at.back() == k.back()) { auto it = m.own.find(at); if (it != m.own.end()) { auto& v = it->second; auto p = std::find(v.begin(), v.end(), o); if (p != v.end()) { v.erase(p); rems++; if (v.empty()) m.own.erase(it); } } }
        rtRoutingTree_RemoveTopicRoute(rt, q.c_str(), &ids[o]);
      } else if (op == 7) { c.note("gone(%d) ", o); for (auto it = m.own.begin(); it != m.own.end();) { auto& v = it->second; auto p = std::find(v.begin(), v.end(), o); if (p != v.end()) { v.erase(p); rems++; } if (v.empty()) it = m.own.erase(it); else ++it; } rtRoutingTree_RemoveRoute(rt, &ids[o]); }
      else if (op == 8) { string q = gen_topic(t, m, true); c.note("look(%s) ", q.size() > 60 ? "long" : q.c_str()); check_lookup(rt, m, q, c); }
      else { string q = gen_topic(t, m, true); c.note("part(%s) ", q.size() > 60 ? "long" : q.c_str()); check_partial(rt, m, q, c); }
      if (t.draw(4) == 1 || i == n - 1) {
        std::set<Toks> all; for (auto& kv : m.own) for (size_t j = 1; j <= kv.first.size() && j < 8; j++) all.insert(Toks(kv.first.begin(), kv.first.begin() + j));
        for (auto& k : all) { string q = joinT(k); check_lookup(rt, m, q, c); if (k.back() != "") { check_lookup(rt, m, q + ".", c); check_partial(rt, m, q + ".", c); } Toks inst = k; bool any = false; for (auto& x : inst) if (x == "{i}") { x = "7"; any = true; } if (any) check_lookup(rt, m, joinT(inst), c); }
        for (int x = 0; x < 5; x++) check_topics(rt, m, x, c);
        c.label("audit");
      }
    }
    c.nontrivial = adds >= 4 && who.size() >= 2 && rems >= 1;
    if (rems) c.label("removal");
  }
  LEAKCHECK(h0);
}
