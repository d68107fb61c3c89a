// C10: the provider's element tree and its subscription patterns against a model
#include "pbt.h"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <algorithm>
#include <string.h>
#include <unistd.h>
#include <stdlib.h>
#include <dirent.h>
extern "C" {
#include <rbus.h>
#include <rbus_element.h>
#include <rbus_tokenchain.h>
#include <rbus_subscriptions.h>
}
using namespace pbt; using std::string; using std::vector; typedef std::set<string> S;

static rbusError_t h_get(rbusHandle_t, rbusProperty_t, rbusGetHandlerOptions_t*) { return RBUS_ERROR_SUCCESS; }
static rbusError_t h_set(rbusHandle_t, rbusProperty_t, rbusSetHandlerOptions_t*) { return RBUS_ERROR_SUCCESS; }
static rbusError_t h_add(rbusHandle_t, char const*, char const*, uint32_t*) { return RBUS_ERROR_SUCCESS; }
static rbusError_t h_rem(rbusHandle_t, char const*) { return RBUS_ERROR_SUCCESS; }
static rbusError_t h_sub(rbusHandle_t, rbusEventSubAction_t, const char*, rbusFilter_t, int32_t, bool*) { return RBUS_ERROR_SUCCESS; }
static rbusError_t h_met(rbusHandle_t, char const*, rbusObject_t, rbusObject_t, rbusMethodAsyncHandle_t) { return RBUS_ERROR_SUCCESS; }

static vector<string> split(const string& s) { vector<string> r; size_t i = 0; while (i <= s.size()) { size_t j = s.find('.', i); if (j == string::npos) j = s.size(); if (j > i) r.push_back(s.substr(i, j - i)); i = j + 1; } return r; }
static string join(const vector<string>& v, size_t n) { string r; for (size_t i = 0; i < n; i++) r += (i ? "." : "") + v[i]; return r; }
struct RegEl { string name; int type; bool live = false; int hs = 0; };   // name without trailing "{i}."
struct Row { string table, full, alias; uint32_t num; };                   // instance paths
struct Sub { string pat; string regname; rbusSubscription_t* s; bool wild; string bound; int type; std::multiset<string> inst; };

struct Model {
  vector<RegEl> els; vector<Row> rows; vector<Sub> subs;
  bool is_table(const string& reg) const { for (auto& e : els) if (e.live && e.type == RBUS_ELEMENT_TYPE_TABLE && e.name == reg) return true; return false; }
  string reg_of(const string& inst) const { auto v = split(inst); string r; for (size_t i = 0; i < v.size(); i++) { string x = v[i]; if (is_table(r)) x = "{i}"; r += (i ? "." : "") + x; } return r; }
  // every existing object in the instance space: full name -> (type, alias), template below {i} excluded
  std::map<string, std::pair<int, string>> insts() const {
    std::map<string, std::pair<int, string>> r;
    for (auto& e : els) if (e.live) { auto v = split(e.name); vector<string> paths = {""}; string reg;
      for (size_t i = 0; i < v.size(); i++) { vector<string> next; for (auto& p : paths) { if (v[i] == "{i}") { for (auto& w : rows) if (w.table == p) { next.push_back(w.full); r[w.full] = {0, w.alias}; } } else { string q = p.empty() ? v[i] : p + "." + v[i]; next.push_back(q); if (!r.count(q)) r[q] = {0, ""}; } } paths = next; }
      for (auto& p : paths) r[p].first = e.type; }
    return r; }
  // the whole tree as registered and replicated, templates included
  std::map<string, std::pair<int, string>> all() const {
    std::map<string, std::pair<int, string>> r;
    for (auto& e : els) if (e.live) { auto v = split(e.name); vector<string> paths = {""}; bool tab = e.type == RBUS_ELEMENT_TYPE_TABLE; if (tab) v.push_back("{i}");
      vector<string> ends; for (size_t i = 0; i < v.size(); i++) { vector<string> next; for (auto& p : paths) { string q = p.empty() ? v[i] : p + "." + v[i]; next.push_back(q); if (!r.count(q)) r[q] = {0, ""}; if (v[i] == "{i}") for (auto& w : rows) if (w.table == p) { next.push_back(w.full); r[w.full] = {0, w.alias}; } } paths = next; if (i + 1 == split(e.name).size()) ends = next; }
      for (auto& p : ends) r[p].first = e.type; }
    return r; }
  bool matches(const string& pat, int type, const string& full, int ftype, const std::map<string, string>& alias) const {
    if (type != ftype) return false; auto a = split(pat), b = split(full); if (a.size() != b.size()) return false; string p, reg;
    for (size_t i = 0; i < a.size(); i++) { string path = p.empty() ? b[i] : p + "." + b[i]; bool row = is_table(reg); if (row) { if (a[i] == "*") ; else if (a[i][0] == '[') { auto it = alias.find(path); if (it == alias.end() || it->second.empty() || "[" + it->second + "]" != a[i]) return false; } else if (a[i] != b[i]) return false; } else if (a[i] != b[i]) return false; reg += (i ? "." : "") + (row ? string("{i}") : b[i]); p = path; }
    return true; }
};
static const char* TYPES[] = {"", "property", "table", "event", "method"};
static void fill(rbusDataElement_t& d, const RegEl& e) { memset(&d, 0, sizeof d); d.type = (rbusElementType_t)e.type; d.cbTable.getHandler = (e.hs & 1) && e.type == RBUS_ELEMENT_TYPE_PROPERTY ? h_get : nullptr; d.cbTable.setHandler = e.hs & 2 ? h_set : nullptr; d.cbTable.tableAddRowHandler = e.hs & 4 ? h_add : nullptr; d.cbTable.tableRemoveRowHandler = e.hs & 8 ? h_rem : nullptr; d.cbTable.eventSubHandler = e.hs & 16 ? h_sub : nullptr; d.cbTable.methodHandler = (e.hs & 32) && e.type == RBUS_ELEMENT_TYPE_METHOD ? (void*)h_met : nullptr; }
static string dump(elementNode* n) { string s; for (elementNode* c = n->child; c; c = c->nextSibling) { s += string(c->fullName ? c->fullName : "?") + " " + std::to_string(c->type) + " " + (c->alias ? c->alias : "") + "\n" + dump(c); } return s; }
static void walk(elementNode* n, std::map<string, std::pair<int, string>>& out, Case& c) { for (elementNode* k = n->child; k; k = k->nextSibling) { CHECK(k->fullName && k->name, "an element has no name"); string f = k->fullName; CHECK(k->parent == n, "%s has the wrong parent", f.c_str()); size_t p = f.rfind('.'); CHECK(f.substr(p == string::npos ? 0 : p + 1) == k->name, "element %s is called %s", f.c_str(), k->name); if (n->fullName) CHECK(f == string(n->fullName) + "." + k->name, "element %s hangs below %s", f.c_str(), n->fullName); CHECK(out.insert({f, {(int)k->type, k->alias ? k->alias : ""}}).second, "element %s exists twice", f.c_str()); walk(k, out, c); } }

static string g_dir; static const char* dir() { if (g_dir.empty()) { char b[] = "/tmp/vp-c10-XXXXXX"; g_dir = mkdtemp(b); atexit([] { DIR* d = opendir(g_dir.c_str()); if (d) { struct dirent* e; while ((e = readdir(d))) if (e->d_name[0] != '.') unlink((g_dir + "/" + e->d_name).c_str()); closedir(d); } rmdir(g_dir.c_str()); }); } return g_dir.c_str(); }

PROP(tree, 1, "histories of 3..40 operations (register properties, tables, events and methods in any order at depth 1-5 with tables nested to depth 3, remove elements, add rows with or without alias below any live row, delete rows, subscribe names by number, alias or wildcard, unsubscribe); after every step the whole tree, lookups of live and dead names, and the instances of every subscription are compared with the model; non-trivial: a nested row exists and a row was deleted, or a subscription with at least one instance saw a row come or go") {
  size_t h0 = heap_bytes();
  {
    Model m; static const char* SCHEMA[][2] = {{"Dev.P", "1"}, {"Dev.Obj.P", "1"}, {"Dev.Obj.E!", "3"}, {"Dev.Obj.M()", "4"}, {"Dev.T", "2"}, {"Dev.T.{i}.P", "1"}, {"Dev.T.{i}.E!", "3"}, {"Dev.T.{i}.O.Q", "1"}, {"Dev.T.{i}.U", "2"}, {"Dev.T.{i}.U.{i}.P", "1"}, {"Dev.T.{i}.U.{i}.O.E!", "3"}, {"Dev.T.{i}.U.{i}.V", "2"}, {"Dev.T.{i}.U.{i}.V.{i}.P", "1"}, {"Dev.T.{i}.W", "2"}, {"Dev.T.{i}.W.{i}.P", "1"}, {"Dev.T2", "2"}, {"Dev.T2.{i}.P", "1"}, {"Dev.T2.{i}.M()", "4"}, {"X.T", "2"}, {"X.T.{i}.P", "1"}, {"X", "0"}, {"Dev.Obj.T", "2"}, {"Dev.Obj.T.{i}.P", "1"}, {"Dev.Obj.TT.Q", "1"}};
    for (auto& s : SCHEMA) if (s[1][0] != '0') { RegEl e; e.name = s[0]; e.type = s[1][0] - '0'; m.els.push_back(e); }
    elementNode* root = getEmptyElementNode(); root->name = strdup("comp"); rbusSubscriptions_t subs; rbusSubscriptions_create(&subs, nullptr, "comp", root, dir());
    auto reg = [&](RegEl& e) { rbusDataElement_t d; e.hs = (int)t.draw(64); fill(d, e); string n = e.name; if (e.type == RBUS_ELEMENT_TYPE_TABLE) { static const char* SUF[] = {".{i}.", ".", ".{i}", ""}; n += SUF[t.draw(4)]; } d.name = (char*)n.c_str(); c.note("+%s ", n.c_str()); elementNode* x = insertElement(root, &d); CHECK(x && x->fullName && e.name == x->fullName, "registering %s yields %s", n.c_str(), x ? x->fullName : "nothing"); e.live = true; };
    // a whole schema at first or piece by piece; elements below {i} only once their table is known, as the registration of a table decides what {i} means
    auto parent_ok = [&](const RegEl& e) { auto v = split(e.name); string r; for (size_t i = 0; i < v.size(); i++) { if (v[i] == "{i}" && !m.is_table(r)) return false; r += (i ? "." : "") + v[i]; } return true; };
    if (t.draw(3) != 2) for (auto& e : m.els) if (t.draw(8) != 7 && parent_ok(e)) reg(e);
    int n = 3 + (int)t.draw(38); bool deleted = false, moved = false, nested = false; static const char* AL[] = {"a", "b", "al-1", "x y", "1", "i"};
    auto aliasmap = [&] { std::map<string, string> r; for (auto& w : m.rows) r[w.full] = w.alias; return r; };
    auto rename = [&](const string& inst) { auto v = split(inst); string p, q; for (size_t i = 0; i < v.size(); i++) { p += (i ? "." : "") + v[i]; string x = v[i]; for (auto& w : m.rows) if (w.full == p && !w.alias.empty() && t.draw(3) == 2) x = "[" + w.alias + "]"; q += (i ? "." : "") + x; } return q; };
    auto drop_rows = [&](const string& full) { m.rows.erase(std::remove_if(m.rows.begin(), m.rows.end(), [&](const Row& w) { return w.full == full || w.full.compare(0, full.size() + 1, full + ".") == 0; }), m.rows.end()); };
    for (int q = 0; q < n; q++) {
      int op = (int)t.draw(16); auto inst = m.insts();
      vector<string> tabs; for (auto& x : inst) if (x.second.first == RBUS_ELEMENT_TYPE_TABLE) tabs.push_back(x.first);
      if (op < 2) { vector<RegEl*> can; for (auto& e : m.els) if (!e.live && parent_ok(e)) can.push_back(&e); if (can.empty()) continue; if (!m.subs.empty()) { // names are only claimed once; a subscription keeps its own view of later ones
          } RegEl& e = *can[t.draw(can.size())]; if (!m.subs.empty()) { bool below = false; for (auto& w : m.rows) if (m.reg_of(e.name).find("{i}") != string::npos && e.name.compare(0, m.reg_of(w.full).size(), m.reg_of(w.full)) == 0) below = true; if (below) continue; } reg(e); }
      else if (op < 8) { if (tabs.empty()) continue; string tab = tabs[t.draw(tabs.size())]; S used; std::set<uint32_t> nums; for (auto& w : m.rows) if (w.table == tab) { used.insert(w.alias); nums.insert(w.num); } Row w; w.table = tab; w.num = t.draw(6) == 5 ? 1 + (uint32_t)gen_int(t, 31, false) : 1 + (uint32_t)t.draw(12); if (nums.count(w.num) || nums.size() > 5) continue; if (t.draw(2)) { w.alias = AL[t.draw(6)]; if (used.count(w.alias)) w.alias = ""; } w.full = tab + "." + std::to_string(w.num);
        c.note("row %s[%s] ", w.full.c_str(), w.alias.c_str()); string look = rename(tab) + (t.draw(2) ? "." : ""); elementNode* te = retrieveInstanceElement(root, look.c_str()); CHECK(te && tab == te->fullName, "table %s is not found", look.c_str()); elementNode* r = instantiateTableRow(te, w.num, w.alias.empty() ? nullptr : w.alias.c_str()); CHECK(r && w.full == r->fullName, "row %s is called %s", w.full.c_str(), r ? r->fullName : "nothing"); m.rows.push_back(w); rbusSubscriptions_onTableRowAdded(subs, r); if (std::count(w.full.begin(), w.full.end(), '.') >= 4) nested = true; }
      else if (op < 10) { if (m.rows.empty()) continue; Row w = m.rows[t.draw(m.rows.size())]; string look = rename(w.full); c.note("-row %s ", look.c_str()); elementNode* r = retrieveInstanceElement(root, look.c_str()); CHECK(r && w.full == r->fullName, "row %s is not found", look.c_str()); rbusSubscriptions_onTableRowRemoved(subs, r); deleteTableRow(r);
        vector<Sub> left; for (auto& s : m.subs) { bool hit = false; for (auto& x : s.inst) if (x.compare(0, w.full.size() + 1, w.full + ".") == 0 || x == w.full) hit = true; bool below = s.bound == w.full || s.bound.compare(0, w.full.size() + 1, w.full + ".") == 0; if (hit) moved = true; if (below || (hit && !s.wild)) continue; left.push_back(s); } m.subs = left; drop_rows(w.full); deleted = true; }
      else if (op < 11) { // removing an element: no subscriptions may use it, as nothing unregisters elements while they are subscribed
        if (!m.subs.empty() || t.draw(2)) continue; vector<RegEl*> can; for (auto& e : m.els) if (e.live) can.push_back(&e); if (can.empty()) continue; RegEl& e = *can[t.draw(can.size())]; c.note("-%s ", e.name.c_str()); elementNode* x = retrieveElement(root, e.name.c_str()); CHECK(x && e.name == x->fullName, "element %s is not found", e.name.c_str());
        if (e.type == RBUS_ELEMENT_TYPE_TABLE) { vector<string> gone; for (auto& w : m.rows) if (m.reg_of(w.table) == e.name) gone.push_back(w.full); for (auto& g : gone) drop_rows(g); for (auto& k : m.els) if (k.name.compare(0, e.name.size() + 1, e.name + ".") == 0) k.live = false; } e.live = false; removeElement(x); }
      else if (op < 14) { vector<std::pair<string, int>> cand; for (auto& x : inst) if (x.second.first) cand.push_back({x.first, x.second.first}); if (cand.empty() || m.subs.size() > 7) continue; auto pick = cand[t.draw(cand.size())]; string pat; bool wild = false; string bound; { auto v = split(pick.first); string p, reg2; int how = (int)t.draw(3); for (size_t i = 0; i < v.size(); i++) { bool row = m.is_table(reg2); string x = v[i], was = v[i]; p += (i ? "." : "") + v[i]; if (row) { if (how == 1 || (how == 2 && t.draw(2))) { x = "*"; wild = true; } else for (auto& w : m.rows) if (w.full == p && !w.alias.empty() && t.draw(2)) x = "[" + w.alias + "]"; was = wild ? "{i}" : v[i]; } pat += (i ? "." : "") + x; bound += (i ? "." : "") + was; reg2 += (i ? "." : "") + (row ? string("{i}") : v[i]); } }
        if (pick.second == RBUS_ELEMENT_TYPE_TABLE) pat += "."; bool dup = false; for (auto& s : m.subs) dup |= s.pat == pat; if (dup) continue;
        c.note("sub %s ", pat.c_str()); elementNode* el = retrieveInstanceElement(root, pat.c_str()); CHECK(el && bound == el->fullName, "looking up pattern %s yields %s", pat.c_str(), el ? el->fullName : "nothing"); rbusSubscription_t* s = rbusSubscriptions_addSubscription(subs, "rbus.l.1.INBOX.c", pat.c_str(), 7, nullptr, 0, 0, false, el, false); CHECK(s, "subscribing %s fails", pat.c_str()); Sub x; x.pat = pat; x.s = s; x.wild = wild; x.bound = bound; x.type = pick.second; m.subs.push_back(x); }
      else if (op < 15) { if (m.subs.empty()) continue; size_t i = t.draw(m.subs.size()); c.note("unsub %s ", m.subs[i].pat.c_str()); CHECK(rbusSubscriptions_getSubscription(subs, "rbus.l.1.INBOX.c", m.subs[i].pat.c_str(), 7, nullptr, 0, 0, false) == m.subs[i].s, "subscription %s is not found", m.subs[i].pat.c_str()); rbusSubscriptions_removeSubscription(subs, m.subs[i].s); m.subs.erase(m.subs.begin() + i); }
      else { // names that do not exist
        string base = inst.empty() ? "Nope" : std::next(inst.begin(), t.draw(inst.size()))->first; auto v = split(base); string bad; switch (t.draw(6)) { case 0: bad = base + ".Nope"; break; case 1: bad = base + "x"; break; case 2: v.back() = "[nope]"; bad = join(v, v.size()); break; case 3: bad = "Nope." + base; break; case 4: v.back() = v.back().substr(0, v.back().size() - 1); if (v.back().empty()) continue; bad = join(v, v.size()); break; default: v.back() = "777"; bad = join(v, v.size()); }
        auto again = m.all(); if (!again.count(bad) && !split(bad).empty()) { elementNode* x = retrieveInstanceElement(root, bad.c_str()); CHECK(!x, "unknown name %s yields %s", bad.c_str(), x ? x->fullName : ""); } }
      // ---- the tree as a whole
      auto want = m.all(); std::map<string, std::pair<int, string>> got; walk(root, got, c);
      for (auto& x : want) { auto g = got.find(x.first); CHECK(g != got.end(), "%s is missing in the tree", x.first.c_str()); CHECK(g->second == x.second, "%s has type %d alias \"%s\" instead of type %d alias \"%s\"", x.first.c_str(), g->second.first, g->second.second.c_str(), x.second.first, x.second.second.c_str()); }
      for (auto& x : got) { if (want.count(x.first)) continue; bool empty = x.second.first == 0; if (empty) for (auto& y : got) if (y.first.compare(0, x.first.size() + 1, x.first + ".") == 0 && y.second.first) empty = false; CHECK(empty, "%s is in the tree although it was removed or never added", x.first.c_str()); }
      // ---- lookups
      inst = m.insts(); for (auto& x : inst) { if (t.draw(3) == 2) continue; string nm = rename(x.first); elementNode* e = retrieveInstanceElement(root, nm.c_str()); CHECK(e && x.first == e->fullName, "looking up %s yields %s instead of %s", nm.c_str(), e ? e->fullName : "nothing", x.first.c_str());
        if (x.second.first) { string rg = m.reg_of(x.first); elementNode* r = retrieveElement(root, x.first.c_str()); CHECK(r && rg == r->fullName, "the registration of %s is %s instead of %s", x.first.c_str(), r ? r->fullName : "nothing", rg.c_str()); for (auto& el : m.els) if (el.name == rg) { rbusDataElement_t d; fill(d, el); auto same = [&](elementNode* k) { return k->cbTable.getHandler == d.cbTable.getHandler && k->cbTable.setHandler == d.cbTable.setHandler && k->cbTable.tableAddRowHandler == d.cbTable.tableAddRowHandler && k->cbTable.tableRemoveRowHandler == d.cbTable.tableRemoveRowHandler && k->cbTable.eventSubHandler == d.cbTable.eventSubHandler && (el.type == RBUS_ELEMENT_TYPE_TABLE || k->cbTable.methodHandler == d.cbTable.methodHandler); }; CHECK(same(e), "%s has other handlers than registered", x.first.c_str()); CHECK(same(r), "%s has other handlers than registered", rg.c_str()); } } }
      // ---- subscriptions
      auto al = aliasmap(); for (auto& s : m.subs) { std::multiset<string> w, g; for (auto& x : inst) if (m.matches(s.pat, s.type, x.first, x.second.first, al)) w.insert(x.first); if (w != s.inst && !s.inst.empty()) moved = true; s.inst = w; rtListItem it; rtList_GetFront(s.s->instances, &it); while (it) { elementNode* e; rtListItem_GetData(it, (void**)&e); g.insert(e->fullName); bool back = false; rtListItem k; if (e->subscriptions) { rtList_GetFront(e->subscriptions, &k); while (k) { void* d; rtListItem_GetData(k, &d); back |= d == s.s; rtListItem_GetNext(k, &k); } } CHECK(back, "%s does not know its subscription %s", e->fullName, s.pat.c_str()); rtListItem_GetNext(it, &it); }
        if (w != g) { string a, b; for (auto& x : w) a += x + " "; for (auto& x : g) b += x + " "; c.fail("subscription %s covers { %s} instead of { %s}", s.pat.c_str(), b.c_str(), a.c_str()); } }
      for (auto& x : inst) { elementNode* e = retrieveInstanceElement(root, x.first.c_str()); size_t k = 0, w = 0; if (e && e->subscriptions) rtList_GetSize(e->subscriptions, &k); for (auto& s : m.subs) w += s.inst.count(x.first); CHECK(k == w, "%s has %zu subscriptions instead of %zu", x.first.c_str(), k, w); }
    }
    rbusSubscriptions_destroy(subs); freeElementNode(root); c.nontrivial = (nested && deleted) || moved; if (moved) c.label("a subscription's instances changed"); if (nested) c.label("nested rows");
  }
  LEAKCHECK(h0);
}
