// C09: containers and the thread pool of the messaging library against abstract models
#include "pbt.h"
#include <list>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <algorithm>
#include <atomic>
#include <mutex>
#include <condition_variable>
#include <chrono>
#include <thread>
#include <string.h>
#include <unistd.h>
extern "C" {
#include <rtList.h>
#include <rtVector.h>
#include <rtHashMap.h>
#include <rtThreadPool.h>
}
using namespace pbt; using std::string; using std::vector;

// counted items: the clean-up must see each of them once
struct Obj { int id; int key; };
static vector<int>* g_given;                      // how often each id was given to the clean-up
static void obj_free(void* p) { Obj* o = (Obj*)p; if (!o) return; (*g_given)[o->id]++; delete o; }
static Obj* obj_new(int key) { Obj* o = new Obj{(int)g_given->size(), key}; g_given->push_back(0); return o; }
static int obj_cmp(const void* a, const void* key) { return ((const Obj*)a)->key - *(const int*)key; }

struct Ent { rtListItem item; Obj* o; };
static void list_equal(rtList l, const vector<Ent>& m, Case& c) {
  size_t n = 99999; CHECK(rtList_GetSize(l, &n) == RT_OK && n == m.size(), "size is %zu instead of %zu", n, m.size());
  rtListItem it; void* d; rtList_GetFront(l, &it);
  for (size_t i = 0; i < m.size(); i++) { CHECK(it == m[i].item, "item %zu from the front is not the one expected", i); rtListItem_GetData(it, &d); CHECK(d == m[i].o, "item %zu holds other data", i); rtListItem_GetNext(it, &it); }
  CHECK(!it, "more items than %zu from the front", m.size()); rtList_GetBack(l, &it);
  for (size_t i = m.size(); i-- > 0;) { CHECK(it == m[i].item, "item %zu from the back is not the one expected", i); rtListItem_GetPrev(it, &it); }
  CHECK(!it, "more items than %zu from the back", m.size()); }

PROP(list, 3, "histories of 1..60 operations on up to two lists (push at both ends, insert before/after, remove by item/data/comparison, remove all, find, replace data, recycled items) where the list owns its items, borrows them, or recycles them; checked in both directions after every step; non-trivial: an item removed from a list of 3 or more and at least 8 operations") {
  size_t h0 = heap_bytes();
  {
    vector<int> given; g_given = &given; vector<Obj*> mine; // mine: borrowed objects freed by the test
    int mode = (int)t.draw(3); rtList_Cleanup d = mode == 0 ? obj_free : nullptr; c.note("%s: ", mode == 0 ? "owning" : mode == 1 ? "borrowing" : "recycling");
    rtList l; CHECK(rtList_Create(&l) == RT_OK && l, "create fails"); vector<Ent> m; vector<int> want; int n = 1 + (int)t.draw(60); bool mid = false;
    std::map<rtListItem, Obj*> spare; // recycled items by handle
    auto give = [&](Obj* o) { if (want.size() < given.size()) want.resize(given.size()); want[o->id]++; };
    auto drop = [&](size_t i) { if (m.size() >= 3) mid = true; if (mode == 0) give(m[i].o); if (mode == 2) spare[m[i].item] = m[i].o; m.erase(m.begin() + i); };
    for (int q = 0; q < n; q++) {
      int op = (int)t.draw(12); size_t at = m.empty() ? 0 : t.draw(m.size());
      if (op < 6) {
        bool re = mode == 2; Obj* o = nullptr; void* data = re ? rtListReuseData : nullptr; if (!re) { o = obj_new((int)t.draw(8)); if (mode == 1) mine.push_back(o); data = o; }
        rtListItem it = nullptr; rtListItem* pit = &it; rtError e; size_t pos;
        if (op <= 1 || (op >= 4 && m.empty())) { pos = m.size(); e = rtList_PushBack(l, data, pit); c.note("push "); } else if (op <= 3) { pos = 0; e = rtList_PushFront(l, data, pit); c.note("front "); }
        else if (op == 4) { pos = at; e = rtList_InsertBefore(l, data, m[at].item, pit); c.note("before%zu ", at); } else { pos = at + 1; e = rtList_InsertAfter(l, data, m[at].item, pit); c.note("after%zu ", at); }
        CHECK(e == RT_OK && it, "adding an item fails");
        if (re) { void* got; rtListItem_GetData(it, &got); auto s = spare.find(it); if (s != spare.end()) { CHECK(got == s->second, "a recycled item lost its data"); o = s->second; spare.erase(s); } else { CHECK(!got, "a new item has data"); o = obj_new((int)t.draw(8)); CHECK(rtListItem_SetData(it, o) == RT_OK, "setting data fails"); } }
        m.insert(m.begin() + pos, Ent{it, o});
      } else if (op == 6) { if (m.empty()) { CHECK(rtList_RemoveItem(l, nullptr, d) != RT_OK, "removing no item succeeds"); continue; } c.note("remove%zu ", at); rtListItem it = m[at].item; drop(at); CHECK(rtList_RemoveItem(l, it, d) == RT_OK, "removing an item fails"); }
      else if (op == 7) { Obj* o = m.empty() ? nullptr : m[at].o; if (!o) { int x; CHECK(rtList_RemoveItemWithData(l, &x, d) != RT_OK, "removing data that is not there succeeds"); continue; } size_t i = 0; while (m[i].o != o) i++; c.note("removedata%zu ", i); drop(i); CHECK(rtList_RemoveItemWithData(l, o, d) == RT_OK, "removing by data fails"); }
      else if (op == 8) { int key = (int)t.draw(9); size_t i = 0; while (i < m.size() && m[i].o->key != key) i++; bool has = i < m.size(); c.note("removecmp%d ", key); Obj* first = has ? m[i].o : nullptr; CHECK(rtList_Find(l, &key, obj_cmp) == first, "find returns another item than the first match"); CHECK(rtList_HasItem(l, &key, obj_cmp) == has, "has-item answers %d", !has); if (has) drop(i); CHECK((rtList_RemoveItemByCompare(l, &key, obj_cmp, d) == RT_OK) == has, "removing by comparison returns the wrong result"); }
      else if (op == 9) { if (t.draw(4) != 3) continue; c.note("clear "); while (!m.empty()) drop(m.size() - 1); CHECK(rtList_RemoveAllItems(l, d) == RT_OK, "removing all fails"); }
      else if (op == 10) { if (m.empty() || mode == 2) continue; Obj* o = obj_new((int)t.draw(8)); if (mode == 1) mine.push_back(o); if (mode == 0) { give(m[at].o); obj_free(m[at].o); } CHECK(rtListItem_SetData(m[at].item, o) == RT_OK, "setting data fails"); m[at].o = o; c.note("set%zu ", at); }
      else { rtListItem it = (rtListItem)&q; void* x = &q; CHECK(rtListItem_GetNext(nullptr, &it) != RT_OK && !it, "next of nothing"); CHECK(rtListItem_GetData(nullptr, &x) != RT_OK && !x, "data of nothing"); CHECK(rtList_GetFront(nullptr, &it) != RT_OK && !it, "front of nothing"); CHECK(rtList_PushBack(nullptr, x, &it) != RT_OK && !it, "push to nothing"); }
      list_equal(l, m, c); want.resize(given.size()); CHECK(given == want, "the clean-up was called a wrong number of times");
    }
    if (mode == 0) for (auto& e : m) give(e.o); if (mode == 2) { for (auto& e : m) give(e.o); for (auto& s : spare) give(s.second); }
    CHECK(rtList_Destroy(l, mode == 1 ? nullptr : obj_free) == RT_OK, "destroy fails"); want.resize(given.size()); CHECK(given == want, "after destroying the clean-up was called a wrong number of times"); for (auto o : mine) delete o;
    c.nontrivial = mid && n >= 8;
  }
  LEAKCHECK(h0);
}

PROP(vector, 2, "histories of 1..80 operations on a vector (push, remove by item or comparison, index, find), owning or borrowing, up to several growth steps; non-trivial: over 16 items at some time, or a removal from the middle") {
  size_t h0 = heap_bytes();
  {
    vector<int> given, want; g_given = &given; vector<Obj*> mine; bool own = t.draw(2); rtVector_Cleanup d = own ? obj_free : nullptr; rtVector v; CHECK(rtVector_Create(&v) == RT_OK, "create fails"); vector<Obj*> m; int n = 1 + (int)t.draw(80); bool nt = false; int grow = (int)t.draw(3);
    c.note("%s: ", own ? "owning" : "borrowing");
    for (int q = 0; q < n; q++) {
      int op = (int)t.draw(grow == 2 ? 12 : 8);
      if (op < 4 || op >= 8) { Obj* o; if (!own && !m.empty() && t.draw(4) == 3) o = m[t.draw(m.size())]; else { o = obj_new((int)t.draw(8)); if (!own) mine.push_back(o); } m.push_back(o); CHECK(rtVector_PushBack(v, o) == RT_OK, "push fails"); c.note("push%d ", o->key); }
      else if (op == 4) { if (m.empty()) { CHECK(rtVector_RemoveItem(v, &q, d) != RT_OK, "removing an absent item succeeds"); continue; } Obj* o = m[t.draw(m.size())]; size_t i = std::find(m.begin(), m.end(), o) - m.begin(); if (i + 1 < m.size()) nt = true; if (own) { want.resize(given.size()); want[o->id]++; } m.erase(m.begin() + i); CHECK(rtVector_RemoveItem(v, o, d) == RT_OK, "removing fails"); c.note("remove@%zu ", i); }
      else if (op == 5) { int key = (int)t.draw(9); size_t i = 0; while (i < m.size() && m[i]->key != key) i++; bool has = i < m.size(); CHECK(rtVector_HasItem(v, &key, obj_cmp) == has && rtVector_Find(v, &key, obj_cmp) == (has ? m[i] : nullptr), "find disagrees"); if (has) { if (own) { want.resize(given.size()); want[m[i]->id]++; } m.erase(m.begin() + i); } CHECK((rtVector_RemoveItemByCompare(v, &key, obj_cmp, d) == RT_OK) == has, "removing by comparison returns the wrong result"); c.note("removecmp%d ", key); }
      else if (op == 6) { void* x = m.empty() ? (void*)&q : m[t.draw(m.size())]; CHECK(rtVector_Find(v, x, nullptr) == (m.empty() ? nullptr : x), "find by pointer disagrees"); }
      else CHECK(!rtVector_At(v, m.size()) && !rtVector_At(v, m.size() + t.draw(0)), "an index past the end yields an item");
      CHECK(rtVector_Size(v) == m.size(), "size is %zu instead of %zu", rtVector_Size(v), m.size()); for (size_t i = 0; i < m.size(); i++) CHECK(rtVector_At(v, i) == m[i], "item %zu is wrong", i);
      want.resize(given.size()); CHECK(given == want, "the clean-up was called a wrong number of times"); if (m.size() > 16) nt = true;
    }
    if (own) for (auto o : m) want[o->id]++; CHECK(rtVector_Destroy(v, d) == RT_OK, "destroy fails"); CHECK(given == want, "after destroying the clean-up was called a wrong number of times"); for (auto o : mine) delete o; c.nontrivial = nt;
  }
  LEAKCHECK(h0);
}

static long g_live; static std::set<const void*>* g_copies;
static const void* cp_str(const void* p) { const char* q = strdup((const char*)p); g_copies->insert(q); return q; }
static bool g_double; static void fr_str(void* p) { if (!p) return; if (!g_copies->erase(p)) g_double = true; free(p); }
static const void* cp_val(const void* p) { return p ? cp_str(p) : nullptr; }
static uint32_t bad_hash(rtHashMap, const void* k) { return (uint32_t)strlen((const char*)k) % 3; }
PROP(hashmap, 3, "histories of 1..200 set/get/contains/remove operations over up to 150 keys (colliding, empty and long ones) on maps with default string keys, with copying and destroying functions for keys and values, or with a poor hash function, incl. a value or key that belongs to the map itself; non-trivial: at least 13 entries (first growth) or a removal that found its key") {
  size_t h0 = heap_bytes();
  {
    std::set<const void*> copies; g_copies = &copies; g_double = false; int mode = (int)t.draw(3); rtHashMap h; vector<string> vals; vals.reserve(400); // borrowed values
    if (mode == 0) rtHashMap_Create(&h); else rtHashMap_CreateEx(&h, mode == 2 ? 3.0f : 0, mode == 2 ? bad_hash : nullptr, nullptr, cp_str, fr_str, cp_val, fr_str);
    std::map<string, string> m; std::map<string, const void*> ptr; std::set<string> nulls; bool nt = false; int n = 1 + (int)t.draw(200), nk = 1 + (int)t.draw(150); c.note("mode %d %d ops %d keys ", mode, n, nk);
    auto key = [&](size_t i) { string s; if (i == 0) return s; if (i % 5 == 4) { s = (i % 2) ? "AaBB" : "BBAa"; s += std::to_string(i / 10); return s; } if (i % 7 == 6) return string(i * 3, 'k') + std::to_string(i); if (i % 11 == 3) return string("\xff\xfe") + std::to_string(i); return "key" + std::to_string(i); };
    for (int q = 0; q < n; q++) {
      string k = key(t.draw(nk)); int op = (int)t.draw(8);
      if (op < 4) { string v = "v" + std::to_string(q); const void* p; bool self = t.draw(8) == 7 && ptr.count(k); if (self) { v = m[k]; p = rtHashMap_Get(h, k.c_str()); if (nulls.count(k)) p = nullptr; } else { vals.push_back(v); p = vals.back().c_str(); } bool null = !self && t.draw(20) == 19; if (self && nulls.count(k)) null = true; if (null) p = nullptr;
        rtHashMap_Set(h, k.c_str(), p); m[k] = v; ptr[k] = p; if (null) nulls.insert(k); else nulls.erase(k); }
      else if (op < 6) { bool has = m.count(k); CHECK(rtHashMap_Remove(h, k.c_str()) == (has ? 1 : 0), "remove(%s) says %d", esc(k).c_str(), !has); if (has) nt = true; m.erase(k); ptr.erase(k); nulls.erase(k); }
      else { bool has = m.count(k); CHECK(rtHashMap_Contains(h, k.c_str()) == (has ? 1 : 0), "contains(%s) says %d", esc(k).c_str(), !has); const char* g = (const char*)rtHashMap_Get(h, k.c_str()); bool none = !has || nulls.count(k); CHECK(none ? !g : g && m[k] == g, "get(%s) is %s instead of %s", esc(k).c_str(), g ? g : "nothing", none ? "nothing" : m[k].c_str()); if (g && mode == 0) CHECK(g == ptr[k], "the value is not the one stored"); }
      CHECK(rtHashMap_GetSize(h) == m.size(), "size is %zu instead of %zu", rtHashMap_GetSize(h), m.size()); if (m.size() >= 13) nt = true;
      if (mode) CHECK(copies.size() == 2 * m.size() - nulls.size() && !g_double, "%zu copies are held for %zu entries%s", copies.size(), m.size(), g_double ? "; one was released twice" : "");
    }
    for (size_t i = 0; i < (size_t)nk; i++) { string k = key(i); bool has = m.count(k); CHECK(rtHashMap_Contains(h, k.c_str()) == (has ? 1 : 0), "at the end contains(%s) says %d", esc(k).c_str(), !has); const char* g = (const char*)rtHashMap_Get(h, k.c_str()); bool none = !has || nulls.count(k); CHECK(none ? !g : g && m[k] == g, "at the end get(%s) is wrong", esc(k).c_str()); }
    rtHashMap_Destroy(h); if (mode) CHECK(copies.empty() && !g_double, "%zu copies are not released%s", copies.size(), g_double ? " and one was released twice" : ""); c.nontrivial = nt;
  }
  LEAKCHECK(h0);
}

// ---- thread pool: real threads; every decision of a task is drawn before the pool starts
struct Job { int us = 0; int spawn = -1; bool block = false; struct Pool* p; int id; std::atomic<int> ran{0}; bool accepted = false; };
struct Pool { rtThreadPool tp; std::mutex mx; std::condition_variable cv; int running = 0, most = 0, started = 0, blocked = 0; bool go = false; vector<Job*> jobs; std::atomic<int> refused{0}, done{0}, pending{0}; };
static void job(void* u) { Job* j = (Job*)u; Pool* p = j->p; j->ran++;
  { std::unique_lock<std::mutex> l(p->mx); p->running++; p->started++; if (p->running > p->most) p->most = p->running; if (j->block) { p->blocked++; p->cv.notify_all(); p->cv.wait(l, [&] { return p->go; }); } }
  if (j->us) usleep(j->us);
  if (j->spawn >= 0) { Job* k = p->jobs[j->spawn]; rtError e = rtThreadPool_RunTask(p->tp, job, k); if (e == RT_ERROR_THREADPOOL_TASK_PENDING) p->pending++; if (e == RT_OK || e == RT_ERROR_THREADPOOL_TASK_PENDING) k->accepted = true; else p->refused++; }
  { std::lock_guard<std::mutex> l(p->mx); p->running--; p->cv.notify_all(); } p->done++; }
template<class F> static bool wait_for(F f, int sec) { auto end = std::chrono::steady_clock::now() + std::chrono::seconds(sec); while (!f()) { if (std::chrono::steady_clock::now() > end) return false; usleep(300); } return true; }
PROP(threadpool, 1, "pools of 1..6 threads given 1..60 tasks from one or two threads (instant, sleeping up to 3 ms, submitting a further task, or blocking until all of up to the limit are running), with pauses, an expiry time of 1 s sometimes waited for, then destroyed waiting for all, for a while, or not at all; non-trivial: more tasks than threads, or simultaneous blocking tasks") {
  {
    Pool p; size_t max = 1 + t.draw(6); int n = 1 + (int)t.draw(60); int nblock = t.draw(3) == 2 ? 1 + (int)t.draw(max) : 0; int two = (int)t.draw(2); bool expire = t.draw(40) == 39;
    rtThreadPool_Create(&p.tp, max, t.draw(3) == 2 ? 1 << 20 : 0, 1); int kinds = (int)t.draw(4); vector<Job*> sub; vector<int> gap;
    for (int i = 0; i < n; i++) { Job* j = new Job; j->p = &p; j->us = kinds & 1 ? (int)t.draw(3) * (int)t.draw(1500) : 0; p.jobs.push_back(j); sub.push_back(j); gap.push_back(t.draw(6) == 5 ? (int)t.draw(2000) : 0); if ((kinds & 2) && t.draw(4) == 3) { Job* k = new Job; k->p = &p; j->spawn = (int)p.jobs.size(); p.jobs.push_back(k); } }
    int how = (int)t.draw(4), ms = how == 1 ? 1 + (int)t.draw(20) : 0; // destroy: 0,3 wait for all; 1 for a while; 2 not at all
    c.note("max %zu, %d tasks, %d blocking, %s, destroy %s ", max, n, nblock, two ? "two submitters" : "one submitter", how == 1 ? "after a while" : how == 2 ? "at once" : "when done");
    if (how == 1 || how == 2) for (auto j : p.jobs) j->spawn = -1; // a task may not use a pool that is being destroyed
    string bad; auto submit = [&](Job* j) { rtError e = rtThreadPool_RunTask(p.tp, job, j); if (e == RT_ERROR_THREADPOOL_TASK_PENDING) p.pending++; else if (e != RT_OK) { p.refused++; return; } j->accepted = true; };
    vector<Job*> bl; for (int i = 0; i < nblock; i++) { Job* j = new Job; j->p = &p; j->block = true; bl.push_back(j); }
    if (nblock) { for (auto j : bl) submit(j); bool all = wait_for([&] { std::lock_guard<std::mutex> l(p.mx); return p.blocked == nblock; }, 20); int b; { std::lock_guard<std::mutex> l(p.mx); b = p.blocked; p.go = true; p.cv.notify_all(); } if (!all) bad = "only " + std::to_string(b) + " of " + std::to_string(nblock) + " tasks run at a time although the limit allows it"; }
    { std::lock_guard<std::mutex> l(p.mx); p.go = true; }
    std::atomic<int> pend2{0}; std::thread other; if (two) other = std::thread([&] { for (int i = n / 2; i < n; i++) { if (gap[i]) usleep(gap[i]); submit(sub[i]); } });
    for (int i = 0; i < (two ? n / 2 : n); i++) { if (gap[i]) usleep(gap[i]); submit(sub[i]); if (expire && i == n / 3) usleep(1150000); }
    if (two) other.join(); if (expire) { c.label("idle threads expired"); }
    auto spawned = [&] { for (auto j : p.jobs) if (j->spawn >= 0 && !j->ran) return false; for (auto j : p.jobs) if (j->spawn >= 0 && p.jobs[j->spawn]->ran == 0 && p.refused == 0) return false; return true; };
    bool settled = true; if (how != 1 && how != 2) settled = wait_for(spawned, 20); // tasks submitting tasks are done with that
    rtError e = rtThreadPool_Destroy(p.tp, how == 1 ? ms : how == 2 ? 0 : -1);
    int accepted = 0, ran = 0; auto count = [&] { accepted = ran = 0; for (auto v : {&p.jobs, &bl}) for (auto j : *v) { accepted += j->accepted; ran += j->ran; } };
    count(); if (e == RT_OK) { if (how == 1 || how == 2) wait_for([&] { count(); return ran >= accepted && p.done >= accepted; }, 20); count(); }
    wait_for([&] { std::lock_guard<std::mutex> l(p.mx); return p.running == 0; }, 20); if (e != RT_OK) usleep(3000);
    count(); int most; { std::lock_guard<std::mutex> l(p.mx); most = p.most; } string twice; for (auto v : {&p.jobs, &bl}) for (auto j : *v) { if (j->ran > 1) twice = "a task ran " + std::to_string(j->ran) + " times"; if (j->ran && !j->accepted) twice = "a refused task ran"; }
    int pending = p.pending; wait_for([&] { return p.done >= ran; }, 20); usleep(200);
    if (bad.empty() && !settled) bad = "tasks did not run within 20 s"; if (bad.empty()) bad = twice;
    if (bad.empty() && p.refused) bad = "a task was refused";
    if (bad.empty() && most > (int)max) bad = std::to_string(most) + " tasks ran at a time, the limit is " + std::to_string(max);
    if (bad.empty() && e == RT_OK && ran != accepted) bad = std::to_string(ran) + " of " + std::to_string(accepted) + " accepted tasks ran although none was reported cancelled";
    if (bad.empty() && e == RT_ERROR_THREADPOOL_TASKS_CANCELLED && (ran >= accepted || how == 0 || how == 3)) bad = "tasks were reported cancelled, " + std::to_string(ran) + " of " + std::to_string(accepted) + " ran";
    if (bad.empty() && e != RT_OK && e != RT_ERROR_THREADPOOL_TASKS_CANCELLED) bad = "destroy returns " + std::to_string(e);
    c.nontrivial = n > (int)max || nblock > 1; if (pending) c.label("a task had to wait"); if (e != RT_OK) c.label("tasks cancelled");
    if (!bad.empty()) c.fail("%s", bad.c_str());
    for (auto j : p.jobs) delete j; for (auto j : bl) delete j;
  }
}

static std::atomic<int> g_ran[1 << 16]; static unsigned g_slot; static void tick(void* u) { ++*(std::atomic<int>*)u; } static void nap(void* u) { usleep(50); ++*(std::atomic<int>*)u; }
PROP(threadpool_release, 1, "256 pools in a row created, used and destroyed in the same way (1..3 threads, 0..6 tasks, destroyed when done or at once); storage may not grow by more than the C library's cached thread stacks; non-trivial: at least one task") {
  size_t max = 1 + t.draw(3); int n = (int)t.draw(7), wait = t.draw(2) ? -1 : 0; rtThreadPoolFunc f = t.draw(2) ? nap : tick; c.note("max %zu, %d tasks, wait %d ", max, n, wait); c.nontrivial = n > 0;
  long base = 0; for (int i = 0; i < 256; i++) { if (i == 8) base = (long)heap_bytes(); rtThreadPool p; rtThreadPool_Create(&p, max, 0, 1); auto& ran = g_ran[g_slot++ & 0xffff]; ran = 0; for (int q = 0; q < n; q++) rtThreadPool_RunTask(p, f, &ran); rtError e = rtThreadPool_Destroy(p, wait); if (wait < 0) CHECK(e == RT_OK && ran == n, "%d of %d tasks ran", (int)ran, n); }
  long grown = 0; bool ok = wait_for([&] { grown = (long)heap_bytes() - base; return grown < 9000; }, 10); CHECK(ok, "248 pools created and destroyed leave %ld bytes", grown);
}
