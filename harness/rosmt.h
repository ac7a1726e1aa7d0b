// roscpp's threads for checks under the controlled scheduler: one global callback queue, callback threads (spinners) with
// their timers, waiting for running callbacks when timers and subscriptions go away, subscriptions with their queue lengths.
#pragma once
#include "vsched.h"
#include <ros/ros.h>
namespace mt {
struct Entry { int sub; std::function<void(const boost::shared_ptr<void const>&)> call; boost::shared_ptr<void const> msg; std::string topic; };
struct State {
  std::vector<Entry> q;      // pending callbacks of the global queue
  std::set<int> busy;        // subscriptions with a callback in progress
  std::map<int, int> by;     // thread that runs it
  std::map<shim::TimerRec*, int> timer;  // timers with a callback in progress, and their thread
  int calls = 0, timer_calls = 0;
  char qkey, tkey;
};
inline State& st() { static State* s = new State; return *s; }
struct Q { Q() { sched_quiet_begin(); } ~Q() { sched_quiet_end(); } };
inline bool runnable() { Q g; for (auto& e : st().q) if (!st().busy.count(e.sub)) return true; return false; }
// as the transport thread: the oldest message goes when the queue of the subscription is full
template <class M> void push(const std::string& topic, const M& m) {
  sched_point("message arrives", &st().qkey);
  {
    Q g;
    boost::shared_ptr<void const> p(boost::shared_ptr<M const>(new M(m)));
    for (auto& s : shim::bus().subs) if (s.topic == topic && s.type == std::type_index(typeid(M)) && !s.queue) {
      bool rep = false;
      size_t n = 0;
      for (auto& e : st().q) if (e.sub == s.id) n++;
      if (s.qsize == 1) { for (auto& e : st().q) if (e.sub == s.id) { e.msg = p; rep = true; } }
      else if (s.qsize && n >= s.qsize) for (auto i = st().q.begin(); i != st().q.end(); ++i) if (i->sub == s.id) { st().q.erase(i); break; }
      if (!rep) st().q.push_back(Entry{s.id, s.calls, p, topic});
    }
  }
  sched_release(&st().qkey);
}
// any other work of the global queue (services)
inline void push_call(std::function<void()> f) {
  sched_point("request arrives", &st().qkey);
  { Q g; static int id = -1; st().q.push_back(Entry{id--, [f](const boost::shared_ptr<void const>&) { f(); }, nullptr, "request"}); }
  sched_release(&st().qkey);
}
inline bool call_one() {
  sched_point("take callback", &st().qkey);
  Entry* e = nullptr;
  {
    Q g;
    for (size_t i = 0; i < st().q.size(); i++) if (!st().busy.count(st().q[i].sub)) { e = new Entry(st().q[i]); st().q.erase(st().q.begin() + i); st().busy.insert(e->sub); st().by[e->sub] = sched_self(); st().calls++; break; }
  }
  if (!e) return false;
  sched_acquire(&st().qkey);
  e->call(e->msg);
  sched_release(&st().qkey);
  sched_point("callback done", &st().qkey);
  { Q g; st().busy.erase(e->sub); delete e; }
  return true;
}
inline int pred_queue(void*) { return runnable() || !shim::bus().ok; }
// callAvailable: waits for a callback, then runs those which are pending
inline void call_available(int64_t timeout) {
  if (timeout > 0) { if (!sched_block(pred_queue, nullptr, timeout, "waits for callbacks")) return; }
  size_t n; { Q g; n = st().q.size(); }
  for (size_t i = 0; i < n; i++) if (!call_one()) break;
}
struct Spinner { void* queue; bool stop; bool done; bool joined; std::vector<std::thread> th; uint32_t n; };
inline int pred_stop(void* a) { return ((Spinner*)a)->stop || !shim::bus().ok; }
inline void spinner_loop(Spinner* s) {
  std::map<shim::TimerRec*, int64_t>* due; { Q g; due = new std::map<shim::TimerRec*, int64_t>; }
  for (;;) {
    std::shared_ptr<shim::TimerRec>* next = nullptr; int64_t at = 0;
    {
      Q g;
      for (auto& t : shim::bus().timers) if (t->queue == s->queue && t->running) { auto& d = (*due)[t.get()]; if (!d) d = sched_now() + (int64_t)(t->period * 1e9); if (!next || d < at) { at = d; delete next; next = new std::shared_ptr<shim::TimerRec>(t); } }
    }
    int64_t w = next ? std::max<int64_t>(at - sched_now(), 0) : -1;
    if (w != 0) { if (sched_block(pred_stop, s, w, "waits for its timer")) { break; } }
    else { sched_point("timer due", s); if (pred_stop(s)) break; }
    if (!next) continue;
    bool alive = false;
    { Q g; for (auto& t : shim::bus().timers) if (t == *next) alive = true; if (alive) { st().timer[next->get()] = sched_self(); (*due)[next->get()] = std::max(sched_now(), (*due)[next->get()]) + (int64_t)((*next)->period * 1e9); st().timer_calls++; } }
    if (alive) {
      sched_acquire(s->queue ? s->queue : &st().qkey);
      (*next)->cb(ros::TimerEvent());
      sched_release(s->queue ? s->queue : &st().qkey);
      sched_point("timer callback done", &st().tkey);
      Q g; st().timer.erase(next->get());
    }
  }
  Q g; s->done = true;
}
inline std::vector<Spinner*>& all() { static auto* v = new std::vector<Spinner*>; return *v; }
inline void queue_gone(void* q) { bool used = false; { Q g; for (auto s : all()) if (s->queue == q && !s->joined) used = true; } if (used) sched_fail("queue-destroyed", "a callback queue is destroyed while a thread still serves it"); }
inline void* spinner_start(void* queue, uint32_t n) {
  Spinner* s; { Q g; s = new Spinner; s->queue = queue; s->stop = s->done = s->joined = false; all().push_back(s); s->n = n; s->th.reserve(8); }
  static int k = 0; static const char* names[] = {"spinner1", "spinner2", "spinner3", "spinner4", "spinner5", "spinner6"};
  for (uint32_t i = 0; i < (n ? n : 1); i++) { sched_name_next(names[k++ % 6]); s->th.emplace_back(spinner_loop, s); }
  return s;
}
inline void spinner_stop(void* h) {
  Spinner* s = (Spinner*)h;
  sched_point("stops spinner", s);
  { Q g; s->stop = true; }
  for (auto& t : s->th) t.join();
  Q g; s->joined = true;
}
inline int pred_timer(void* a) { Q g; auto i = st().timer.find((shim::TimerRec*)a); return i == st().timer.end() || i->second == sched_self(); }
inline void timer_gone(shim::TimerRec* t) {
  { Q g; t->running = false; for (size_t i = 0; i < shim::bus().timers.size(); i++) if (shim::bus().timers[i].get() == t) { shim::bus().timers.erase(shim::bus().timers.begin() + i); break; } }
  bool self; { Q g; auto i = st().timer.find(t); self = i != st().timer.end() && i->second == sched_self(); }
  if (!self) sched_block(pred_timer, t, -1, "waits for a timer callback");
  sched_acquire(t->queue ? t->queue : &st().qkey);
}
inline int pred_sub(void* a) { Q g; return !st().busy.count((int)(intptr_t)a); }
inline void sub_gone(int id) {
  bool self; { Q g; for (size_t i = 0; i < st().q.size();) if (st().q[i].sub == id) st().q.erase(st().q.begin() + i); else i++; for (size_t i = 0; i < shim::bus().subs.size(); i++) if (shim::bus().subs[i].id == id) { shim::bus().subs.erase(shim::bus().subs.begin() + i); break; } self = st().busy.count(id) && st().by[id] == sched_self(); }
  if (!self) sched_block(pred_sub, (void*)(intptr_t)id, -1, "waits for a subscription callback");
  sched_acquire(&st().qkey);
}
inline int pred_down(void*) { return !shim::bus().ok; }
inline void wait_shutdown() { sched_block(pred_down, nullptr, -1, "waits for shutdown"); }
inline void on_sleep(int64_t ns) { sched_sleep(ns); }
inline void install() {
  static shim::ThreadHooks h = {spinner_start, spinner_stop, timer_gone, sub_gone, wait_shutdown, queue_gone};
  shim::threads = &h;
  shim::on_sleep = on_sleep;
  sched_set_clock(&shim::clock_ns);
  shim::bus().on_call_available = [] { call_available(100000000); };
}
}
