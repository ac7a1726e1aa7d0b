#pragma once
// Stand-in for roscpp: topics, timers and services are recorded in shim::bus() and driven by the harness.
#include <stdlib.h>
#include <algorithm>
#include <cstdio>
#include <cmath>
#include <boost/bind.hpp>
#include <boost/function.hpp>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/thread.hpp>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <typeindex>
#include <unordered_map>
#include <vector>
#include <ros/console.h>
#include <ros/time.h>
// provided by harness/sched.cpp in checks which control the threads; absent otherwise
extern "C" void sched_quiet_begin() __attribute__((weak));
extern "C" void sched_quiet_end() __attribute__((weak));
namespace ros {
class CallbackQueue;
struct TimerEvent {
  Time last_expected, last_real, current_expected, current_real;
  struct { WallDuration last_duration; } profile;
};
typedef boost::function<void(const TimerEvent&)> TimerCallback;
struct WallTimerEvent { WallTime last_expected, last_real, current_expected, current_real; };
}
namespace shim {
struct Sub {
  std::string topic;
  std::type_index type;
  std::function<void(const void*)> call;                            // const M*
  std::function<void(const boost::shared_ptr<void const>&)> calls;  // shared_ptr<M const>
  void* queue;
  int id;
  uint32_t qsize = 1;  // pending messages which are kept; 0: all of them
};
struct TimerRec {
  double period;
  ros::TimerCallback cb;
  bool oneshot, running;
  void* queue;
  int id;
};
struct Pub {
  std::string topic;
  std::type_index type;
  boost::shared_ptr<void const> msg;
  int64_t t;
};
// the stand-in's own bookkeeping is no synchronisation of the program
struct Quiet {
  Quiet() { if (sched_quiet_begin) sched_quiet_begin(); }
  ~Quiet() { if (sched_quiet_end) sched_quiet_end(); }
};
struct BusLock {
  Quiet q; std::lock_guard<std::recursive_mutex> l;
  explicit BusLock(std::recursive_mutex& m) : l(m) {}
};
// callback threads, for checks which control them
struct ThreadHooks {
  void* (*spinner_start)(void* queue, uint32_t threads);
  void (*spinner_stop)(void* handle);
  void (*timer_gone)(TimerRec* t);  // as roscpp: returns once no callback of the timer runs
  void (*sub_gone)(int id);         // the same for a subscription
  void (*wait_shutdown)();
  void (*queue_gone)(void* queue);
};
extern ThreadHooks* threads;
struct Bus {
  std::recursive_mutex m;
  std::vector<Sub> subs;
  std::vector<std::shared_ptr<TimerRec>> timers;
  std::vector<Pub> pubs;  // everything published, in order
  std::map<std::string, std::string> params_s;
  std::map<std::string, double> params_d;
  std::map<std::string, bool> params_b;
  std::map<std::string, std::vector<std::string>> params_v;
  std::function<bool(const std::string& service, std::type_index, void* srv)> service;
  std::function<void(const Pub&)> on_publish;
  std::function<void(const Pub&)> on_published;  // the same, without the lock of the bus
  std::function<void()> on_call_available;  // callAvailable / spinOnce
  std::function<void()> on_spin;            // ros::spin
  bool record = true;
  bool ok = true;
  int spinners_started = 0;
  int next_id = 0;
  void clear();
};
Bus& bus();
template <class M>
void deliver(const std::string& topic, const M& msg) {
  boost::shared_ptr<M const> p(new M(msg));
  std::vector<Sub> ss;
  { shim::BusLock l(bus().m); ss = bus().subs; }
  for (auto& s : ss)
    if (s.topic == topic) {
      if (s.type != std::type_index(typeid(M))) { fprintf(stderr, "SHIM: type mismatch on %s\n", topic.c_str()); abort(); }
      s.calls(p);
    }
}
template <class M>
std::vector<M> published(const std::string& topic) {
  shim::BusLock l(bus().m);
  std::vector<M> r;
  for (auto& p : bus().pubs)
    if (p.topic == topic && p.type == std::type_index(typeid(M))) r.push_back(*(const M*)p.msg.get());
  return r;
}
template <class M>
bool last_published(const std::string& topic, M& out) {
  shim::BusLock l(bus().m);
  for (size_t i = bus().pubs.size(); i-- > 0;)
    if (bus().pubs[i].topic == topic && bus().pubs[i].type == std::type_index(typeid(M))) { out = *(const M*)bus().pubs[i].msg.get(); return true; }
  return false;
}
template <class T> struct msg_of { typedef typename std::remove_cv<typename std::remove_reference<T>::type>::type type; };
template <class M> struct msg_of<boost::shared_ptr<M>> { typedef typename std::remove_cv<M>::type type; };
template <class M> struct msg_of<const boost::shared_ptr<M>&> { typedef typename std::remove_cv<M>::type type; };
template <class A>
struct caller {
  typedef typename msg_of<A>::type M;
  template <class F> static void go(F& f, const boost::shared_ptr<M const>& p) { f(*p); }
};
template <class M0>
struct caller<boost::shared_ptr<M0>> {
  typedef typename std::remove_cv<M0>::type M;
  template <class F> static void go(F& f, const boost::shared_ptr<M const>& p) { f(boost::const_pointer_cast<M>(p)); }
};
template <class M0>
struct caller<boost::shared_ptr<M0 const>> {
  typedef M0 M;
  template <class F> static void go(F& f, const boost::shared_ptr<M const>& p) { f(p); }
};
template <class M0>
struct caller<const boost::shared_ptr<M0 const>&> {
  typedef M0 M;
  template <class F> static void go(F& f, const boost::shared_ptr<M const>& p) { f(p); }
};
}
namespace ros {
class CallbackInterface;
class CallbackQueue {
 public:
  ~CallbackQueue() { if (shim::threads) shim::threads->queue_gone(this); }
  void callAvailable() { callAvailable(WallDuration()); }
  void callAvailable(WallDuration d) { if (shim::bus().on_call_available) shim::bus().on_call_available(); else if (shim::on_sleep) shim::on_sleep(d.toNSec()); }
  void callOne() { callAvailable(WallDuration()); }
  void callOne(WallDuration d) { callAvailable(d); }
  void clear() {}
  void enable() {}
  void disable() {}
  bool isEmpty() { return true; }
  bool empty() { return true; }
};
typedef CallbackQueue CallbackQueueInterface;
CallbackQueue* getGlobalCallbackQueue();
class TransportHints {
 public:
  TransportHints& reliable() { return *this; }
  TransportHints& unreliable() { return *this; }
  TransportHints& tcpNoDelay(bool = true) { return *this; }
};
class Subscriber {
 public:
  Subscriber() {}
  void shutdown() {
    if (h_) h_.reset();
  }
  std::string getTopic() const { return h_ ? h_->topic : ""; }
  uint32_t getNumPublishers() const { return 1; }
  operator void*() const { return h_ ? (void*)1 : (void*)0; }
  struct H {
    std::string topic; int id;
    ~H() { if (shim::threads) shim::threads->sub_gone(id); auto& b = shim::bus(); shim::BusLock l(b.m); for (size_t i = 0; i < b.subs.size(); i++) if (b.subs[i].id == id) { b.subs.erase(b.subs.begin() + i); break; } }
  };
  std::shared_ptr<H> h_;
};
class Publisher {
 public:
  Publisher() : type_(typeid(void)) {}
  Publisher(const std::string& t, std::type_index ty) : topic_(t), type_(ty), valid_(true) {}
  template <class M> void publish(const M& m) const {
    if (!valid_) { fprintf(stderr, "SHIM: publish on an invalid publisher\n"); abort(); }
    auto& b = shim::bus();
    shim::Pub p{topic_, std::type_index(typeid(M)), boost::shared_ptr<void const>(boost::shared_ptr<M const>(new M(m))), shim::clock_ns.load()};
    {
      shim::BusLock l(b.m);
      if (b.record) b.pubs.push_back(p);
      if (b.on_publish) b.on_publish(p);
    }
    if (b.on_published) b.on_published(p);
  }
  template <class M> void publish(const boost::shared_ptr<M>& m) const { publish(*m); }
  std::string getTopic() const { return topic_; }
  uint32_t getNumSubscribers() const { return 1; }
  bool isLatched() const { return false; }
  void shutdown() { valid_ = false; }
  operator void*() const { return valid_ ? (void*)1 : (void*)0; }
  std::string topic_;
  std::type_index type_;
  bool valid_ = false;
};
class ServiceClient {
 public:
  ServiceClient() {}
  explicit ServiceClient(const std::string& n) : name_(n) {}
  template <class S> bool call(S& s) {
    auto& b = shim::bus();
    if (!b.service) return false;
    return b.service(name_, std::type_index(typeid(S)), (void*)&s);
  }
  bool exists() { return true; }
  bool waitForExistence(Duration = Duration(-1)) { return true; }
  std::string getService() { return name_; }
  bool isValid() const { return true; }
  std::string name_;
};
class Timer {
 public:
  Timer() {}
  void start() { if (h_) h_->r->running = true; }
  void stop() { if (h_) h_->r->running = false; }
  void setPeriod(const Duration& d, bool = true) { if (h_) h_->r->period = d.toSec(); }
  bool hasStarted() const { return h_ && h_->r->running; }
  bool isValid() { return (bool)h_; }
  struct H { std::shared_ptr<shim::TimerRec> r; ~H() { if (shim::threads) shim::threads->timer_gone(r.get()); auto& b = shim::bus(); shim::BusLock l(b.m); for (size_t i = 0; i < b.timers.size(); i++) if (b.timers[i] == r) { b.timers.erase(b.timers.begin() + i); break; } } };
  std::shared_ptr<H> h_;
};
typedef Timer WallTimer;
struct TimerOptions {
  TimerOptions() {}
  TimerOptions(Duration p, const TimerCallback& cb, CallbackQueue* q, bool os = false, bool as = true) : period(p), callback(cb), callback_queue(q), oneshot(os), autostart(as) {}
  Duration period;
  TimerCallback callback;
  CallbackQueue* callback_queue = nullptr;
  bool oneshot = false, autostart = true;
};
class AsyncSpinner {
 public:
  explicit AsyncSpinner(uint32_t n, CallbackQueue* q = nullptr) : n_(n), q_(q) {}
  AsyncSpinner(const AsyncSpinner&) = delete;
  ~AsyncSpinner() { stop(); }
  bool canStart() { return true; }
  void start() {
    { shim::BusLock l(shim::bus().m); shim::bus().spinners_started++; }
    if (shim::threads && !h_) h_ = shim::threads->spinner_start(q_, n_);
  }
  void stop() { if (h_) shim::threads->spinner_stop(h_); h_ = nullptr; }
 private:
  uint32_t n_; CallbackQueue* q_; void* h_ = nullptr;
};
class MultiThreadedSpinner { public: explicit MultiThreadedSpinner(uint32_t = 0) {} };
class NodeHandle {
 public:
  NodeHandle(const std::string& ns = "") : ns_(ns) {}
  NodeHandle(const NodeHandle& o, const std::string&) : ns_(o.ns_), q_(o.q_) {}
  void setCallbackQueue(CallbackQueue* q) { q_ = q; }
  std::string getNamespace() const { return ns_; }
  std::string resolveName(const std::string& n) const { return n; }
  bool ok() const { shim::Quiet q; return shim::bus().ok; }
  void shutdown() {}
  template <class M> Publisher advertise(const std::string& t, uint32_t, bool = false) { return Publisher(t, std::type_index(typeid(M))); }
  template <class M, class A, class F> Subscriber sub_(const std::string& topic, uint32_t qsize, F f) {
    auto& b = shim::bus();
    shim::BusLock l(b.m);
    auto fp = std::make_shared<F>(f);
    Subscriber s; s.h_ = std::make_shared<Subscriber::H>(); s.h_->topic = topic; s.h_->id = b.next_id++;
    b.subs.push_back(shim::Sub{topic, std::type_index(typeid(M)), nullptr,
                               [fp](const boost::shared_ptr<void const>& p) { shim::caller<A>::go(*fp, boost::static_pointer_cast<M const>(p)); }, q_, s.h_->id, qsize});
    return s;
  }
  template <class A, class T> Subscriber subscribe(const std::string& t, uint32_t qs, void (T::*fp)(A), T* o, const TransportHints& = TransportHints()) {
    typedef typename shim::msg_of<A>::type M;
    return sub_<M, A>(t, qs, std::function<void(A)>([o, fp](A a) { (o->*fp)(a); }));
  }
  template <class A, class T> Subscriber subscribe(const std::string& t, uint32_t qs, void (T::*fp)(A) const, T* o, const TransportHints& = TransportHints()) {
    typedef typename shim::msg_of<A>::type M;
    return sub_<M, A>(t, qs, std::function<void(A)>([o, fp](A a) { (o->*fp)(a); }));
  }
  template <class A> Subscriber subscribe(const std::string& t, uint32_t qs, void (*fp)(A), const TransportHints& = TransportHints()) {
    typedef typename shim::msg_of<A>::type M;
    return sub_<M, A>(t, qs, std::function<void(A)>(fp));
  }
  // subscribe<M>(topic, queue, boost::function<void(const boost::shared_ptr<M const>&)>)
  template <class M0> Subscriber subscribe(const std::string& t, uint32_t qs, const typename std::enable_if<!std::is_reference<M0>::value, boost::function<void(const boost::shared_ptr<M0 const>&)>>::type& f, const boost::shared_ptr<void const>& = boost::shared_ptr<void const>(), const TransportHints& = TransportHints()) {
    return sub_<M0, const boost::shared_ptr<M0 const>&>(t, qs, f);
  }
  // subscribe<const M&>(topic, queue, boost::function<void(const M&)>)
  template <class C> Subscriber subscribe(const std::string& t, uint32_t qs, const typename std::enable_if<std::is_reference<C>::value, boost::function<void(C)>>::type& f, const boost::shared_ptr<void const>& = boost::shared_ptr<void const>(), const TransportHints& = TransportHints()) {
    typedef typename shim::msg_of<C>::type M;
    return sub_<M, C>(t, qs, f);
  }
  Timer createTimer(const TimerOptions& o) {
    auto r = std::make_shared<shim::TimerRec>();
    r->period = o.period.toSec(); r->cb = o.callback; r->oneshot = o.oneshot; r->running = o.autostart; r->queue = o.callback_queue;
    auto& b = shim::bus(); shim::BusLock l(b.m); r->id = b.next_id++; b.timers.push_back(r);
    Timer t; t.h_ = std::make_shared<Timer::H>(); t.h_->r = r; return t;
  }
  Timer createTimer(Duration p, const TimerCallback& cb, bool os = false, bool as = true) { return createTimer(TimerOptions(p, cb, q_, os, as)); }
  template <class T> Timer createTimer(Duration p, void (T::*f)(const TimerEvent&), T* o, bool os = false, bool as = true) {
    return createTimer(TimerOptions(p, [o, f](const TimerEvent& e) { (o->*f)(e); }, q_, os, as));
  }
  template <class T> Timer createTimer(Rate r, void (T::*f)(const TimerEvent&), T* o, bool os = false, bool as = true) { return createTimer(r.expectedCycleTime(), f, o, os, as); }
  template <class S> ServiceClient serviceClient(const std::string& n, bool = false) { return ServiceClient(n); }
  bool get_(const std::string& k, std::string& v) const { auto& b = shim::bus(); auto i = b.params_s.find(k); if (i == b.params_s.end()) return false; v = i->second; return true; }
  bool get_(const std::string& k, double& v) const { auto& b = shim::bus(); auto i = b.params_d.find(k); if (i == b.params_d.end()) return false; v = i->second; return true; }
  bool get_(const std::string& k, float& v) const { double d; if (!get_(k, d)) return false; v = (float)d; return true; }
  bool get_(const std::string& k, int& v) const { double d; if (!get_(k, d)) return false; v = (int)d; return true; }
  bool get_(const std::string& k, bool& v) const { auto& b = shim::bus(); auto i = b.params_b.find(k); if (i == b.params_b.end()) return false; v = i->second; return true; }
  bool get_(const std::string& k, std::vector<std::string>& v) const {
    auto& b = shim::bus();
    auto i = b.params_v.find(k);
    if (i == b.params_v.end()) { std::string base = k.substr(k.rfind('/') + 1); i = b.params_v.find(base); if (i == b.params_v.end()) return false; }
    v = i->second; return true;
  }
  template <class T> bool getParam(const std::string& k, T& v) const { return get_(k, v); }
  template <class T> bool param(const std::string& k, T& v, const T& d) const { if (get_(k, v)) return true; v = d; return false; }
  template <class T> T param(const std::string& k, const T& d) const { T v; if (get_(k, v)) return v; return d; }
  bool hasParam(const std::string& k) const { auto& b = shim::bus(); return b.params_s.count(k) || b.params_d.count(k) || b.params_b.count(k) || b.params_v.count(k); }
  template <class T> void setParam(const std::string&, const T&) const {}
 private:
  std::string ns_;
  CallbackQueue* q_ = nullptr;
};
inline bool ok() { shim::Quiet q; return shim::bus().ok; }
inline bool isShuttingDown() { return !ok(); }
inline void shutdown() { shim::Quiet q; shim::bus().ok = false; }
inline void requestShutdown() { shutdown(); }
template <class A, class B> void init(A&, B&, const std::string&, uint32_t = 0) {}
inline void start() {}
inline void spin() { if (shim::bus().on_spin) shim::bus().on_spin(); }
inline void spinOnce() { if (shim::bus().on_call_available) shim::bus().on_call_available(); }
inline void waitForShutdown() { if (shim::threads) shim::threads->wait_shutdown(); }
namespace this_node { inline const std::string& getName() { static std::string n("/node"); return n; } inline const std::string& getNamespace() { static std::string n("/"); return n; } }
namespace names { inline const std::map<std::string, std::string>& getRemappings() { static std::map<std::string, std::string> m; return m; } }
namespace param {
template <class T> bool get(const std::string& k, T& v) { return NodeHandle().getParam(k, v); }
template <class T> bool param(const std::string& k, T& v, const T& d) { return NodeHandle().param(k, v, d); }
}
}
