#include "sched.hpp"
#include <pthread.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <map>
#include <unordered_map>
#include <vector>

namespace ffv {
  void (*on_stuck)(const char*, const std::string&) = nullptr;
  void (*on_crash)() = nullptr;
  void (*on_fs_op)(const char*, const char*, const char*, int64_t) = nullptr;

  enum St { RUN, BLK_MUTEX, BLK_COND, BLK_JOIN, FIN };
  struct Th {
    int id;
    std::atomic<int> go{0};
    St st = RUN;
    void* on = nullptr;      // mutex / cond / Th*
    pthread_t pt{};
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    uint64_t prio = 0;
  };
  static std::atomic<bool> active{false};
  static std::vector<Th*> ths;
  static thread_local Th* me = nullptr;
  static std::unordered_map<void*, Th*> owner;
  static uint64_t rng, steps, max_steps, switches, shash;
  static int policy;
  static std::vector<uint64_t> pct_points;
  static uint64_t pct_low;
  static int sticky_left = 0;

  static uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng * 0x2545F4914F6CDD1DULL >> 11; }

  static void fwait(std::atomic<int>& a) {
    while (a.load(std::memory_order_acquire) == 0) syscall(SYS_futex, reinterpret_cast<int*>(&a), FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    a.store(0, std::memory_order_release);
  }
  static void fpost(std::atomic<int>& a) {
    a.store(1, std::memory_order_release);
    syscall(SYS_futex, reinterpret_cast<int*>(&a), FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
  }
  bool sched_active() { return active.load(std::memory_order_relaxed) && me; }
  int self() { return me ? me->id : -1; }
  uint64_t sched_steps() { return steps; }
  uint64_t sched_switches() { return switches; }
  uint64_t sched_hash() { return shash; }

  static std::string describe() {
    static const char* n[] = {"runnable", "mutex", "cond", "join", "finished"};
    std::string s;
    for (auto t : ths) { s += "T" + std::to_string(t->id) + ":" + n[t->st] + " "; }
    return s;
  }

  static uint64_t alone;
  // choose the next thread; self may be non-runnable
  static Th* choose(bool self_ok) {
    std::vector<Th*> r;
    for (auto t : ths) if (t->st == RUN && (self_ok || t != me)) r.push_back(t);
    if (r.empty()) return nullptr;
    if (r.size() == 1) return r[0];
    bool me_in = self_ok && me->st == RUN;
    switch (policy) {
      case NONPREEMPT:
        if (me_in) return me;
        return r[rnd() % r.size()];
      case ROUNDROBIN: {
        for (auto t : r) if (t->id > me->id) return t;
        return r[0];
      }
      case STICKY:
        if (me_in && sticky_left > 0) { --sticky_left; return me; }
        sticky_left = rnd() % 40;
        return r[rnd() % r.size()];
      case STARVE_MAIN: {
        std::vector<Th*> w;
        for (auto t : r) if (t->id != 0) w.push_back(t);
        if (!w.empty() && rnd() % 64) return w[rnd() % w.size()];
        return r[rnd() % r.size()];
      }
      case STARVE_WORKERS: {
        if (rnd() % 64) for (auto t : r) if (t->id == 0) return t;
        return r[rnd() % r.size()];
      }
      case PCT: {
        Th* b = r[0];
        for (auto t : r) if (t->prio > b->prio) b = t;
        // a thread may be waiting for another one in a loop: nobody runs alone for ever
        if (b == me && r.size() > 1) { if (++alone > 20000) { alone = 0; me->prio = --pct_low; return choose(self_ok); } }
        else alone = 0;
        return b;
      }
      default:
        return r[rnd() % r.size()];
    }
  }
  static void stuck(const char* w) {
    active = false;
    if (on_stuck) on_stuck(w, describe());
    _exit(70);
  }
  static void switch_to(Th* t) {
    ++steps;
    shash = (shash ^ (uint64_t)(t->id + 1)) * 1099511628211ULL;
    if (steps > max_steps) stuck("livelock");
    if (t == me) return;
    ++switches;
    Th* m = me;
    fpost(t->go);
    fwait(m->go);
  }
  static void tick() {
    if (policy == PCT) {
      for (auto p : pct_points) if (p == steps) { me->prio = --pct_low; break; }
    }
  }
  static void block() {  // self is not runnable any more
    Th* t = choose(false);
    if (!t) stuck("deadlock");
    switch_to(t);
  }
  void yield_point() {
    if (!sched_active()) return;
    tick();
    switch_to(choose(true));
  }
  void yield_hard() {
    if (!sched_active()) return;
    tick();
    if (policy == PCT) me->prio = --pct_low;
    Th* t = choose(false);
    if (!t) { ++steps; if (steps > max_steps) stuck("livelock"); return; }
    switch_to(t);
  }
  void sched_start(uint64_t seed, int pol, uint64_t mx) {
    rng = seed * 0x9E3779B97F4A7C15ULL + 0x1234567; for (int i = 0; i < 8; ++i) rnd();
    policy = pol; max_steps = mx; steps = switches = alone = 0; shash = 1469598103934665603ULL;
    for (auto t : ths) delete t;
    ths.clear(); owner.clear(); pct_points.clear(); pct_low = 1u << 30; sticky_left = 0;
    me = new Th; me->id = 0; me->pt = pthread_self();
    me->prio = (1ull << 40) + rnd() % 100000;
    if (policy == PCT) { int d = 3 + rnd() % 8; uint64_t span = 200; span <<= (rnd() % 9); for (int i = 0; i < d; ++i) pct_points.push_back(rnd() % span); }
    ths.push_back(me);
    active = true;
  }
  Pause::Pause() : was(active.load()) { active = false; }
  Pause::~Pause() { active = was; }
  void sched_stop() { active = false; me = nullptr; }

  // ------------------------------------------------------------------ real functions
  template<typename F> static F real(const char* n) {
    void* p = dlsym(RTLD_NEXT, n);
    if (!p) { fprintf(stderr, "missing symbol %s\n", n); abort(); }
    return reinterpret_cast<F>(p);
  }
#define REAL(name) static auto r_##name = real<decltype(&name)>(#name)

  static void lock_model(void* m) {
    while (owner.count(m)) { me->st = BLK_MUTEX; me->on = m; block(); }
    owner[m] = me;
  }
  static void unlock_model(void* m) {
    owner.erase(m);
    for (auto t : ths) if (t->st == BLK_MUTEX && t->on == m) t->st = RUN;
  }
  static void* tramp(void* a) {
    Th* t = static_cast<Th*>(a);
    me = t;
    fwait(t->go);
    void* r = t->fn(t->arg);
    t->st = FIN;
    for (auto o : ths) if (o->st == BLK_JOIN && o->on == t) o->st = RUN;
    if (active) {
      Th* n = choose(false);
      if (!n) stuck("deadlock");
      ++steps; ++switches;
      shash = (shash ^ (uint64_t)(n->id + 1)) * 1099511628211ULL;
      me = nullptr;
      fpost(n->go);
    }
    return r;
  }
  // ------------------------------------------------------------------ time
  static bool vtime = false;
  static int64_t vnow_ns = 0, vstep = 1000;
  void time_virtual(bool on, int64_t s) { vtime = on; vnow_ns = s * 1000000000LL; }
  void time_set_step_ns(int64_t n) { vstep = n; }
  void time_advance_s(int64_t s) { vnow_ns += s * 1000000000LL; }
  // ------------------------------------------------------------------ files
  static const char* fmarker = nullptr;
  static int64_t fcrash = -1, fcnt = 0;
  static int fmode = 0;
  static std::map<int, std::string> fds;
  void fs_watch(const char* m, int64_t c, int mode) { fmarker = m; fcrash = c; fmode = mode; fcnt = 0; }
  int64_t fs_count() { return fcnt; }
  static bool watched(const char* p) { return fmarker && p && strstr(p, fmarker); }
  // returns true if the crash has to happen at this operation
  static bool fs_event(const char* op, const char* p, const char* p2, int64_t n) {
    ++fcnt;
    if (on_fs_op) on_fs_op(op, p, p2, n);
    return fcnt == fcrash;
  }
  static void crash() { if (on_crash) on_crash(); _exit(77); }
}

using namespace ffv;
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (sched_active()) { yield_point(); lock_model(m); return 0; }
  REAL(pthread_mutex_lock); return r_pthread_mutex_lock(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (sched_active()) { yield_point(); if (owner.count(m)) return EBUSY; owner[m] = me; return 0; }
  REAL(pthread_mutex_trylock); return r_pthread_mutex_trylock(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (sched_active()) { unlock_model(m); yield_point(); return 0; }
  REAL(pthread_mutex_unlock); return r_pthread_mutex_unlock(m);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (sched_active()) {
    unlock_model(m);
    me->st = BLK_COND; me->on = c;
    block();
    lock_model(m);
    return 0;
  }
  REAL(pthread_cond_wait); return r_pthread_cond_wait(c, m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  if (sched_active()) { unlock_model(m); yield_hard(); lock_model(m); return (rnd() & 1) ? ETIMEDOUT : 0; }
  REAL(pthread_cond_timedwait); return r_pthread_cond_timedwait(c, m, ts);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
  if (sched_active()) { unlock_model(m); yield_hard(); lock_model(m); return (rnd() & 1) ? ETIMEDOUT : 0; }
  REAL(pthread_cond_clockwait); return r_pthread_cond_clockwait(c, m, k, ts);
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (sched_active()) {
    std::vector<Th*> w;
    for (auto t : ths) if (t->st == BLK_COND && t->on == c) w.push_back(t);
    if (!w.empty()) w[rnd() % w.size()]->st = RUN;
    yield_point();
    return 0;
  }
  REAL(pthread_cond_signal); return r_pthread_cond_signal(c);
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (sched_active()) {
    for (auto t : ths) if (t->st == BLK_COND && t->on == c) t->st = RUN;
    yield_point();
    return 0;
  }
  REAL(pthread_cond_broadcast); return r_pthread_cond_broadcast(c);
}
int pthread_create(pthread_t* pt, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  REAL(pthread_create);
  if (sched_active()) {
    Th* t = new Th; t->id = ths.size(); t->fn = fn; t->arg = arg; t->prio = (1ull << 40) + rnd() % 100000;
    ths.push_back(t);
    int r = r_pthread_create(pt, at, tramp, t);
    t->pt = *pt;
    yield_point();
    return r;
  }
  return r_pthread_create(pt, at, fn, arg);
}
int pthread_join(pthread_t pt, void** ret) {
  REAL(pthread_join);
  if (sched_active()) {
    yield_point();
    for (auto t : ths) if (t->id != 0 && pthread_equal(t->pt, pt)) {
      while (t->st != FIN) { me->st = BLK_JOIN; me->on = t; block(); }
      t->pt = pthread_t{};
      return r_pthread_join(pt, ret);
    }
  }
  return r_pthread_join(pt, ret);
}
int clock_gettime(clockid_t k, struct timespec* ts) {
  if (vtime) { vnow_ns += vstep; ts->tv_sec = vnow_ns / 1000000000LL; ts->tv_nsec = vnow_ns % 1000000000LL; return 0; }
  return syscall(SYS_clock_gettime, k, ts);
}
time_t time(time_t* t) {
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
// ---------------------------------------------------------------- file system
static int do_open(const char* p, int fl, mode_t md, const char* nm) {
  bool w = watched(p) && (fl & (O_WRONLY | O_RDWR));
  bool cr = false;
  if (w) { cr = fs_event((fl & O_APPEND) ? "open_append" : (fl & O_TRUNC) ? "open_trunc" : "open_w", p, "", 0); if (cr && fmode != 2) crash(); }
  int fd = syscall(SYS_openat, AT_FDCWD, p, fl | O_LARGEFILE, md);
  (void)nm;
  if (w && fd >= 0) { fds[fd] = p; if (cr) crash(); }
  return fd;
}
int open(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = (fl & O_CREAT) ? va_arg(a, mode_t) : 0; va_end(a); return do_open(p, fl, m, "open"); }
int open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = (fl & O_CREAT) ? va_arg(a, mode_t) : 0; va_end(a); return do_open(p, fl, m, "open64"); }
ssize_t write(int fd, const void* b, size_t n) {
  if (fmarker && fds.count(fd)) {
    if (fs_event("write", fds[fd].c_str(), "", n)) {
      if (fmode == 1) syscall(SYS_write, fd, b, n / 2);
      if (fmode == 2) syscall(SYS_write, fd, b, n);
      crash();
    }
  }
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (fmarker && fds.count(fd)) {
    if (fs_event("write", fds[fd].c_str(), "", c)) {
      if (fmode == 1 && c > 0) syscall(SYS_write, fd, v[0].iov_base, v[0].iov_len / 2);
      if (fmode == 2) syscall(SYS_writev, fd, v, c);
      crash();
    }
  }
  return syscall(SYS_writev, fd, v, c);
}
int close(int fd) { if (fmarker) fds.erase(fd); return syscall(SYS_close, fd); }
static FILE* do_fopen(const char* p, const char* md) {
  typedef FILE* (*fo)(const char*, const char*);
  static fo r_fopen = real<fo>("fopen");
  bool w = watched(p) && strpbrk(md, "wa+");
  bool cr = false;
  if (w) { cr = fs_event(strchr(md, 'a') ? "open_append" : "open_trunc", p, "", 0); if (cr && fmode != 2) crash(); }
  FILE* f = r_fopen(p, md);
  if (w && f) { fds[fileno(f)] = p; if (cr) crash(); }
  return f;
}
FILE* fopen(const char* p, const char* md) { return do_fopen(p, md); }
FILE* fopen64(const char* p, const char* md) { return do_fopen(p, md); }
int fclose(FILE* f) {
  typedef int (*fc)(FILE*);
  static fc r_fclose = real<fc>("fclose");
  if (fmarker && f) fds.erase(fileno(f));
  return r_fclose(f);
}
int rename(const char* a, const char* b) {
  bool cr = false;
  if (watched(a) || watched(b)) { cr = fs_event("rename", a, b, 0); if (cr && fmode != 2) crash(); }
  int r = syscall(SYS_rename, a, b);
  if (cr) crash();
  return r;
}
int unlink(const char* a) {
  bool cr = false;
  if (watched(a)) { cr = fs_event("unlink", a, "", 0); if (cr && fmode != 2) crash(); }
  int r = syscall(SYS_unlink, a);
  if (cr) crash();
  return r;
}
int remove(const char* a) {
  struct stat s;
  if (lstat(a, &s) == 0 && S_ISDIR(s.st_mode)) return rmdir(a);
  return unlink(a);
}
int mkdir(const char* a, mode_t m) {
  bool cr = false;
  if (watched(a)) { cr = fs_event("mkdir", a, "", 0); if (cr && fmode != 2) crash(); }
  int r = syscall(SYS_mkdir, a, m);
  if (cr) crash();
  return r;
}
}
