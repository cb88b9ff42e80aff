// Drives firefly::ThreadPool with small client programs under the deterministic scheduler and logs calls, returns,
// starts and ends of tasks. Input: one program per line; output: ndjson events, programs separated by "pool" lines.
//   pool <threads> <seed> <policy> <rate> | tasks: <m> (<kind TPKQ> <yields> <throws> <#children> children...)... | <clients> (<#ops> ops...)...
//   ops: s<id> submit, w wait, k kill_all, z queue_size, f<id> future, y<k> yields
#include "firefly/ThreadPool.hpp"
#include "sched.hpp"
#include "trace.hpp"
#include <csignal>
#include <fstream>
#include <map>
#include <sstream>
using namespace firefly;
using namespace ffv;
struct Task { char kind; int yields, fails; std::vector<int> kids; };
static std::vector<Task> tasks;
static std::map<int, std::shared_future<int>>* futs;
static ThreadPool* pool;
static void ev(const std::string& e, int t, const std::string& more = "") {
  T().line("{\"e\":\"" + e + "\",\"c\":" + std::to_string(self()) + ",\"t\":" + std::to_string(t) + more + "}");
}
#define EV(...) do { Pause pause_; ev(__VA_ARGS__); } while (0)
static void submit(int t);
static int body(int t) {
  EV("start", t);
  for (int i = 0; i < tasks[t].yields; ++i) yield_point();
  for (int k : tasks[t].kids) submit(k);
  yield_point();
  EV("end", t);
  if (tasks[t].fails) throw t;
  return 1000 + t;
}
static void submit(int t) {
  char k = tasks[t].kind;
  EV("call", t, k == 'P' || k == 'Q' ? ",\"op\":\"prio\"" : ",\"op\":\"sub\"");
  std::future<int> f;
  switch (k) {
    case 'T': pool->run_task([t]() { body(t); }); break;
    case 'P': pool->run_priority_task([t]() { body(t); }); break;
    case 'K': f = pool->run_packaged_task([t]() { return body(t); }); break;
    default: f = pool->run_priority_packaged_task([t]() { return body(t); });
  }
  { Pause pause_; ev("ret", t, ",\"r\":0"); if (f.valid()) (*futs)[t] = f.share(); }
}
static void client(const std::vector<std::string>& ops) {
  for (auto& o : ops) {
    int a = o.size() > 1 ? std::stoi(o.substr(1)) : 0;
    switch (o[0]) {
      case 's': submit(a); break;
      case 'y': for (int i = 0; i < a; ++i) yield_point(); break;
      case 'w': { EV("call", -1, ",\"op\":\"wait\""); bool r = pool->wait(); EV("ret", -1, std::string(",\"r\":") + (r ? "1" : "0")); break; }
      case 'k': { EV("call", -1, ",\"op\":\"kill\""); pool->kill_all(); EV("ret", -1, ",\"r\":0"); break; }
      case 'z': { EV("call", -1, ",\"op\":\"size\""); int r = pool->queue_size(); EV("ret", -1, ",\"r\":" + std::to_string(r)); break; }
      case 'f': {
        bool have; { Pause pause_; have = futs->count(a); }
        if (!have) break;
        EV("call", a, ",\"op\":\"get\""); int r = -1;
        std::shared_future<int> f; { Pause pause_; f = (*futs)[a]; }
        while (f.wait_for(std::chrono::seconds(0)) != std::future_status::ready) yield_hard();
        try { r = f.get(); } catch (int x) { r = 5000 + x; } catch (const std::future_error&) { r = -2; }
        EV("ret", a, ",\"r\":" + std::to_string(r)); break;
      }
    }
  }
}
static void stuck(const char* w, const std::string& d) { T().line("{\"e\":\"stuck\",\"c\":-1,\"t\":-1,\"what\":\"" + d + "\"}"); T().flush(); _exit(70); }
static void onsig(int s) { T().line("{\"e\":\"signal\",\"c\":-1,\"t\":-1}"); T().flush(); _exit(90 + s); }
int main(int, char** argv) {
  for (int s : {SIGABRT, SIGFPE, SIGSEGV, SIGALRM}) signal(s, onsig);
  on_stuck = stuck;
  std::ifstream f(argv[1]);
  T().open(argv[2]);
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    std::string w; int thr, pol, m; uint64_t seed, rate;
    is >> w >> thr >> seed >> pol >> rate >> m;
    tasks.clear();
    std::map<int, std::shared_future<int>> fm; futs = &fm;
    for (int i = 0; i < m; ++i) { Task t; int c; is >> t.kind >> t.yields >> t.fails >> c; t.kids.resize(c); for (auto& k : t.kids) is >> k; tasks.push_back(t); }
    int nc; is >> nc;
    std::vector<std::vector<std::string>> ops(nc);
    for (auto& o : ops) { int c; is >> c; o.resize(c); for (auto& x : o) is >> x; }
    T().line("{\"e\":\"pool\",\"c\":0,\"t\":-1,\"n\":" + std::to_string(thr) + "}");
    alarm(60);
    sched_start(seed, pol, 400000);
    access_points(seed, rate);
    {
      pool = new ThreadPool(thr);
      std::vector<std::thread> cl;
      for (int i = 1; i < nc; ++i) cl.emplace_back([&ops, i]() { client(ops[i]); });
      client(ops[0]);
      for (auto& t : cl) t.join();
      EV("call", -1, ",\"op\":\"del\"");
      delete pool;
      EV("ret", -1, ",\"r\":0");
    }
    sched_stop();
    alarm(0);
    T().line("{\"e\":\"over\",\"c\":0,\"t\":" + std::to_string(accesses()) + ",\"n\":" + std::to_string(sched_steps()) + ",\"h\":" + ffv::q(sched_hash()) + "}");
  }
  T().flush();
  _exit(0);
}
