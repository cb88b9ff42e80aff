// Runs one reconstruction scenario against the real library under the deterministic scheduler and logs the
// events visible at the library's boundaries as an ndjson trace.
#include "fns.hpp"
#include "sched.hpp"
#include "trace.hpp"
#include "firefly/Reconstructor.hpp"
#include <atomic>
#include <thread>

using namespace firefly;
using namespace ffv;

static Scenario sc;
static uint64_t cur_bb_prime = 0;
static uint64_t evals = 0, max_evals = 1000000;
static int active_evals = 0;
static bool in_ctor = true;
static int64_t jump_at = -1, jump_by = 0;

static std::string fq(const FFInt& x) { return ffv::q((uint64_t)x.n); }

static inline const FFInt& lane(const FFInt& x, int) { return x; }
template<int N> static inline const FFInt& lane(const FFIntVec<N>& x, int i) { return x.vec[i]; }
template<class T> struct Lanes { static const int n = 1; };
template<int N> struct Lanes<FFIntVec<N>> { static const int n = N; };
static inline void setl(FFInt& x, int, const FFInt& v) { x = v; }
template<int N> static inline void setl(FFIntVec<N>& x, int i, const FFInt& v) { x.vec[i] = v; }

static std::string last_line;
static void last_line_reset() { last_line.clear(); }
class BB : public BlackBoxBase<BB> {
public:
  std::vector<Fn> fns;
  uint64_t p = 0;
  template<class FT> std::vector<FT> operator()(const std::vector<FT>& x) {
    const int L = Lanes<FT>::n;
    uint64_t k = ++evals;
    if (evals > max_evals) { T().line("{\"e\":\"stuck\",\"what\":\"too many evaluations\",\"detail\":\"\"}"); T().flush(); _exit(70); }
    if ((int64_t)k == jump_at) time_advance_s(jump_by);
    std::string xs = "[";
    std::vector<std::vector<uint64_t>> pts(L);
    for (int l = 0; l < L; ++l) {
      if (l) xs += ",";
      xs += arr(x, [&](const FT& v) { return fq(lane(v, l)); });
      for (auto& v : x) pts[l].push_back(lane(v, l).n);
    }
    xs += "]";
    T().line("{\"e\":\"eb\",\"th\":" + std::to_string(self()) + ",\"k\":" + std::to_string(k) + ",\"p\":" + ffv::q((uint64_t)FFInt::p) + ",\"bbp\":" + ffv::q(p) + ",\"x\":" + xs + "}");
    yield_point();
    std::vector<FT> r(fns.size());
    std::string vs = "[";
    uint64_t mp = p ? p : FFInt::p;
    std::vector<std::vector<uint64_t>> vals(L);
    for (int l = 0; l < L; ++l) {
      for (size_t i = 0; i < fns.size(); ++i) {
        uint64_t v = ev(fns[i], pts[l], mp);
        FFInt f; f.n = v;
        setl(r[i], l, f);
        vals[l].push_back(v);
      }
      if (l) vs += ",";
      vs += arr(vals[l], [](uint64_t v) { return ffv::q(v); });
    }
    vs += "]";
    yield_point();
    if (sc.i("slow")) for (long i = 0, m = (k * 2654435761u >> 7) % (sc.i("slow") + 1); i < m; ++i) yield_hard();
    T().line("{\"e\":\"ee\",\"th\":" + std::to_string(self()) + ",\"k\":" + std::to_string(k) + ",\"p\":" + ffv::q((uint64_t)FFInt::p) + ",\"bbp\":" + ffv::q(p) + ",\"v\":" + vs + "}");
    return r;
  }
  int fields = 0;
  void prime_changed() {
    last_line_reset();
    if (++fields > sc.i("maxfields", 60)) { T().line("{\"e\":\"stuck\",\"what\":\"too many prime fields\",\"detail\":\"\"}"); T().flush(); _exit(70); }
    T().line("{\"e\":\"prime\",\"th\":" + std::to_string(self()) + ",\"p\":" + ffv::q((uint64_t)FFInt::p) + "}");
    yield_point();
    p = FFInt::p;
    for (auto& f : fns) { prep(f.num, p); prep(f.den, p); }
    yield_point();
    T().line("{\"e\":\"primed\",\"th\":" + std::to_string(self()) + ",\"p\":" + ffv::q((uint64_t)FFInt::p) + "}");
  }
};

static std::string jpol(const Polynomial& p) {
  return arr(p.coefs, [](const Monomial& m) { return "[" + ffv::q(m.coef.numerator.get_str()) + "," + ffv::q(m.coef.denominator.get_str()) + "," + ints(m.powers) + "]"; });
}
static std::string jrf(const RationalFunction& rf, size_t n) {
  std::string fs = arr(rf.get_factors(), [](const RationalFunction& f) {
    return "{\"num\":" + jpol(f.numerator) + ",\"den\":" + jpol(f.denominator) + ",\"nv\":" + std::to_string(f.numerator.get_var_pos()) + ",\"dv\":" + std::to_string(f.denominator.get_var_pos()) + "}";
  });
  auto om = rf.get_order_map();
  std::vector<uint32_t> ord(n);
  for (size_t i = 0; i < n; ++i) ord[i] = om.empty() ? i : om[i];
  std::string vn;
  std::vector<std::string> vars;
  for (size_t i = 0; i < n; ++i) vars.push_back("x" + std::to_string(i + 1));
  return "{\"num\":" + jpol(rf.numerator) + ",\"den\":" + jpol(rf.denominator) + ",\"order\":" + ints(ord) + ",\"factors\":" + fs +
         (sc.i("strings") ? ",\"str\":" + ffv::q(rf.to_string(vars)) + ",\"hor\":" + ffv::q(rf.generate_horner(vars)) : std::string("")) + "}";
}

// --- observation of the calls the main loop makes to the per-function objects (linker --wrap) ------------
#define WRAP_FEED "_ZN7firefly10RatReconst4feedERKSt6vectorINS_5FFIntESaIS2_EES6_RKS1_IS1_IjSaIjEESaIS8_EEj"
#define WRAP_INTERP "_ZN7firefly10RatReconst11interpolateEv"
#define WRAP_CTOR "_ZN7firefly10RatReconstC1Ej"
static std::map<const void*, int> item_of;
static std::vector<const void*> created;
static int next_item = 0;
#ifdef WRAP_CTOR
extern "C" {
  void __real_ratctor(RatReconst*, uint32_t) asm("__real_" WRAP_CTOR) __attribute__((weak));
  void __wrap_ratctor(RatReconst* t, uint32_t n) asm("__wrap_" WRAP_CTOR);
  void __wrap_ratctor(RatReconst* t, uint32_t n) {
    char probe;
    long d = (char*)t - &probe;
    if (d < 0) d = -d;
    if (d > (16l << 20)) { item_of[t] = next_item % (int)std::max<size_t>(1, sc.fns.size()); ++next_item; }
    __real_ratctor(t, n);
  }
}
#endif
static int item(const void* r) { auto it = item_of.find(r); if (it != item_of.end()) return it->second; item_of[r] = next_item; return next_item++; }

#ifdef WRAP_FEED
typedef std::pair<bool, bool> PBB;
extern "C" {
  PBB __real_ratfeed(RatReconst*, const std::vector<FFInt>&, const std::vector<FFInt>&, const std::vector<std::vector<uint32_t>>&, const uint32_t) asm("__real_" WRAP_FEED) __attribute__((weak));
  PBB __wrap_ratfeed(RatReconst* t, const std::vector<FFInt>& ti, const std::vector<FFInt>& num, const std::vector<std::vector<uint32_t>>& zo, const uint32_t pr) asm("__wrap_" WRAP_FEED);
  PBB __wrap_ratfeed(RatReconst* t, const std::vector<FFInt>& ti, const std::vector<FFInt>& num, const std::vector<std::vector<uint32_t>>& zo, const uint32_t pr) {
    if (!sc.i("fscan")) {
      Pause ps;
      std::string ln = "\"a\":" + arr(t->get_anchor_points(), fq) + ",\"s\":" + arr(t->get_zi_shift_vec(), fq);
      if (ln != last_line) { last_line = ln; T().line("{\"e\":\"line\"," + ln + "}"); }
    }
    std::string s = "{\"e\":\"feed\",\"i\":" + std::to_string(item(t)) + ",\"th\":" + std::to_string(self()) + ",\"pr\":" + std::to_string(pr) +
      ",\"t\":" + arr(ti, fq) + ",\"y\":" + arr(num, fq) + ",\"o\":" + arr(zo, [](const std::vector<uint32_t>& v) { return ints(v); }) + "}";
    T().line(s);
    return __real_ratfeed(t, ti, num, zo, pr);
  }
}
#endif
#ifdef WRAP_INTERP
typedef std::tuple<bool, bool, uint32_t> TBB;
extern "C" {
  TBB __real_ratint(RatReconst*) asm("__real_" WRAP_INTERP) __attribute__((weak));
  TBB __wrap_ratint(RatReconst* t) asm("__wrap_" WRAP_INTERP);
  TBB __wrap_ratint(RatReconst* t) {
    int i = item(t);
    T().line("{\"e\":\"ib\",\"i\":" + std::to_string(i) + ",\"th\":" + std::to_string(self()) + "}");
    TBB r = __real_ratint(t);
    T().line("{\"e\":\"ie\",\"i\":" + std::to_string(i) + ",\"th\":" + std::to_string(self()) + ",\"ran\":" + (std::get<0>(r) ? "true" : "false") + ",\"done\":" + (std::get<1>(r) ? "true" : "false") + ",\"pr\":" + std::to_string(std::get<2>(r)) + "}");
    return r;
  }
}
#endif

static void stuck(const char* w, const std::string& d) {
  T().line("{\"e\":\"stuck\",\"what\":" + ffv::q(w) + ",\"detail\":" + ffv::q(d) + "}");
  T().flush();
  _exit(70);
}
static void crash() {
  T().line("{\"e\":\"crash\",\"at\":" + std::to_string(fs_count()) + "}");
  T().flush();
  _exit(77);
}
static void fsop(const char* op, const char* a, const char* b, int64_t n) {
  if (sc.i("fslog")) T().line("{\"e\":\"fs\",\"op\":" + ffv::q(op) + ",\"a\":" + ffv::q(a) + ",\"b\":" + ffv::q(b) + ",\"n\":" + std::to_string(n) + ",\"k\":" + std::to_string(fs_count()) + "}");
}
static bool finished_normally = false;
static void at_exit() {
  if (!finished_normally) { T().line("{\"e\":\"exit\",\"what\":\"process exited\"}"); }
  T().flush();
}
static std::vector<std::vector<uint64_t>> vecs(const std::string& key) {
  std::vector<std::vector<uint64_t>> r;
  for (auto& m : sc.multi) if (m.first == key) { std::vector<uint64_t> v; for (auto& s : m.second) v.push_back(std::stoull(s)); r.push_back(v); }
  return r;
}

int main(int argc, char** argv) {
  if (argc < 3 || !sc.load(argv[1])) return 2;
  T().open(argv[2]);
  std::atexit(at_exit);
  on_stuck = stuck; on_crash = crash; on_fs_op = fsop;
  max_evals = sc.i("maxevals", 200000);
  size_t n = sc.i("n", 1);
  BB bb; bb.fns = sc.fns;
  uint64_t seed = sc.i("seed", 1);
  time_virtual(true, 1600000000 + seed);
  time_set_step_ns(sc.i("tstep", 1000));
  jump_at = sc.i("jumpat", -1); jump_by = sc.i("jumpby", 3600);
  fs_watch("ff_save", sc.i("crashat", -1), sc.i("crashmode", 0));
  int threads = sc.i("threads", 1), bunch = sc.i("bunch", 1);
  sched_start(sc.i("sseed", 1), sc.i("policy", 0), sc.i("maxsteps", 20000000));
  {
    Reconstructor<BB> rec(n, threads, bunch, bb, sc.i("verb", 0));
    if (sc.i("scan")) rec.enable_shift_scan();
    if (sc.i("fscan")) rec.enable_factor_scan();
    if (sc.i("safe")) rec.set_safe_interpolation();
    std::vector<std::string> tags = sc.v("tagnames");
    if (sc.i("tags") == 1) rec.set_tags();
    if (sc.i("tags") == 2) rec.set_tags(tags);
    auto an = vecs("anchor"); if (!an.empty()) rec.set_anchor_points(an);
    auto sh = vecs("shift"); if (!sh.empty()) rec.set_shifts(sh);
    if (sc.i("precomp")) rec.load_precomputed_probes();
    if (sc.i("stopfac")) rec.stop_after_factor_scan();
    if (sc.i("resume")) rec.resume_from_saved_state();
    bool poll_stop = false;
    std::thread poller;
    uint64_t polls = 0, got = 0;
    auto poll = [&](int th) {
      T().line("{\"e\":\"pollb\",\"th\":" + std::to_string(th) + "}");
      auto v = rec.get_early_results();
      ++polls; got += v.size();
      std::string s = arr(v, [&](const std::pair<std::string, RationalFunction>& x) { return "{\"tag\":" + ffv::q(x.first) + ",\"rf\":" + jrf(x.second, n) + "}"; });
      T().line("{\"e\":\"early\",\"th\":" + std::to_string(th) + ",\"fs\":" + s + "}");
      return v.size();
    };
    long npoll = sc.i("early");
    if (npoll) poller = std::thread([&]() {
      long m = 0;
      while (!poll_stop && m < npoll) {
        for (long w = 0, W = 1 + (m * 7919 + seed) % (1 + sc.i("earlywait", 20)); w < W && !poll_stop; ++w) yield_hard();
        if (poll_stop) break;
        poll(self()); ++m;
      }
    });
    std::vector<std::string> lim = sc.v("limit");
    if (lim.empty()) lim.push_back("300");
    for (auto& l : lim) {
      T().line("{\"e\":\"rb\",\"limit\":" + l + "}");
      rec.reconstruct(std::stoul(l));
      T().line(std::string("{\"e\":\"re\",\"done\":") + (rec.reconstruction_done() ? "true" : "false") + "}");
    }
    if (npoll) { poll_stop = true; poller.join(); }
    if (sc.i("earlyend")) poll(0);
    auto res = rec.get_result();
    T().line("{\"e\":\"res\",\"fs\":" + arr(res, [&](const RationalFunction& r) { return jrf(r, n); }) + "}");
    if (sc.i("facstr")) {
      std::vector<std::string> vars;
      for (int q = 0; q < n; ++q) vars.push_back("v" + std::to_string(q + 1));
      T().line("{\"e\":\"facs\",\"s\":" + arr(rec.get_factors_string(vars), [](const std::string& x) { return ffv::q(x); }) + "}");
    }
  }
  sched_stop();
  T().line("{\"e\":\"end\",\"steps\":" + std::to_string(sched_steps()) + ",\"switches\":" + std::to_string(sched_switches()) + ",\"hash\":" + ffv::q(sched_hash()) + ",\"evals\":" + std::to_string(evals) + ",\"fsops\":" + std::to_string(fs_count()) + "}");
  finished_normally = true;
  T().flush();
  _exit(0);
}
