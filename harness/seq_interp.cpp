// Stand-alone interpolation (ThieleInterpolator, PolyReconst). Input: one history per line; output: ndjson events.
#include "trace.hpp"
#include "firefly/FFThieleInterpolator.hpp"
#include "firefly/PolyReconst.hpp"
#include "firefly/ReconstHelper.hpp"
#include <csignal>
#include <fstream>
#include <iostream>
#include <sstream>
using namespace firefly;
namespace ffv { bool sched_active() { return false; } }
using std::string; using std::vector;
static std::istringstream* is;
static string W() { string s; *is >> s; return s; }
static int I() { return std::stoi(W()); }
static FFInt F() { FFInt f; f.n = std::stoull(W()); return f; }
static string Q(const FFInt& x) { return ffv::q((uint64_t)x.n); }
static string Q(const mpz_class& z) { return ffv::q(z.get_str()); }
static string pf(const ff_map& m) { string s = "["; for (auto& t : m) { if (s.size() > 1) s += ","; s += "[" + ffv::ints(t.first) + "," + Q(t.second) + "]"; } return s + "]"; }
struct Term { vector<uint32_t> e; mpz_class n, d; };
static vector<Term> TV(int n) { vector<Term> v; int k = I(); for (int i = 0; i < k; ++i) { Term t; for (int j = 0; j < n; ++j) t.e.push_back(I()); t.n = mpz_class(W()); t.d = mpz_class(W()); v.push_back(t); } return v; }
static string tv(const vector<Term>& v) { return ffv::arr(v, [](const Term& t) { return "[" + Q(t.n) + "," + Q(t.d) + "," + ffv::ints(t.e) + "]"; }); }
static FFInt val(const vector<Term>& v, const vector<FFInt>& x) {
  FFInt r = 0;
  for (auto& t : v) { FFInt m = FFInt(t.n) / FFInt(t.d); for (size_t i = 0; i < x.size(); ++i) for (uint32_t k = 0; k < t.e[i]; ++k) m = m * x[i]; r = r + m; }
  return r;
}
static string fv(const vector<FFInt>& v) { return ffv::arr(v, [](const FFInt& x) { return Q(x); }); }
static uint64_t rs;
static uint64_t rnd() { rs += 0x9e3779b97f4a7c15ull; uint64_t z = rs; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static FFInt rf() { FFInt f; f.n = rnd() % FFInt::p; return f; }

// thiele <prime> <seed> <max> num den
static void thiele() {
  FFInt::set_new_prime(std::stoull(W())); rs = std::stoull(W()); int mx = I();
  auto N = TV(1), D = TV(1);
  ffv::T().line("{\"e\":\"thiele\",\"p\":" + ffv::q((uint64_t)FFInt::p) + ",\"num\":" + tv(N) + ",\"den\":" + tv(D) + "}");
  ThieleInterpolator t;
  for (int i = 0; i < mx; ++i) {
    FFInt x = rf(), d = val(D, {x});
    if (d == 0) continue;
    FFInt y = val(N, {x}) / d;
    bool done = t.add_point(y, x);
    if (i % 3 == 1) { ThieleInterpolator u(std::move(t)); t = std::move(u); }
    if (i % 3 == 2) { ThieleInterpolator u; u = t; t = u; }
    ffv::T().line("{\"e\":\"point\",\"x\":" + Q(x) + ",\"y\":" + Q(y) + ",\"done\":" + (done ? "true" : "false") + "}");
    if (done) { auto r = t.get_result(); ffv::T().line("{\"e\":\"tres\",\"num\":" + pf(r.first) + ",\"den\":" + pf(r.second) + "}"); return; }
  }
  ffv::T().line("{\"e\":\"giveup\"}");
}
// poly <n> <deg> <nb bounds...> <newton> <bt> <embedded> <seed> <max> <ahead> terms
static void poly() {
  int n = I(), deg = I(), nb = I(); vector<uint32_t> bd; for (int i = 0; i < nb; ++i) bd.push_back(I());
  bool newton = I(), bt = I(), emb = I(); rs = std::stoull(W()); int mx = I(); int thr = I(); bool noise = I();
  auto P = TV(n);
  FFInt::set_new_prime(primes()[0]);
  PolyReconst::reset();
  PolyReconst::use_bt = true;
  PolyReconst rec(n, deg, emb);
  rec.set_seed(rs);
  if (rs % 2) rec.generate_anchor_points();
  else { vector<FFInt> a; for (int i = 0; i < n; ++i) a.push_back(rf()); rec.set_anchor_points(a, true); }
  if (nb) rec.set_individual_degree_bounds(bd);
  rec.set_newton(newton); rec.set_bt(bt);
  if (thr) rec.set_bt_threshold(thr);
  ffv::T().line("{\"e\":\"poly\",\"n\":" + std::to_string(n) + ",\"deg\":" + std::to_string(deg) + ",\"emb\":" + (emb ? "true" : "false") + ",\"poly\":" + tv(P) + ",\"p\":" + ffv::q((uint64_t)FFInt::p) + ",\"anchors\":" + fv(rec.get_rand_zi_vec(vector<uint32_t>(n, 1))) + "}");
  uint32_t cp = 0;
  for (int i = 0; i < mx; ++i) {
    if (emb && rec.is_new_prime()) { ffv::T().line("{\"e\":\"emb\",\"res\":" + pf(rec.get_result_ff().coefs) + "}"); return; }
    if (rec.is_done()) break;
    if (rec.get_prime() != cp) {
      cp = rec.get_prime();
      FFInt::set_new_prime(primes()[cp]);
      rec.generate_anchor_points();
      ffv::T().line("{\"e\":\"prime\",\"k\":" + std::to_string(cp) + ",\"p\":" + ffv::q((uint64_t)FFInt::p) + ",\"anchors\":" + fv(rec.get_rand_zi_vec(vector<uint32_t>(n, 1))) + "}");
    }
    auto o = rec.get_zi_order();
    auto x = rec.get_rand_zi_vec(o);
    FFInt y = val(P, x);
    ffv::T().line("{\"e\":\"feed\",\"o\":" + ffv::ints(o) + ",\"x\":" + fv(x) + ",\"y\":" + Q(y) + "}");
    if (emb) rec.feed(y);
    else {
      // values for another point or of another field are ignored
      if (noise && i % 3 == 0) { auto o2 = o; o2[0] += 7; rec.feed(rf(), o2, cp); rec.feed(rf(), o, cp + 1); }
      rec.feed(y, o, cp);
      rec.interpolate();
    }
  }
  if (!emb && rec.is_done()) {
    Polynomial r = rec.get_result();
    ffv::T().line("{\"e\":\"pres\",\"res\":" + ffv::arr(r.coefs, [](const Monomial& m) { return "[" + Q(m.coef.numerator) + "," + Q(m.coef.denominator) + "," + ffv::ints(m.powers) + "]"; }) + "}");
  } else ffv::T().line("{\"e\":\"giveup\"}");
}
static void onsig(int s) { ffv::T().line("{\"e\":\"giveup\"}"); ffv::T().flush(); _exit(90 + s); }
int main(int argc, char** argv) {
  for (int s : {SIGABRT, SIGFPE, SIGSEGV, SIGALRM}) signal(s, onsig);
  std::ifstream f(argv[1]);
  ffv::T().open(argv[2]);
  string line;
  while (std::getline(f, line)) {
    std::istringstream ls(line); is = &ls;
    alarm(20);
    if (W() == "thiele") thiele(); else poly();
    alarm(0);
  }
  ffv::T().flush();
  _exit(0);
}
