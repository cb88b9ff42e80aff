// Stand-alone numerical functions and classes of the library. Input: one call per line (tokens); output: one JSON value per line.
#include "trace.hpp"
#include "firefly/DenseSolver.hpp"
#include "firefly/FFIntVec.hpp"
#include "firefly/HornerGenerator.hpp"
#include "firefly/Poly.hpp"
#include "firefly/Polynomial.hpp"
#include "firefly/PolynomialFF.hpp"
#include "firefly/RationalFunction.hpp"
#include "firefly/RationalFunctionFF.hpp"
#include "firefly/ShuntingYardParser.hpp"
#include "firefly/utils.hpp"
#include <csignal>
#include <fstream>
#include <iostream>
#include <sstream>
using namespace firefly;
namespace ffv { bool sched_active() { return false; } }
using std::string; using std::vector;
static std::istringstream* is;
static string W() { string s; *is >> s; return s; }
static uint32_t U() { return std::stoul(W()); }
static mpz_class Z() { return mpz_class(W()); }
static FFInt F() { FFInt f; f.n = std::stoull(W()); return f; }
static string Q(const FFInt& x) { return ffv::q((uint64_t)x.n); }
static string Q(const mpz_class& z) { return ffv::q(z.get_str()); }
static string fv(const vector<FFInt>& v) { return ffv::arr(v, [](const FFInt& x) { return Q(x); }); }
static string fm(const mat_ff<FFInt>& m) { return ffv::arr(m, [](const vector<FFInt>& r) { return fv(r); }); }
static vector<FFInt> FV(uint32_t n) { vector<FFInt> v; for (uint32_t i = 0; i < n; ++i) v.push_back(F()); return v; }
static mat_ff<FFInt> FM(uint32_t r, uint32_t c) { mat_ff<FFInt> m; for (uint32_t i = 0; i < r; ++i) m.push_back(FV(c)); return m; }
static vector<uint32_t> UV(uint32_t n) { vector<uint32_t> v; for (uint32_t i = 0; i < n; ++i) v.push_back(U()); return v; }
static PolynomialFF PF(uint32_t n) { ff_map m; uint32_t k = U(); for (uint32_t i = 0; i < k; ++i) { auto e = UV(n); FFInt c = F(); m[e] = c; } return PolynomialFF(n, m); }
static string pf(const ff_map& m) { string s = "["; for (auto& t : m) { if (s.size() > 1) s += ","; s += "[" + ffv::ints(t.first) + "," + Q(t.second) + "]"; } return s + "]"; }
static string pf(const PolynomialFF& p) { return pf(p.coefs); }
static string qn(const RationalNumber& r) { return "[" + Q(r.numerator) + "," + Q(r.denominator) + "]"; }
static RationalNumber RN() { mpz_class a = Z(), b = Z(); return RationalNumber(a, b); }
static vector<Monomial> MV(uint32_t n) { vector<Monomial> v; uint32_t k = U(); for (uint32_t i = 0; i < k; ++i) { auto e = UV(n); RationalNumber r = RN(); v.push_back(Monomial(e, r)); } return v; }
static Polynomial PQ(uint32_t n) { rn_map m; for (auto& t : MV(n)) m.emplace(t.powers, t.coef); return Polynomial(m); }
static string pq(const Polynomial& p) { return ffv::arr(p.coefs, [](const Monomial& m) { return "[" + ffv::ints(m.powers) + "," + Q(m.coef.numerator) + "," + Q(m.coef.denominator) + "]"; }); }
static Poly UP() { vector<FFInt> v = FV(U()); return Poly(v); }
static string B(bool b) { return b ? "\"1\"" : "\"0\""; }
static void prime() { FFInt::set_new_prime(std::stoull(W())); }

template<int N> static string linv(const string& op, uint32_t n) {
  typedef FFIntVec<N> V;
  auto get = [&]() { std::array<FFInt, N> a; for (int i = 0; i < N; ++i) a[i] = F(); return V(a); };
  mat_ff<V> a(n, vector<V>(n)); vector<V> b(n);
  for (auto& r : a) for (auto& x : r) x = get();
  for (auto& x : b) x = get();
  mat_ff<V> res; vector<int> p;
  if (op == "gauss" || op == "gaussf") { for (uint32_t i = 0; i < n; ++i) a[i].push_back(b[i]); res = {solve_gauss_system(a, n, op == "gaussf")}; }
  else if (op == "inv") { calc_inverse(a, n); res = a; }
  else {
    calc_lu_decomposition(a, p, n);
    if (op == "lu") res = a;
    if (op == "lusolve") res = {solve_lu(a, p, b, n)};
    if (op == "luinv") calc_inverse_lu(a, res, p, n);
    if (op == "ludet") res = {{calc_determinant_lu(a, p, n)}};
  }
  string s = "[";
  for (int k = 0; k < N; ++k) {
    if (k) s += ",";
    if (op == "lu") s += "[" ;
    string body = ffv::arr(res, [&](const vector<V>& r) { return ffv::arr(r, [&](const V& x) { return Q(x.vec[k]); }); });
    s += body;
    if (op == "lu") s += "," + ffv::arr(p, [](int x) { return std::to_string(x); }) + "]";
  }
  return s + "]";
}
static string lin(const string& op) {
  prime();
  uint32_t n = U();
  mat_ff<FFInt> a = FM(n, n), res; vector<FFInt> b = FV(n); vector<int> p;
  if (op == "gauss" || op == "gaussf") { for (uint32_t i = 0; i < n; ++i) a[i].push_back(b[i]); return "[" + fv(solve_gauss_system(a, n, op == "gaussf")) + "]"; }
  if (op == "inv") { calc_inverse(a, n); return fm(a); }
  calc_lu_decomposition(a, p, n);
  if (op == "lu") return "[" + fm(a) + "," + ffv::arr(p, [](int x) { return std::to_string(x); }) + "]";
  if (op == "lusolve") return "[" + fv(solve_lu(a, p, b, n)) + "]";
  if (op == "luinv") { calc_inverse_lu(a, res, p, n); return fm(res); }
  if (op == "ludet") return "[[" + Q(calc_determinant_lu(a, p, n)) + "]]";
  return "\"?\"";
}
static string ff(const string& op) {
  prime();
  uint32_t n = U();
  PolynomialFF a = PF(n);
  if (op == "add") return pf(a + PF(n));
  if (op == "sub") return pf(a - PF(n));
  if (op == "mul") return pf(a * PF(n));
  if (op == "addq") { a += PF(n); return pf(a); }
  if (op == "subq") { a -= PF(n); return pf(a); }
  if (op == "scale") return pf(a * F());
  if (op == "div") return pf(a / F());
  if (op == "scaleq") { a *= F(); return pf(a); }
  if (op == "divq") { a /= F(); return pf(a); }
  if (op == "mulz") return pf(a.mul(U()));
  if (op == "homog") { auto r = a.homogenize(U()); return pf(r); }
  if (op == "shift") return pf(a.add_shift(FV(n)));
  if (op == "calc") return Q(a.calc(FV(n)));
  if (op == "copycalc") { PolynomialFF b; b = a; PolynomialFF c(b); return Q(c.calc(FV(n))); }
  if (op == "calcm") { return Q(a.calc_n_m_1(FV(n - 1))); }
  // several evaluations with changes in between: the polynomial may keep a precomputed form
  if (op == "calcseq") {
    string r = "[";
    uint32_t k = U();
    for (uint32_t i = 0; i < k; ++i) {
      string o = W();
      if (o == "add") a += PF(n);
      else if (o == "sub") a -= PF(n);
      else if (o == "scale") a *= F();
      else if (o == "div") a /= F();
      else if (o == "copy") { PolynomialFF b(a); a = b; }
      else if (o == "deg") { a.max_deg(); }
      if (i) r += ",";
      auto x = FV(n - 1); r += Q(a.calc_n_m_1(x));
    }
    return r + "]";
  }
  if (op == "clean") { a.remove_zero_coefs(); return pf(a); }
  if (op == "zero") return B(a.zero());
  if (op == "maxdeg") return "[" + ffv::ints(a.max_deg()) + "," + ffv::ints(a.min_deg()) + "]";
  if (op == "maxdegq") { a.max_deg(); string o = W(); if (o == "add") a += PF(n); else a -= PF(n); return "[" + ffv::ints(a.max_deg()) + "," + ffv::ints(a.min_deg()) + "]"; }
  return "\"?\"";
}
static string rn(const string& op) {
  RationalNumber a = RN();
  if (op == "new") return "[" + qn(a) + "]";
  if (op == "neg") { auto r = -a; return "[" + qn(r) + "," + qn(a) + "]"; }
  RationalNumber b = RN();
  if (op == "eq") return B(a == b);
  if (op == "mul") { auto r = a * b; return "[" + qn(r) + "," + qn(a) + "," + qn(b) + "]"; }
  if (op == "gcd") { auto r = gcd(a, b); return "[" + qn(r) + "," + qn(a) + "," + qn(b) + "]"; }
  RationalNumber c = a;
  if (op == "mulq") c *= b;
  if (op == "addq") c += b;
  if (op == "subq") c -= b;
  if (op == "addself") c += c;
  if (op == "subself") c -= c;
  if (op == "mulself") c *= c;
  return "[" + qn(c) + "," + qn(a) + "," + qn(b) + "]";
}
static string mon(const string& op) {
  uint32_t n = U();
  vector<Monomial> v = MV(n);
  if (op == "mul") { Monomial r = v[0] * v[1]; return ffv::arr(vector<Monomial> {r, v[0], v[1]}, [](const Monomial& m) { return "[" + ffv::ints(m.powers) + "," + Q(m.coef.numerator) + "," + Q(m.coef.denominator) + "]"; }); }
  if (op == "neg") { Monomial r = -v[0]; return ffv::arr(vector<Monomial> {r, v[0]}, [](const Monomial& m) { return "[" + ffv::ints(m.powers) + "," + Q(m.coef.numerator) + "," + Q(m.coef.denominator) + "]"; }); }
  if (op == "cmp") return B(v[0] < v[1]).substr(0, 2) + (v[0] > v[1] ? "1\"" : "0\"");
  return "\"?\"";
}
static string pol(const string& op) {
  prime();
  uint32_t n = U();
  Polynomial a = PQ(n);
  if (op == "toff") return pf(a.convert_to_PolynomialFF());
  if (op == "scale") { a *= RN(); return pq(a); }
  if (op == "sort") { a.sort(); return pq(a); }
  if (op == "zero") return B(a.zero());
  if (op == "clear") { a.clear(); return pq(a); }
  return "\"?\"";
}
static string up(const string& op) {
  prime();
  Poly a = UP();
  if (op == "deg") return std::to_string(a.get_deg());
  if (op == "scale") return fv((a * F()).coeff);
  if (op == "divs") return fv((a / F()).coeff);
  if (op == "roots") return fv(a.roots());
  if (op == "rev") { a.rev(); return fv(a.coeff); }
  Poly b = UP();
  if (op == "add") return fv((a + b).coeff);
  if (op == "sub") return fv((a - b).coeff);
  if (op == "mul") return fv((a * b).coeff);
  if (op == "divmod") { Poly q = a / b, r = a % b; return "[" + fv(q.coeff) + "," + fv(r.coeff) + "]"; }
  if (op == "gcd") { Poly g = gcd(a, b); return fv(g.coeff); }
  return "\"?\"";
}
static string vdm() {
  prime();
  uint32_t n = U(), m = U();
  vector<vector<uint32_t>> degs; for (uint32_t i = 0; i < m; ++i) degs.push_back(UV(n + 1));
  vector<FFInt> val = FV(n), nums = FV(m);
  return pf(solve_vandermonde_system(degs, nums, val));
}
// ---- printing: the string and its values according to the library's own parser
static string printed(const string& s, const vector<string>& vars, const vector<vector<FFInt>>& pts) {
  ShuntingYardParser par(vector<string> {s}, vars);
  par.precompute_tokens();
  string r = "[";
  for (auto& x : pts) { if (r.size() > 1) r += ","; r += Q(par.evaluate_pre(x)[0]); }
  return "{\"s\":" + ffv::q(s) + ",\"v\":" + r + "]}";
}
static RationalFunction RF(uint32_t n) {
  // n numpoly denpoly nfactors {varpos numpoly denpoly} k {from to}
  Polynomial a = PQ(n), b = PQ(n);
  RationalFunction f(a, b);
  uint32_t k = U();
  for (uint32_t i = 0; i < k; ++i) { uint32_t pos = U(); Polynomial c = PQ(1), d = PQ(1); c.set_var_pos(pos); d.set_var_pos(pos); f.add_factor(RationalFunction(c, d)); }
  std::unordered_map<uint32_t, uint32_t> om; k = U();
  for (uint32_t i = 0; i < k; ++i) { uint32_t x = U(); om[x] = U(); }
  if (k) f.set_var_order(om);
  return f;
}
static string pr(const string& op) {
  prime();
  uint32_t nv = U(); vector<string> vars; for (uint32_t i = 0; i < nv; ++i) vars.push_back(W());
  vector<vector<FFInt>> pts; uint32_t k = U(); for (uint32_t i = 0; i < k; ++i) pts.push_back(FV(nv));
  string s;
  if (op == "rf") s = RF(nv).to_string(vars);
  if (op == "rfh") s = RF(nv).generate_horner(vars);
  if (op == "poly") s = PQ(nv).to_string(vars);
  if (op == "polyh") s = PQ(nv).generate_horner(vars);
  if (op == "hrn") { rn_map m; for (auto& t : MV(nv)) m.emplace(t.powers, t.coef); s = generate_horner_rn(m, vars); }
  if (op == "hmon") s = generate_horner_mon(MV(nv), vars);
  if (op == "hff") s = generate_horner_ff(PF(nv).coefs, vars);
  if (op == "ff") s = PF(nv).to_string(vars);
  if (op == "rff") { PolynomialFF a = PF(nv), b = PF(nv); s = RationalFunctionFF(a, b).to_string(vars); }
  if (op == "rn") s = RN().string();
  if (op == "rnout") { std::ostringstream o; o << RN(); s = o.str(); }
  return printed(s, vars, pts);
}
static void onsig(int s) { ffv::T().flush(); _exit(90 + s); }
int main(int argc, char** argv) {
  for (int s : {SIGABRT, SIGFPE, SIGSEGV, SIGALRM}) signal(s, onsig);
  std::ifstream f(argv[1]);
  ffv::T().open(argv[2]);
  string line;
  while (std::getline(f, line)) {
    std::istringstream ls(line); is = &ls;
    string kind = W(), op, r;
    alarm(60);
    if (kind == "crt") { mpz_class a = Z(), m = Z(), b = Z(), k = Z(); auto t = run_chinese_remainder({a, m}, {b, k}); r = "[" + Q(t.first) + "," + Q(t.second) + "]"; }
    else if (kind == "wang" || kind == "mqrr") { mpz_class a = Z(), m = Z(); auto t = kind == "wang" ? get_rational_coef(a, m) : get_rational_coef_mqrr(a, m); r = "[" + B(t.first) + "," + Q(t.second.numerator) + "," + Q(t.second.denominator) + "]"; }
    else if (kind == "vdm") r = vdm();
    else if (kind == "perm") {   // all candidates for a shift, as the scan enumerates them
      uint32_t n = U(); vector<uint32_t> c(n); vector<vector<uint32_t>> v = {c};
      while (v.size() < 3000) { auto q = generate_next_permutation(c); if (!q.first) break; c = q.second; v.push_back(c); }
      r = ffv::arr(v, [](const vector<uint32_t>& x) { return ffv::ints(x); });
    }
    else if (kind == "poss") r = ffv::arr(generate_possible_shifts(U()), [](const vector<uint32_t>& x) { return ffv::ints(x); });
    else if (kind == "bun") {
      uint32_t q = U(), thr = U(), mx = U(), fr = U(), left = q; vector<uint32_t> v;
      while (left && v.size() <= q) { v.push_back(compute_bunch_size(left, thr, mx)); left = v.back() > left ? 0 : left - v.back(); }
      r = "[" + ffv::ints(v) + "," + std::to_string(compute_job_number(q, fr, thr, mx)) + "]";
    }
    else {
      op = W();
      if (kind == "lin") r = lin(op);
      else if (kind == "linv") {
        prime(); uint32_t N = U(), n = U();
        switch (N) { case 2: r = linv<2>(op, n); break; case 4: r = linv<4>(op, n); break; case 8: r = linv<8>(op, n); break; case 16: r = linv<16>(op, n); break; default: r = linv<32>(op, n); }
      }
      else if (kind == "ff") r = ff(op);
      else if (kind == "rn") r = rn(op);
      else if (kind == "mon") r = mon(op);
      else if (kind == "pol") r = pol(op);
      else if (kind == "up") r = up(op);
      else if (kind == "pr") r = pr(op);
    }
    alarm(0);
    ffv::T().line(r);
  }
  ffv::T().flush();
  _exit(0);
}
