// Executes histories of ShuntingYardParser operations. Input lines (see checks/parser.py); output: ndjson.
#include "trace.hpp"
#include "firefly/FFIntVec.hpp"
#include "firefly/ShuntingYardParser.hpp"
#include "firefly/ReconstHelper.hpp"
#include <csignal>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
using namespace firefly;
namespace ffv { bool sched_active() { return false; } }
static void onsig(int s) { ffv::T().flush(); _exit(90 + s); }
static std::string Q(const FFInt& x) { return ffv::q((uint64_t)x.n); }
static FFInt raw(const std::string& s) { FFInt f; f.n = std::stoull(s); return f; }
static std::unique_ptr<ShuntingYardParser> P;
static std::vector<std::string> vars;
template<class F> static std::vector<std::vector<std::string>> lanes(const std::vector<F>& r, int w);
static std::string out1(const std::vector<FFInt>& r) { return ffv::arr(r, [](const FFInt& x) { return "[" + Q(x) + "]"; }); }
template<int N> static std::string outN(const std::vector<FFIntVec<N>>& r) { return ffv::arr(r, [](const FFIntVec<N>& x) { return ffv::arr(x.vec, Q); }); }
template<int N> static std::string evN(const std::string& form, const std::vector<std::string>& a) {
  std::vector<FFIntVec<N>> v(vars.size());
  for (size_t k = 0; k < vars.size(); ++k) for (int l = 0; l < N; ++l) v[k].vec[l] = raw(a.at(l * vars.size() + k));
  if (form == "plain") return outN<N>(P->evaluate(v));
  if (form == "pre") return outN<N>(P->evaluate_pre(v));
  return outN<N>(P->evaluate_pre_2(v));
}
static std::string ev(const std::string& form, int w, const std::vector<std::string>& a) {
  if (w == 1) {
    std::vector<FFInt> v;
    for (auto& s : a) v.push_back(raw(s));
    if (form == "plain") return out1(P->evaluate(v));
    if (form == "pre") return out1(P->evaluate_pre(v));
    return out1(P->evaluate_pre_2(v));
  }
  switch (w) { case 2: return evN<2>(form, a); case 4: return evN<4>(form, a); case 8: return evN<8>(form, a); case 16: return evN<16>(form, a); case 32: return evN<32>(form, a); case 64: return evN<64>(form, a); default: return evN<128>(form, a); }
}
static std::string strs(const std::vector<std::string>& v) { return ffv::arr(v, [](const std::string& s) { return ffv::q(s); }); }
int main(int argc, char** argv) {
  for (int s : {SIGABRT, SIGFPE, SIGSEGV}) signal(s, onsig);
  std::atexit([] { ffv::T().flush(); });
  std::ifstream f(argv[1]);
  ffv::T().open(argv[2]);
  std::string line;
  auto log = [](const std::string& s) { ffv::T().line(s); };
  while (std::getline(f, line)) {
    std::istringstream is(line); std::string k; is >> k;
    if (k == "N") {
      std::string kind; bool eq, keep; size_t pi, nv, nf; is >> kind >> eq >> keep >> pi >> nv; vars.assign(nv, ""); for (auto& v : vars) is >> v; is >> nf;
      std::vector<std::string> fs(nf), clean; for (auto& s : fs) std::getline(f, s);
      FFInt::set_new_prime(primes()[pi]);
      if (kind == "list") { P.reset(new ShuntingYardParser(fs, vars, eq, keep)); clean = fs; }
      else if (kind == "file") {
        std::ofstream o("funs.txt"); int q = 0;
        for (auto& s : fs) { ++q; for (char c : s) { o << c; if (q % 3 == 0 && (c == '+' || c == '*')) o << (q % 2 ? " " : "\n  "); } o << (q % 4 == 0 ? " ;\n" : q % 4 == 1 ? ";\n\n" : q % 4 == 2 ? ";" : ";\n"); }
        o.close();
        P.reset(new ShuntingYardParser(std::string("funs.txt"), vars, eq, keep)); clean = fs;
      } else if (kind == "empty") P.reset(new ShuntingYardParser());
      if (kind == "empty") log("{\"e\":\"new\",\"funs\":[],\"vars\":" + strs(vars) + ",\"p\":" + ffv::q((uint64_t)FFInt::p) + ",\"eq\":false}");
      else log("{\"e\":\"new\",\"funs\":" + strs(clean) + ",\"vars\":" + strs(vars) + ",\"p\":" + ffv::q((uint64_t)FFInt::p) + ",\"eq\":" + (eq ? "true" : "false") + "}");
    } else if (k == "P") { size_t i; is >> i; FFInt::set_new_prime(primes()[i]); log("{\"e\":\"prime\",\"p\":" + ffv::q((uint64_t)primes()[i]) + "}"); }
    else if (k == "R") { bool force; is >> force; P->precompute_tokens(force); log("{\"e\":\"pre\"}"); }
    else if (k == "E") {
      std::string form; int w; is >> form >> w; std::vector<std::string> a; std::string t; while (is >> t) a.push_back(t);
      log("{\"e\":\"eval\",\"form\":\"" + form + "\",\"w\":" + std::to_string(w) + ",\"vals\":" + strs(a) + ",\"r\":" + ev(form, w, a) + "}");
    } else if (k == "A") {
      bool nodup; std::string x; is >> nodup >> x; std::string y = x; size_t pos = P->add_otf(y, nodup);
      log("{\"e\":\"otf\",\"nodup\":" + std::string(nodup ? "true" : "false") + ",\"x\":" + ffv::q(x) + ",\"pos\":" + std::to_string(pos) + ",\"p\":" + ffv::q((uint64_t)FFInt::p) + "}");
    } else if (k == "F") {
      bool val; std::string x; is >> val >> x; std::string y = x; P->parse_function(y, vars, val); log("{\"e\":\"parse\",\"x\":" + ffv::q(x) + "}");
    } else if (k == "Q") {
      std::string x; int how; is >> how >> x; ShuntingYardParser o(std::vector<std::string>{x}, vars, false, true);
      std::vector<std::string> rpn;
      if (how == 0) rpn = o.get_rp_function(0); else if (how == 1) rpn = o.get_rp_functions().at(0); else if (how == 2) rpn = o.get_rp_functions_ref()->at(0); else { std::vector<std::vector<std::string>> m; o.move_rpn(m); rpn = m.at(0); }
      size_t pos = P->add_otf_precompute(rpn);
      log("{\"e\":\"rpn\",\"x\":" + ffv::q(x) + ",\"pos\":" + std::to_string(pos) + "}");
    } else if (k == "T") {
      std::vector<size_t> s; size_t i; while (is >> i) s.push_back(i);
      auto m = P->trim(std::unordered_set<size_t>(s.begin(), s.end()));
      std::vector<std::pair<size_t, size_t>> mm(m.begin(), m.end());
      log("{\"e\":\"trim\",\"keep\":" + ffv::arr(s, [](size_t x) { return std::to_string(x); }) + ",\"map\":" + ffv::arr(mm, [](const std::pair<size_t, size_t>& x) { return "[" + std::to_string(x.first) + "," + std::to_string(x.second) + "]"; }) + "}");
    } else if (k == "S") { int rpn; is >> rpn; log("{\"e\":\"size\",\"n\":" + std::to_string(P->get_size()) + ",\"empty\":" + (P->empty() ? "true" : "false") + ",\"rpn\":" + (rpn ? "true" : "false") + "}"); }
  }
  ffv::T().flush();
  _exit(0);
}
