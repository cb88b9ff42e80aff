// Executes the insertion tool's parser: commands in argv[1], ndjson to argv[2] (see checks/c26.py).
#include "trace.hpp"
#include "firefly/FFIntVec.hpp"
#include "firefly/AmplitudeParser.hpp"
#include "firefly/ReconstHelper.hpp"
#include <csignal>
#include <iostream>
#include <memory>
#include <sstream>
using namespace firefly;
namespace ffv { bool sched_active() { return false; } }
static void onsig(int s) { ffv::T().flush(); _exit(90 + s); }
static std::string Q(const FFInt& x) { return ffv::q((uint64_t)x.n); }
static std::string content(const std::string& p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }
static FFInt raw(const std::string& s) { FFInt f; f.n = std::stoull(s); return f; }
template<int N> static std::string lanes(FFAmplitudeBlackBox& b, size_t n, const std::vector<std::string>& a) {
  std::vector<FFIntVec<N>> v(n);
  for (size_t k = 0; k < n; ++k) for (int l = 0; l < N; ++l) v[k].vec[l] = raw(a.at(l * n + k));
  std::vector<FFIntVec<N>> r = b(v);
  return ffv::arr(r, [](const FFIntVec<N>& x) { return ffv::arr(x.vec, Q); });
}
int main(int, char** argv) {
  for (int s : {SIGABRT, SIGFPE, SIGSEGV}) signal(s, onsig);
  std::ifstream f(argv[1]);
  ffv::T().open(argv[2]);
  std::atexit([] { ffv::T().flush(); });
  auto log = [](const std::string& s) { ffv::T().line(s); };
  std::vector<std::string> vars, fams;
  AmplitudeParser* ap = nullptr, *again = nullptr; // two parsers that are given the same
  std::string line;
  size_t n = 0;
  std::vector<std::unique_ptr<FFAmplitudeBlackBox>> bbs;
  while (std::getline(f, line)) {
    std::istringstream is(line); std::string k, t; is >> k;
    FFInt::set_new_prime(FFInt::p ? FFInt::p : primes()[0]);
    if (k == "V") { while (is >> t) vars.push_back(t); }
    else if (k == "F") { while (is >> t) fams.push_back(t); ap = new AmplitudeParser(vars, fams); again = new AmplitudeParser(vars, fams); }
    else if (k == "A") { is >> t; ap->parse_amplitude_file(t); again->parse_amplitude_file(t); }
    else if (k == "S") { is >> t; std::string s = content(t), u = s; ap->parse_amplitude_string(s); again->parse_amplitude_string(u); }
    else if (k == "T") { is >> t; ap->parse_ibp_table_file(t); again->parse_ibp_table_file(t); }
    else if (k == "U") { is >> t; std::string s = content(t), u = s; ap->parse_ibp_table_string(s); again->parse_ibp_table_string(u); }
    else if (k == "C") {
      n = ap->check_for_unreplaced_masters();
      std::vector<std::string> ms, same;
      for (size_t i = 0; i < n; ++i) ms.push_back(ap->get_master(i));
      for (size_t i = 0, m = again->check_for_unreplaced_masters(); i < m; ++i) same.push_back(again->get_master(i));
      auto qs = [](const std::string& s) { return ffv::q(s); };
      log("{\"e\":\"basis\",\"ms\":" + ffv::arr(ms, qs) + ",\"same\":" + ffv::arr(same, qs) + "}");
    } else if (k == "B") {
      for (size_t i = 0; i < n; ++i) bbs.emplace_back(new FFAmplitudeBlackBox(ap->build_black_box(i)));
      for (size_t i = 0; i < n; ++i) log("{\"e\":\"text\",\"m\":" + ffv::q(ap->get_master(i)) + ",\"x\":" + ffv::q(ap->get_unsimplified_coef(i)) + "}");
    } else if (k == "P") { size_t i; is >> i; FFInt::set_new_prime(primes()[i]); for (auto& b : bbs) b->prime_changed(); }
    else if (k == "E") {
      int w; is >> w; std::vector<std::string> a; while (is >> t) a.push_back(t);
      for (size_t i = 0; i < bbs.size(); ++i) {
        std::string r;
        if (w == 1) { std::vector<FFInt> v; for (auto& s : a) v.push_back(raw(s)); r = ffv::arr((*bbs[i])(v), [](const FFInt& x) { return "[" + Q(x) + "]"; }); }
        else if (w == 2) r = lanes<2>(*bbs[i], vars.size(), a);
        else r = lanes<8>(*bbs[i], vars.size(), a);
        log("{\"e\":\"val\",\"m\":" + ffv::q(ap->get_master(i)) + ",\"p\":" + ffv::q((uint64_t)FFInt::p) + ",\"w\":" + std::to_string(w) + ",\"vals\":" + ffv::arr(a, [](const std::string& s) { return ffv::q(s); }) + ",\"r\":" + r + "}");
      }
    }
  }
  log("{\"e\":\"end\"}");
}
