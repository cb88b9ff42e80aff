// Black-box functions of the harness: rational functions given by term lists with rational coefficients.
// Evaluation uses its own modular arithmetic (unsigned __int128), independent of the code under test.
#pragma once
#include <gmpxx.h>
#include <cstdint>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace ffv {
  typedef unsigned __int128 u128;
  inline uint64_t mulm(uint64_t a, uint64_t b, uint64_t p) { return (u128)a * b % p; }
  inline uint64_t addm(uint64_t a, uint64_t b, uint64_t p) { return ((u128)a + b) % p; }
  inline uint64_t powm(uint64_t a, uint64_t e, uint64_t p) { uint64_t r = 1 % p; a %= p; while (e) { if (e & 1) r = mulm(r, a, p); a = mulm(a, a, p); e >>= 1; } return r; }
  inline uint64_t invm(uint64_t a, uint64_t p) { return powm(a, p - 2, p); }
  struct Term { mpz_class num, den; std::vector<uint32_t> e; uint64_t c = 0; };
  typedef std::vector<Term> Pol;
  struct Fn { Pol num, den; };
  inline uint64_t mpz_mod_u(const mpz_class& z, uint64_t p) {
    mpz_class m = z % mpz_class(std::to_string(p));
    if (m < 0) m += mpz_class(std::to_string(p));
    return std::stoull(m.get_str());
  }
  inline void prep(Pol& p, uint64_t pr) { for (auto& t : p) t.c = mulm(mpz_mod_u(t.num, pr), invm(mpz_mod_u(t.den, pr), pr), pr); }
  inline uint64_t ev(const Pol& p, const std::vector<uint64_t>& x, uint64_t pr) {
    uint64_t r = 0;
    for (auto& t : p) {
      uint64_t v = t.c;
      for (size_t i = 0; i < t.e.size(); ++i) if (t.e[i]) v = mulm(v, powm(x[i], t.e[i], pr), pr);
      r = addm(r, v, pr);
    }
    return r;
  }
  inline uint64_t ev(const Fn& f, const std::vector<uint64_t>& x, uint64_t pr) {
    uint64_t d = ev(f.den, x, pr);
    if (d == 0) return 0;
    return mulm(ev(f.num, x, pr), invm(d, pr), pr);
  }
  // scenario file: lines "key value..." ; functions: "fn <#num terms> <#den terms>" followed by term lines "num den e1 .. en"
  struct Scenario {
    std::map<std::string, std::vector<std::string>> kv;
    std::vector<std::pair<std::string, std::vector<std::string>>> multi;
    std::vector<Fn> fns;
    long i(const std::string& k, long d = 0) const { auto it = kv.find(k); return it == kv.end() ? d : std::stol(it->second.at(0)); }
    std::string s(const std::string& k, const std::string& d = "") const { auto it = kv.find(k); return it == kv.end() ? d : it->second.at(0); }
    std::vector<std::string> v(const std::string& k) const { auto it = kv.find(k); return it == kv.end() ? std::vector<std::string>{} : it->second; }
    bool load(const std::string& path) {
      std::ifstream f(path);
      if (!f) return false;
      std::string line;
      long n = 1;
      while (std::getline(f, line)) {
        std::istringstream is(line);
        std::string k, w;
        if (!(is >> k)) continue;
        if (k == "fn") {
          size_t a, b; is >> a >> b;
          Fn fn;
          for (size_t q = 0; q < a + b; ++q) {
            std::getline(f, line);
            std::istringstream ts(line);
            Term t; std::string s1, s2; ts >> s1 >> s2; t.num = mpz_class(s1); t.den = mpz_class(s2);
            for (long z = 0; z < n; ++z) { uint32_t e; ts >> e; t.e.push_back(e); }
            (q < a ? fn.num : fn.den).push_back(t);
          }
          fns.push_back(fn);
        } else {
          std::vector<std::string> vs;
          while (is >> w) vs.push_back(w);
          if (k == "n") n = std::stol(vs.at(0));
          kv[k] = vs;
          multi.emplace_back(k, vs);
        }
      }
      return true;
    }
  };
}
