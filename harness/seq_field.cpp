// Executes field and vector operations of the real library. Input: one operation per line; output: ndjson.
// scalar:  S <op> <p> <args...>      vector:  V <op> <N> <p> <N*k field elements ...>
#include "trace.hpp"
#include "firefly/FFInt.hpp"
#include "firefly/FFIntVec.hpp"
#include <algorithm>
#include <fstream>
#include <iostream>
#include <sstream>
using namespace firefly;
namespace ffv { bool sched_active() { return false; } }
static std::string Q(const FFInt& x) { return ffv::q((uint64_t)x.n); }
static FFInt raw(const std::string& s) { FFInt f; f.n = std::stoull(s); return f; }
static std::string B(bool b) { return b ? "\"1\"" : "\"0\""; }
template<class T> static std::string newt(const std::string& s, bool sg) { return Q(FFInt(static_cast<T>(sg ? (T)std::stoll(s) : (T)std::stoull(s)))); }
template<class T> static std::string powt(const FFInt& b, const std::string& s, bool sg) { T e = sg ? (T)std::stoll(s) : (T)std::stoull(s); FFInt r1 = b.pow(e), r2 = pow(b, e); return r1 == r2 ? Q(r1) : "\"forms differ\""; }
static std::string scalar(const std::string& op, const std::vector<std::string>& a) {
  if (op == "i8") return newt<int8_t>(a[0], true);
  if (op == "i16") return newt<int16_t>(a[0], true);
  if (op == "i32") return newt<int32_t>(a[0], true);
  if (op == "i64") return newt<int64_t>(a[0], true);
  if (op == "u32") return newt<uint32_t>(a[0], false);
  if (op == "u64") return newt<uint64_t>(a[0], false);
  if (op == "mpz") return Q(FFInt(mpz_class(a[0])));
  if (op == "str") return Q(FFInt(a[0], {}));
  if (op == "copy") { FFInt x = raw(a[0]); FFInt y(x), z; z = y; return Q(z); }
  if (op == "out") { std::ostringstream o; o << raw(a[0]); return ffv::q(o.str()); }
  if (op == "neg") return Q(-raw(a[0]));
  if (op == "plus") return Q(+raw(a[0]));
  if (op == "not") return B(!raw(a[0]));
  if (op == "zero") return Q(FFInt());
  FFInt x = raw(a[0]), y = a.size() > 1 && op.substr(0, 4) != "powi" && op.substr(0, 4) != "powu" ? raw(a[1]) : FFInt();
  if (op == "add") return Q(x + y);
  if (op == "sub") return Q(x - y);
  if (op == "mul") return Q(x * y);
  if (op == "div") return Q(x / y);
  if (op == "addq") { FFInt z = x; z += y; return Q(z); }
  if (op == "subq") { FFInt z = x; z -= y; return Q(z); }
  if (op == "mulq") { FFInt z = x; z *= y; return Q(z); }
  if (op == "divq") { FFInt z = x; z /= y; return Q(z); }
  if (op == "addself") { FFInt z = x; z += z; return Q(z); }
  if (op == "subself") { FFInt z = x; z -= z; return Q(z); }
  if (op == "mulself") { FFInt z = x; z *= z; return Q(z); }
  if (op == "divself") { FFInt z = x; z /= z; return Q(z); }
  if (op == "powf") { FFInt r1 = x.pow(y), r2 = pow(x, y); return r1 == r2 ? Q(r1) : "\"forms differ\""; }
  if (op == "powi32") return powt<int32_t>(x, a[1], true);
  if (op == "powi64") return powt<int64_t>(x, a[1], true);
  if (op == "powu32") return powt<uint32_t>(x, a[1], false);
  if (op == "powu64") return powt<uint64_t>(x, a[1], false);
  if (op == "eq") return B(x == y);
  if (op == "ne") return B(x != y);
  if (op == "lt") return B(x < y);
  if (op == "le") return B(x <= y);
  if (op == "gt") return B(x > y);
  if (op == "ge") return B(x >= y);
  return "\"?\"";
}
template<int N> static std::string vs(const FFIntVec<N>& v) { return ffv::arr(v.vec, Q); }
template<int N> static std::string vect(const std::string& op, const std::vector<std::string>& a) {
  auto get = [&](size_t k) { std::array<FFInt, N> r; for (int i = 0; i < N; ++i) r[i] = raw(a.at(k * N + i)); return FFIntVec<N>(r); };
  FFIntVec<N> x = get(0);
  bool two = a.size() >= 2 * N;
  FFIntVec<N> y = two ? get(1) : x;
  if (op == "id") return vs(x);
  if (op == "copy") { FFIntVec<N> z(x), w; w = z; return vs(w); }
  if (op == "fill") { FFIntVec<N> z(raw(a[0])); return vs(z); }
  if (op == "zero") { FFIntVec<N> z; return vs(z); }
  if (op == "iter") { std::vector<FFInt> r; for (auto& e : x) r.push_back(e); const FFIntVec<N>& cx = x; std::vector<FFInt> r2(cx.begin(), cx.end()); if (r != r2 || x.size() != N) return "[\"?\"]"; return ffv::arr(r, Q); }
  if (op == "index") { std::vector<FFInt> r; for (int i = 0; i < N; ++i) r.push_back(x[i]); return ffv::arr(r, Q); }
  if (op == "at") { std::vector<FFInt> r; try { for (int i = 0; i < N; ++i) r.push_back(x.at(i)); } catch (std::out_of_range&) { return "[\"out of range\"]"; } return ffv::arr(r, Q); }
  if (op == "set") { FFIntVec<N> z; for (int i = 0; i < N; ++i) z[i] = x[i]; return vs(z); }
  if (op == "neg") return vs(-x);
  if (op == "plus") return vs(+x);
  if (op == "add") return vs(x + y);
  if (op == "sub") return vs(x - y);
  if (op == "mul") return vs(x * y);
  if (op == "div") return vs(x / y);
  if (op == "addq") { FFIntVec<N> z = x; z += y; return vs(z); }
  if (op == "subq") { FFIntVec<N> z = x; z -= y; return vs(z); }
  if (op == "mulq") { FFIntVec<N> z = x; z *= y; return vs(z); }
  if (op == "divq") { FFIntVec<N> z = x; z /= y; return vs(z); }
  if (op == "addself") { FFIntVec<N> z = x; z += z; return vs(z); }
  if (op == "subself") { FFIntVec<N> z = x; z -= z; return vs(z); }
  if (op == "mulself") { FFIntVec<N> z = x; z *= z; return vs(z); }
  if (op == "divself") { FFIntVec<N> z = x; z /= z; return vs(z); }
  if (op == "powf") { auto r = x.pow(y), s = pow(x, y); return r == s ? vs(r) : "[\"forms differ\"]"; }
  if (op == "powfs") return vs(x.pow(y.vec[0]));
  if (op == "addvs") return vs(x + raw(a[N]));
  if (op == "addsv") return vs(raw(a[N]) + x);
  if (op == "addvi") return vs(x + std::stoi(a[N]));
  if (op == "addiv") return vs(std::stoi(a[N]) + x);
  if (op == "addqs") { FFIntVec<N> z = x; z += raw(a[N]); return vs(z); }
  if (op == "subvs") return vs(x - raw(a[N]));
  if (op == "subsv") return vs(raw(a[N]) - x);
  if (op == "subvi") return vs(x - std::stoi(a[N]));
  if (op == "subiv") return vs(std::stoi(a[N]) - x);
  if (op == "subqs") { FFIntVec<N> z = x; z -= raw(a[N]); return vs(z); }
  if (op == "mulvs") return vs(x * raw(a[N]));
  if (op == "mulsv") return vs(raw(a[N]) * x);
  if (op == "mulvi") return vs(x * std::stoi(a[N]));
  if (op == "muliv") return vs(std::stoi(a[N]) * x);
  if (op == "mulqs") { FFIntVec<N> z = x; z *= raw(a[N]); return vs(z); }
  if (op == "divvs") return vs(x / raw(a[N]));
  if (op == "divsv") return vs(raw(a[N]) / x);
  if (op == "divvi") return vs(x / std::stoi(a[N]));
  if (op == "diviv") return vs(std::stoi(a[N]) / x);
  if (op == "divqs") { FFIntVec<N> z = x; z /= raw(a[N]); return vs(z); }
  if (op == "powi") { long long e = std::stoll(a.back()); return vs(x.pow(e)); }
  if (op == "powi2") { int e = std::stoi(a.back()); return vs(x.pow(e)); }
  if (op == "powv") { std::vector<int64_t> e; for (int i = 0; i < N; ++i) e.push_back(std::stoll(a.at(N + i))); return vs(x.pow(e)); }
  if (op == "eq") return B(x == y);
  if (op == "ne") return B(x != y);
  if (op == "not") return B(!x);
  if (op == "gt") return B(x > y);
  if (op == "ge") return B(x >= y);
  if (op == "lt") return B(x < y);
  if (op == "le") return B(x <= y);
  return "\"?\"";
}
#include <csignal>
static void onsig(int s) { ffv::T().flush(); _exit(90 + s); }
int main(int argc, char** argv) {
  for (int s : {SIGABRT, SIGFPE, SIGSEGV}) signal(s, onsig);
  std::ifstream f(argv[1]);
  ffv::T().open(argv[2]);
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    std::string k, op, p, w; int N = 0; is >> k >> op; if (k == "V") is >> N; is >> p;
    std::vector<std::string> a; while (is >> w) a.push_back(w);
    FFInt::set_new_prime(std::stoull(p));
    std::string r;
    try {
      if (k == "S") r = scalar(op, a);
      else switch (N) {
        case 2: r = vect<2>(op, a); break; case 4: r = vect<4>(op, a); break; case 8: r = vect<8>(op, a); break; case 16: r = vect<16>(op, a); break;
        case 32: r = vect<32>(op, a); break; case 64: r = vect<64>(op, a); break; case 128: r = vect<128>(op, a); break; }
    } catch (std::exception& e) { r = std::string(k == "V" ? "[" : "") + ffv::q(std::string("exception ") + e.what()) + (k == "V" ? "]" : ""); }
    ffv::T().line("{\"k\":\"" + k + "\",\"op\":\"" + op + "\",\"n\":" + std::to_string(N) + ",\"p\":\"" + p + "\",\"a\":" + ffv::arr(a, [](const std::string& s) { return ffv::q(s); }) + ",\"r\":" + r + "}");
  }
  ffv::T().flush();
  _exit(0);
}
