// In-memory event log, written as ndjson at the end (or when the run is cut short).
#pragma once
#include "sched.hpp"
#include <fcntl.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <cstdint>
#include <string>
#include <vector>

namespace ffv {
  struct Trace {
    std::string path, buf;
    uint64_t n = 0;
    void open(const std::string& p) { path = p; int fd = syscall(SYS_openat, AT_FDCWD, p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); syscall(SYS_close, fd); }
    void line(const std::string& s) { buf += s; buf += '\n'; ++n; if (buf.size() > (1u << 20)) flush(); }
    void flush() {
      if (path.empty()) return;
      int fd = syscall(SYS_openat, AT_FDCWD, path.c_str(), O_WRONLY | O_APPEND, 0644);
      size_t o = 0;
      while (o < buf.size()) { long r = syscall(SYS_write, fd, buf.data() + o, buf.size() - o); if (r <= 0) break; o += r; }
      syscall(SYS_close, fd);
      buf.clear();
    }
  };
  inline Trace& T() { static Trace t; return t; }
  inline std::string q(const std::string& s) {
    std::string r = "\"";
    for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; }
    return r + "\"";
  }
  inline std::string q(uint64_t v) { return "\"" + std::to_string(v) + "\""; }
  template<class V, class F> std::string arr(const V& v, F f) { std::string r = "["; bool first = true; for (auto& e : v) { if (!first) r += ","; first = false; r += f(e); } return r + "]"; }
  inline std::string ints(const std::vector<uint32_t>& v) { return arr(v, [](uint32_t x) { return std::to_string(x); }); }
}
