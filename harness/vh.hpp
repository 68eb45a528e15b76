// Common helpers of the recording harnesses: JSON lines, random numbers, gathering of per-rank records.
#pragma once
#define OMPI_SKIP_MPICXX 1
#include <mpi.h>

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace vh {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { for (int i = 0; i < 4; ++i) next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int in(int lo, int hi) { return lo + static_cast<int>(next() % static_cast<uint64_t>(hi - lo + 1)); }
  bool coin(int num = 1, int den = 2) { return static_cast<int>(next() % static_cast<uint64_t>(den)) < num; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
};

// a double that must be an integer after multiplication with scale; otherwise a marker outside the allowed range
inline long exact(double v, double scale = 1.) {
  double w = v * scale;
  if (!(w > -1.0e9 && w < 1.0e9)) return 2000000001L;
  double r = std::nearbyint(w);
  if (r != w) return 2000000002L;
  return static_cast<long>(r);
}
// nearest integer if within tol of it, else marker
inline long near(double v, double scale = 1., double tol = 1e-6) {
  double w = v * scale;
  if (!(w > -1.0e9 && w < 1.0e9)) return 2000000001L;
  double r = std::nearbyint(w);
  if (std::abs(r - w) > tol) return 2000000002L;
  return static_cast<long>(r);
}

inline std::string js(const std::string& s) {
  std::string o = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (static_cast<unsigned char>(c) < 32) { o += ' '; }
    else o += c;
  }
  return o + "\"";
}
inline std::string js(const char* s) { return js(std::string(s)); }
inline std::string js(bool b) { return b ? "true" : "false"; }
inline std::string js(int v) { return std::to_string(v); }
inline std::string js(unsigned v) { return std::to_string(v); }
inline std::string js(long v) { return std::to_string(v); }
inline std::string js(unsigned long v) { return std::to_string(v); }
inline std::string js(long long v) { return std::to_string(v); }
inline std::string js(unsigned char v) { return std::to_string(static_cast<int>(v)); }
template <class T> std::string js(const std::vector<T>& v) {
  std::string o = "[";
  bool first = true;
  for (const auto& x : v) { if (!first) o += ","; first = false; o += js(x); }
  return o + "]";
}
inline std::string js(const std::vector<bool>& v) {
  std::string o = "[";
  for (size_t i = 0; i < v.size(); ++i) { if (i) o += ","; o += v[i] ? "true" : "false"; }
  return o + "]";
}

struct Ev {  // one event = one JSON line
  std::string s;
  explicit Ev(const std::string& name) : s("{\"e\":" + js(name)) {}
  template <class T> Ev& f(const char* k, const T& v) { s += ",\"" + std::string(k) + "\":" + js(v); return *this; }
  std::string str() const { return s + "}\n"; }
};

// collects the strings of all ranks of comm on its rank 0, in rank order
inline std::string gather(MPI_Comm comm, const std::string& mine) {
  int r, n;
  MPI_Comm_rank(comm, &r);
  MPI_Comm_size(comm, &n);
  int len = static_cast<int>(mine.size());
  std::vector<int> lens(static_cast<size_t>(n)), offs(static_cast<size_t>(n));
  MPI_Gather(&len, 1, MPI_INT, lens.data(), 1, MPI_INT, 0, comm);
  int tot = 0;
  for (int i = 0; i < n; ++i) { offs[static_cast<size_t>(i)] = tot; tot += lens[static_cast<size_t>(i)]; }
  std::string all(r == 0 ? static_cast<size_t>(tot) : 0, ' ');
  MPI_Gatherv(mine.data(), len, MPI_CHAR, &all[0], lens.data(), offs.data(), MPI_CHAR, 0, comm);
  return all;
}

inline std::vector<std::vector<int>> factorizations(int n, int dim) {
  if (dim == 1) return {{n}};
  std::vector<std::vector<int>> res;
  for (int f = 1; f <= n; ++f)
    if (n % f == 0)
      for (auto r : factorizations(n / f, dim - 1)) { r.insert(r.begin(), f); res.push_back(r); }
  return res;
}

struct Args {
  std::map<std::string, std::string> m;
  Args(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      auto p = a.find('=');
      if (p != std::string::npos) m[a.substr(0, p)] = a.substr(p + 1);
    }
  }
  int i(const std::string& k, int d) const { auto it = m.find(k); return it == m.end() ? d : std::atoi(it->second.c_str()); }
  std::string s(const std::string& k, const std::string& d) const { auto it = m.find(k); return it == m.end() ? d : it->second; }
};

}  // namespace vh
