// random grid configurations shared by the harnesses
#pragma once
#include "fullgrid/DistributedFullGrid.hpp"
#include "utils/DecompositionUtils.hpp"
#include "vh.hpp"
#include <complex>

namespace vh {
using combigrid::BoundaryType;
using combigrid::DimType;
using combigrid::IndexType;
using combigrid::IndexVector;
using combigrid::LevelVector;

inline int npts(int l, int b) { return (1 << l) - 1 + b; }

inline std::vector<int> randDec1(Rng& g, int n, int p) {  // p strictly ascending starts in 0..n-1, first 0
  std::set<int> s{0};
  while (static_cast<int>(s.size()) < p) s.insert(g.in(1, n - 1));
  return std::vector<int>(s.begin(), s.end());
}

struct GridCase {
  int np;
  int dim;
  std::vector<int> L, B, P, ref;
  std::string kind;  // default / given / down
  bool fwd;
  std::vector<std::vector<int>> dec;  // input decomposition (given: of L, down: of ref)
  std::vector<BoundaryType> bt() const { return std::vector<BoundaryType>(B.begin(), B.end()); }
  LevelVector lv() const { return LevelVector(L.begin(), L.end()); }
  LevelVector rv() const { return LevelVector(ref.begin(), ref.end()); }
  std::vector<IndexVector> decomposition() const {  // what is handed to the grid
    if (kind == "default") return {};
    std::vector<IndexVector> d(dec.begin(), dec.end());
    if (kind == "given") return d;
    return combigrid::downsampleDecomposition(d, rv(), lv(), bt());
  }
  Ev ev(int id) const {
    Ev e("case");
    e.f("id", id).f("np", np).f("L", L).f("B", B).f("P", P).f("kind", kind).f("fwd", fwd).f("dec", dec).f("ref", ref);
    return e;
  }
};

inline bool decValid(const std::vector<std::vector<int>>& dec, const std::vector<int>& n) {
  for (size_t d = 0; d < dec.size(); ++d) {
    if (dec[d][0] != 0) return false;
    for (size_t k = 1; k < dec[d].size(); ++k) if (dec[d][k] <= dec[d][k - 1]) return false;
    if (dec[d].back() >= n[d]) return false;
  }
  return true;
}
// own (independent) downsampling, only used to decide whether a candidate leaves no process empty
inline std::vector<int> down1(const std::vector<int>& dec, int lr, int l, int b) {
  std::vector<int> r;
  int s = 1 << (lr - l);
  for (int x : dec) {
    int v = b > 0 ? x : x - (s - 1);
    int q = v >= 0 ? (v + s - 1) / s : -((-v) / s);
    r.push_back(std::max(0, q));
  }
  return r;
}

inline GridCase randGrid(Rng& g, int np, int dim, int maxLevel, int maxPoints, int minLevel = 1) {
  for (;;) {
    GridCase c;
    c.np = np;
    c.dim = dim;
    c.P = g.pick(factorizations(np, dim));
    long tot = 1;
    bool ok = true;
    for (int d = 0; d < dim; ++d) {
      c.B.push_back(g.in(0, 2));
      c.L.push_back(g.in(minLevel, maxLevel));
      int n = npts(c.L.back(), c.B.back());
      tot *= n;
      if (n < c.P[static_cast<size_t>(d)]) ok = false;
    }
    if (!ok || tot > maxPoints) continue;
    c.ref = c.L;
    int k = g.in(0, 2);
    std::vector<int> n;
    for (int d = 0; d < dim; ++d) n.push_back(npts(c.L[static_cast<size_t>(d)], c.B[static_cast<size_t>(d)]));
    if (k == 0) {
      c.kind = "default";
      c.fwd = g.coin();
      for (int b : c.B) if (b == 1) c.fwd = false;
      c.dec.assign(static_cast<size_t>(dim), {0});
    } else if (k == 1) {
      c.kind = "given";
      c.fwd = g.coin();
      for (int d = 0; d < dim; ++d) c.dec.push_back(randDec1(g, n[static_cast<size_t>(d)], c.P[static_cast<size_t>(d)]));
    } else {
      c.kind = "down";
      c.fwd = g.coin();
      bool good = false;
      for (int t = 0; t < 30 && !good; ++t) {
        c.dec.clear();
        std::vector<std::vector<int>> dd;
        for (int d = 0; d < dim; ++d) {
          auto ud = static_cast<size_t>(d);
          c.ref[ud] = std::max(c.L[ud], std::min(c.L[ud] + g.in(0, 2), maxPoints > 10000 ? 28 : 6));
          c.dec.push_back(randDec1(g, npts(c.ref[ud], c.B[ud]), c.P[ud]));
          dd.push_back(down1(c.dec[ud], c.ref[ud], c.L[ud], c.B[ud]));
        }
        good = decValid(dd, n);
      }
      if (!good) continue;
    }
    return c;
  }
}

inline MPI_Comm cart(MPI_Comm comm, const std::vector<int>& P, const std::vector<int>& B) {
  std::vector<int> periods;
  for (int b : B) periods.push_back(b == 1 ? 1 : 0);
  MPI_Comm c;
  MPI_Cart_create(comm, static_cast<int>(P.size()), P.data(), periods.data(), 0, &c);
  return c;
}

inline double toReal(double x) { return x; }
inline double toReal(float x) { return x; }
inline double toReal(const std::complex<double>& x) { return x.imag() == 0. ? x.real() : 0.123456; }
// all values of a grid in global linear order on rank 0 of its communicator (values must be integers)
template <class T> std::vector<long> allValues(const combigrid::DistributedFullGrid<T>& dfg, MPI_Comm cc, bool approx = false) {
  int r, n;
  MPI_Comm_rank(cc, &r);
  MPI_Comm_size(cc, &n);
  std::vector<long> mine;
  for (IndexType i = 0; i < dfg.getNrLocalElements(); ++i) {
    mine.push_back(dfg.getGlobalLinearIndex(i));
    mine.push_back(approx ? near(toReal(dfg.getData()[i])) : exact(toReal(dfg.getData()[i])));
  }
  int len = static_cast<int>(mine.size());
  std::vector<int> lens(static_cast<size_t>(n)), offs(static_cast<size_t>(n));
  MPI_Gather(&len, 1, MPI_INT, lens.data(), 1, MPI_INT, 0, cc);
  int tot = 0;
  for (int i = 0; i < n; ++i) { offs[static_cast<size_t>(i)] = tot; tot += lens[static_cast<size_t>(i)]; }
  std::vector<long> all(r == 0 ? static_cast<size_t>(tot) : 0);
  MPI_Gatherv(mine.data(), len, MPI_LONG, all.data(), lens.data(), offs.data(), MPI_LONG, 0, cc);
  std::vector<long> res(r == 0 ? static_cast<size_t>(dfg.getNrElements()) : 0, 2000000003L);
  for (size_t k = 0; k + 1 < all.size(); k += 2) {
    auto& x = res[static_cast<size_t>(all[k])];
    x = x == 2000000003L ? all[k + 1] : 2000000004L;
  }
  return res;
}
template <class T> void setValues(combigrid::DistributedFullGrid<T>& dfg, const std::vector<long>& v) {
  for (IndexType i = 0; i < dfg.getNrLocalElements(); ++i)
    dfg.getData()[i] = static_cast<T>(static_cast<double>(v[static_cast<size_t>(dfg.getGlobalLinearIndex(i))]));
}

// communicator of the first np ranks of world (MPI_COMM_NULL on the others)
inline MPI_Comm firstRanks(int np) {
  int r;
  MPI_Comm_rank(MPI_COMM_WORLD, &r);
  MPI_Comm c;
  MPI_Comm_split(MPI_COMM_WORLD, r < np ? 0 : MPI_UNDEFINED, r, &c);
  return c;
}

}  // namespace vh
