// random combination setups shared by the harnesses that run whole combinations
#pragma once
#include "manager/CombiParameters.hpp"
#include "manager/ProcessGroupWorker.hpp"
#include "mpi/MPISystem.hpp"
#include "vtask.hpp"
namespace vh {
struct CombiCase {
  int nsp = 1;              // grids per task
  int ng, np, dim, mib, K;  // values are multiples of 2^K
  std::vector<int> lmin, lmax, red, B, P;
  std::vector<std::vector<int>> dec, grids;
  std::vector<int> coef, owner;
  std::vector<std::string> bases;
  std::vector<bool> dims;
  std::string variant;
  bool hat;
  bool nodec = false;  // no decomposition is prescribed: the default one of every grid
  CombinationVariant cv() const {
    return variant == "sg" ? CombinationVariant::sparseGridReduce : variant == "sub" ? CombinationVariant::subspaceReduce
           : variant == "out" ? CombinationVariant::outgroupSparseGridReduce : CombinationVariant::chunkedOutgroupSparseGridReduce;
  }
  LevelVector lv(const std::vector<int>& x) const { return LevelVector(x.begin(), x.end()); }
  std::vector<BoundaryType> bt() const { return std::vector<BoundaryType>(B.begin(), B.end()); }
  static BasisFunctionBasis* basis(const std::string& n) {
    if (n == "hat") return new HierarchicalHatBasisFunction();
    if (n == "hatp") return new HierarchicalHatPeriodicBasisFunction();
    if (n == "fw") return new FullWeightingBasisFunction();
    if (n == "fwp") return new FullWeightingPeriodicBasisFunction();
    if (n == "bo") return new BiorthogonalBasisFunction();
    return new BiorthogonalPeriodicBasisFunction();
  }
  // values that are multiples of 2^K stay integers when a grid of this level is (de)hierarchized
  int exponent(const std::vector<int>& g) const {
    bool any0 = std::any_of(B.begin(), B.end(), [](int b) { return b == 0; });
    int S = 0, h = 0;
    for (int d = 0; d < dim; ++d) {
      auto u = static_cast<size_t>(d);
      int k = dims[u] ? g[u] - (any0 ? 0 : lmin[u]) : 0;
      bool wave = bases[u].substr(0, 3) != "hat";
      S += wave ? 3 * k : k;
      h += wave ? 3 * k : k > 0;
    }
    return S + h;
  }
  CombiParameters params() const {
    std::vector<LevelVector> ls;
    std::vector<real> cs;
    std::vector<size_t> ids;
    for (size_t i = 0; i < grids.size(); ++i) { ls.push_back(lv(grids[i])); cs.push_back(coef[i]); ids.push_back(i); }
    CombiParameters p(static_cast<DimType>(dim), lv(lmin), lv(lmax), bt(), ls, cs, dims, ids, 1, nsp, cv(), LevelVector(static_cast<size_t>(dim), 0), lv(red), static_cast<uint32_t>(mib), false);
    std::vector<BasisFunctionBasis*> b;
    for (auto& n : bases) b.push_back(basis(n));
    p.setHierarchicalBases(b);
    p.setParallelization(P);
    if (!nodec) p.setDecomposition(std::vector<IndexVector>(dec.begin(), dec.end()));
    return p;
  }
  Ev ev(int id) const {
    Ev e("case");
    e.f("id", id).f("nsp", nsp).f("ng", ng).f("np", np).f("lmin", lmin).f("lmax", lmax).f("red", red).f("B", B).f("P", P).f("dec", dec).f("g", grids).f("co", coef)
        .f("owner", owner).f("bases", bases).f("dims", dims).f("nodec", nodec).f("variant", variant).f("mib", mib).f("K", K);
    return e;
  }
};
inline bool decompose(Rng& r, CombiCase& c) {  // decomposition of the finest grid that is valid for the coarsest
  c.dec.clear();
  for (int d = 0; d < c.dim; ++d) {
    auto u = static_cast<size_t>(d);
    int n = npts(c.lmax[u], c.B[u]);
    if (n < c.P[u]) return false;
    bool ok = false;
    for (int t = 0; t < 30 && !ok; ++t) {
      std::vector<int> x;
      if (r.coin()) for (int k = 0; k < c.P[u]; ++k) x.push_back(n * k / c.P[u]);
      else x = randDec1(r, n, c.P[u]);
      auto y = down1(x, c.lmax[u], c.lmin[u], c.B[u]);
      ok = decValid({y}, {npts(c.lmin[u], c.B[u])});
      // grids between the coarsest and the finest
      for (int l = c.lmin[u]; l < c.lmax[u] && ok; ++l) ok = decValid({down1(x, c.lmax[u], l, c.B[u])}, {npts(l, c.B[u])});
      if (ok) c.dec.push_back(x);
    }
    if (!ok) return false;
  }
  return true;
}
inline CombiCase randCombi(Rng& r, int workers, int maxPts = 500, int fixedGroups = 0, int maxGrids = 7, int maxK = 15) {
  for (;;) {
    CombiCase c;
    std::vector<int> gs;
    for (int g = 1; g <= workers; ++g) if (workers % g == 0) gs.push_back(g);
    c.ng = fixedGroups ? fixedGroups : r.pick(gs);
    c.np = workers / c.ng;
    c.dim = r.coin(1, 8) ? 1 : r.coin(1, 5) ? 4 : r.coin(1, 14) ? r.in(5, 6) : r.in(2, 3);
    const int finest = r.coin(1, 6) && c.dim <= 2 ? 3 : c.dim > 4 ? 1 : 2;
    c.P = r.pick(factorizations(c.np, c.dim));
    c.hat = r.in(0, 2) > 0;
    bool any0 = false;
    long fin = 1;
    int noref = r.coin(1, 6) ? r.in(0, c.dim - 1) : -1;
    for (int d = 0; d < c.dim; ++d) {
      c.B.push_back(c.hat ? r.in(0, 2) : r.in(1, 2));
      any0 = any0 || c.B.back() == 0;
      c.lmin.push_back(r.in(1, finest));
      c.lmax.push_back(c.lmin.back() + (d == noref ? 0 : r.in(c.dim == 1 ? 1 : 0, c.dim == 1 ? 4 : c.dim == 2 ? 3 : c.dim == 3 ? 2 : 1)));
      if (c.dim > 4 && r.coin()) c.lmax.back() = c.lmin.back();
      fin *= npts(c.lmax.back(), c.B.back());
      std::vector<std::string> opt = c.B.back() == 0 ? std::vector<std::string>{"hat"} : c.B.back() == 1 ? std::vector<std::string>{"hatp", "hat"} : std::vector<std::string>{"hat"};
      if (!c.hat) opt = c.B.back() == 1 ? std::vector<std::string>{"fwp", "bop", "fwp", "bop", "hatp"} : std::vector<std::string>{"fw", "bo", "fw", "bo", "hat"};
      c.bases.push_back(r.pick(opt));
      c.dims.push_back(!r.coin(1, 10));
    }
    if (fin > 3 * maxPts) continue;
    if (!decompose(r, c)) continue;
    // the default decompositions of all grids fit together if the numbers of processes are powers of two
    bool pow2 = true;
    for (int d = 0; d < c.dim; ++d) { auto u = static_cast<size_t>(d); pow2 = pow2 && (c.P[u] & (c.P[u] - 1)) == 0 && c.P[u] <= npts(c.lmin[u], c.B[u]); }
    if (pow2 && r.coin(1, 3)) {
      c.nodec = true;
      for (int d = 0; d < c.dim; ++d) { auto u = static_cast<size_t>(d); for (int k = 0; k < c.P[u]; ++k) c.dec[u][static_cast<size_t>(k)] = npts(c.lmax[u], c.B[u]) * k / c.P[u]; }
    }
    c.red.assign(static_cast<size_t>(c.dim), 0);
    if (r.coin(1, 4)) for (auto& x : c.red) x = r.in(0, 1);
    // grids: distinct levels between lmin and lmax
    std::set<std::vector<int>> set;
    int want = r.in(c.ng, std::max(c.ng, maxGrids));
    bool diag = r.coin();
    int top = 0, low = 0;
    for (int d = 0; d < c.dim; ++d) { auto u = static_cast<size_t>(d); low += c.lmin[u]; top = std::max(top, c.lmax[u] - c.lmin[u]); }
    for (int t = 0; t < 200 && static_cast<int>(set.size()) < want; ++t) {
      std::vector<int> g;
      int s = 0;
      for (int d = 0; d < c.dim; ++d) { auto u = static_cast<size_t>(d); g.push_back(r.in(c.lmin[u], c.lmax[u])); s += g.back(); }
      if (diag && s > low + top) continue;
      set.insert(g);
    }
    if (static_cast<int>(set.size()) < c.ng) continue;
    long tot = 0;
    int K = 0;
    std::vector<std::vector<int>> gl(set.begin(), set.end());
    for (size_t i = gl.size(); i > 1; --i) std::swap(gl[i - 1], gl[static_cast<size_t>(r.in(0, static_cast<int>(i) - 1))]);
    for (auto& g : gl) {
      long n = 1;
      int S = 0, h = 0;
      for (int d = 0; d < c.dim; ++d) {
        auto u = static_cast<size_t>(d);
        n *= npts(g[u], c.B[u]);
        int k = c.dims[u] ? g[u] - (any0 ? 0 : c.lmin[u]) : 0;
        bool wave = c.bases[u].substr(0, 3) != "hat";
        S += wave ? 3 * k : k;
        h += wave ? 3 * k : k > 0;
      }
      tot += n;
      K = std::max(K, S + h);
    }
    if (tot > maxPts || K > maxK) continue;
    c.K = K;
    c.grids = gl;
    for (size_t i = 0; i < gl.size(); ++i) { c.coef.push_back(r.in(-2, 2)); c.owner.push_back(i < static_cast<size_t>(c.ng) ? static_cast<int>(i) : r.in(0, c.ng - 1)); }
    if (r.coin()) for (auto& x : c.coef) x = r.pick(std::vector<int>{1, -1});
    c.variant = r.pick(std::vector<std::string>{"sg", "sub", "out", "chunk"});
    c.mib = r.pick(std::vector<int>{1, 16, 64});
    return c;
  }
}
// setups with so much data that reductions need several chunks; without hierarchization, every point is combined on its own
inline CombiCase bigCombi(Rng& r, int workers, int fixedGroups = 0, int shrink = 0) {
  for (;;) {
    CombiCase c;
    std::vector<int> gs;
    for (int g = 1; g <= workers; ++g) if (workers % g == 0 && g <= 4 && workers / g <= 2) gs.push_back(g);
    if (gs.empty()) gs.push_back(workers);
    c.ng = fixedGroups ? fixedGroups : r.pick(gs);
    c.np = workers / c.ng;
    c.dim = 2;
    c.P = r.pick(factorizations(c.np, 2));
    c.hat = true;
    for (int d = 0; d < 2; ++d) {
      c.B.push_back(r.in(0, 2));
      c.lmin.push_back(r.in(1, 3));
      c.lmax.push_back(10 - shrink);
      c.bases.push_back(c.B.back() == 1 ? "hatp" : "hat");
      c.dims.push_back(false);
    }
    if (!decompose(r, c)) continue;
    c.red = {r.coin(1, 4) ? 1 : 0, 0};
    int want = std::max(c.ng, r.in(3, 5));
    std::set<std::vector<int>> set;
    while (static_cast<int>(set.size()) < want) {
      int a = r.in(6, 10) - shrink, b = 18 - 2 * shrink - a - (r.coin(1, 3) ? 1 : 0);
      if (b <= 10 - shrink && b >= c.lmin[1] && a >= c.lmin[0]) set.insert({a, b});
    }
    c.grids.assign(set.begin(), set.end());
    for (size_t i = c.grids.size(); i > 1; --i) std::swap(c.grids[i - 1], c.grids[static_cast<size_t>(r.in(0, static_cast<int>(i) - 1))]);
    for (size_t i = 0; i < c.grids.size(); ++i) { c.coef.push_back(r.in(-2, 2)); c.owner.push_back(i < static_cast<size_t>(c.ng) ? static_cast<int>(i) : r.in(0, c.ng - 1)); }
    c.variant = r.pick(std::vector<std::string>{"chunk", "chunk", "sg", "sub", "out"});
    c.mib = r.coin(1, 6) ? 2 : 1;
    c.K = 0;
    return c;
  }
}
// points to look at: numerators of coordinates on the finest level, from all kinds of subspaces
inline std::vector<std::vector<int>> somePoints(Rng& r, const CombiCase& c, int n) {
  std::vector<std::vector<int>> v;
  while (static_cast<int>(v.size()) < n) {
    const auto& g = r.pick(c.grids);
    std::vector<int> x;
    for (size_t d = 0; d < g.size(); ++d) {
      int l = r.in(0, g[d]), M = 1 << c.lmax[d];
      x.push_back(l == 0 ? (c.B[d] == 0 ? M / 2 : c.B[d] == 1 ? 0 : r.in(0, 1) * M) : (2 * r.in(0, (1 << (l - 1)) - 1) + 1) * (M >> l));
    }
    v.push_back(x);
  }
  return v;
}
// the process's contribution to the value of a grid at such a point (0 if the grid does not have it or somebody else owns it)
template <class T> double shareAt(combigrid::DistributedFullGrid<T>& dfg, const CombiCase& c, size_t id, const std::vector<int>& pt) {
  const auto& l = c.grids[id];
  IndexVector lo(l.size());
  for (size_t d = 0; d < l.size(); ++d) {
    int h = 1 << (c.lmax[d] - l[d]);
    if (pt[d] % h) return 0.;
    IndexType ix = pt[d] / h - (c.B[d] ? 0 : 1);
    if (ix < dfg.getLowerBounds()[d] || ix >= dfg.getUpperBounds()[d]) return 0.;
    lo[d] = ix - dfg.getLowerBounds()[d];
  }
  return toReal(dfg.getData()[dfg.getLocalLinearIndex(lo)]);
}
inline std::vector<long> summed(const std::vector<double>& v, MPI_Comm comm) {
  std::vector<double> w(v.size());
  MPI_Reduce(v.data(), w.data(), static_cast<int>(v.size()), MPI_DOUBLE, MPI_SUM, 0, comm);
  std::vector<long> x;
  for (double z : w) x.push_back(exact(z));
  return x;
}
// values of all grids at these points
template <class T> std::string atPoints(const std::vector<std::unique_ptr<combigrid::Task<T>>>& tasks, const CombiCase& c, const std::vector<std::vector<int>>& pts, MPI_Comm world) {
  std::vector<std::vector<double>> v(c.grids.size(), std::vector<double>(pts.size(), 0.));
  for (auto& t : tasks) for (size_t k = 0; k < pts.size(); ++k) v[t->getID()][k] = shareAt(t->getDistributedFullGrid(0), c, t->getID(), pts[k]);
  std::string s = "[";
  for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + js(summed(v[i], world));
  return s + "]";
}
// grid values of all tasks of all groups, by task number, on rank 0 of world (list in JSON)
template <class T> std::string allGrids(const std::vector<std::unique_ptr<combigrid::Task<T>>>& tasks, MPI_Comm world, size_t n, size_t which = 0) {
  std::string mine;
  int lr;
  MPI_Comm lc = theMPISystem()->getLocalComm();
  MPI_Comm_rank(lc, &lr);
  for (auto& t : tasks) {
    auto v = allValues(t->getDistributedFullGrid(which), lc);
    if (lr == 0) mine += std::to_string(t->getID()) + " " + js(v) + "\n";
  }
  std::string all = gather(world, mine);
  std::vector<std::string> by(n, "[]");
  std::istringstream is(all);
  std::string line;
  while (std::getline(is, line)) {
    auto p = line.find(' ');
    auto i = static_cast<size_t>(std::atol(line.substr(0, p).c_str()));
    if (i < n) by[i] = by[i] == "[]" ? line.substr(p + 1) : "[\"twice\"]";
  }
  std::string s = "[";
  for (size_t i = 0; i < n; ++i) s += (i ? "," : "") + by[i];
  return s + "]";
}
// values the next run writes: small integers times 2^K, consistent at periodic ends where needed
inline void prescribe(const CombiCase& c, uint64_t seed, long scale) {
  CombiCase k = c;
  VTaskData::value() = [k, seed, scale](size_t id, long i) -> long {
    // on grids with both ends, periodic bases need equal end values
    long rem = i, j = 0, off = 1;
    for (int d = 0; d < k.dim; ++d) {
      auto u = static_cast<size_t>(d);
      long n = npts(k.grids[id][u], k.B[u]);
      long x = rem % n;
      rem /= n;
      if (k.B[u] == 2 && (k.bases[u] == "fwp" || k.bases[u] == "bop") && x == n - 1) x = 0;
      j += x * off;
      off *= n;
    }
    return (static_cast<long>(mix(seed + VTaskData::which() * 1000003, id, static_cast<uint64_t>(j)) % 7) - 3) * scale;
  };
}
}  // namespace vh
