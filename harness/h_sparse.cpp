// records distributed sparse grids: registration, allocation, adding, extraction, extremes (C06)
#include "gridgen.hpp"
#include "sparsegrid/DistributedSparseGridUniform.hpp"
#include "utils/LevelSetUtils.hpp"
#include "utils/Stats.hpp"
using namespace combigrid;
using namespace vh;

struct SCase {
  int np, dim;
  std::vector<int> R, B, P;
  std::vector<std::vector<int>> dec;
  std::vector<std::vector<int>> grids;
  std::vector<std::vector<int>> sg;
  std::string type;
};
static std::vector<std::vector<int>> downSet(const std::vector<int>& L) {
  std::vector<std::vector<int>> r{{}};
  for (int l : L) {
    std::vector<std::vector<int>> n;
    for (auto& x : r) for (int k = 1; k <= l; ++k) { n.push_back(x); n.back().push_back(k); }
    r = n;
  }
  return r;
}
static SCase randCase(Rng& r, int wn, int maxPts) {
  for (;;) {
    SCase c;
    c.np = std::min(wn, r.coin(1, 3) ? r.pick(std::vector<int>{2, 4, 6, 8}) : r.in(1, wn));
    c.dim = r.coin(1, 12) ? r.in(5, 6) : r.in(1, 4);
    c.P = r.pick(factorizations(c.np, c.dim));
    long tot = 1;
    for (int d = 0; d < c.dim; ++d) {
      c.B.push_back(r.in(0, 2));
      c.R.push_back(r.in(1, c.dim == 1 ? 6 : c.dim == 2 ? 4 : 3));
      tot *= npts(c.R.back(), c.B.back());
    }
    if (tot > maxPts) continue;
    bool ok = true;
    for (int d = 0; d < c.dim && ok; ++d) {
      auto u = static_cast<size_t>(d);
      int n = npts(c.R[u], c.B[u]);
      if (n < c.P[u]) ok = false;
      else c.dec.push_back(r.coin() ? randDec1(r, n, c.P[u]) : [&] { std::vector<int> x; for (int k = 0; k < c.P[u]; ++k) x.push_back(n * k / c.P[u]); return x; }());
    }
    if (!ok) continue;
    std::set<std::vector<int>> gs;
    for (int t = 0; t < 40 && static_cast<int>(gs.size()) < 4; ++t) {
      std::vector<int> g;
      std::vector<std::vector<int>> dd;
      std::vector<int> n;
      for (int d = 0; d < c.dim; ++d) {
        auto u = static_cast<size_t>(d);
        g.push_back(r.in(1, c.R[u]));
        dd.push_back(down1(c.dec[u], c.R[u], g.back(), c.B[u]));
        n.push_back(npts(g.back(), c.B[u]));
      }
      if (decValid(dd, n)) gs.insert(g);
    }
    if (gs.empty()) continue;
    c.grids.assign(gs.begin(), gs.end());
    // sparse grid: truncated simplex-like set, or an arbitrary subset of the subspaces
    auto all = downSet(c.R);
    int kind = r.in(0, 3);
    int sum = 0;
    for (int x : c.R) sum += x;
    int cut = r.in(c.dim, sum);
    for (auto& s : all) {
      int t = 0;
      for (int x : s) t += x;
      if (kind == 0 || (kind <= 2 && t <= cut) || (kind == 3 && r.coin())) c.sg.push_back(s);
    }
    if (c.sg.empty()) continue;
    c.type = r.pick(std::vector<std::string>{"double", "double", "float", "complex"});
    return c;
  }
}

template <class T> struct Runner {
  SCase& c;
  Rng r;
  MPI_Comm cc;
  int rank;
  std::ofstream& out;
  std::unique_ptr<DistributedSparseGridUniform<T>> dsg;
  std::vector<std::unique_ptr<OwningDistributedFullGrid<T>>> fg;
  bool haveData = false, full = true;
  void put(const Ev& e) { if (rank == 0) { out << e.str(); out.flush(); } }
  std::string all(const std::string& mine) {  // list over processes
    std::string s = gather(cc, mine + ",");
    if (!s.empty()) s.pop_back();
    return "[" + s + "]";
  }
  std::string sizes() {
    std::vector<unsigned> v;
    for (int k = 0; k < dsg->getNumSubspaces(); ++k) v.push_back(dsg->getDataSize(k));
    return all(js(v));
  }
  std::string data() {
    std::vector<std::vector<long>> v;
    for (int k = 0; k < dsg->getNumSubspaces(); ++k) {
      v.emplace_back();
      if (dsg->isSubspaceCurrentlyAllocated(k) && dsg->isSubspaceDataCreated())
        for (unsigned i = 0; i < dsg->getAllocatedDataSize(k); ++i) v.back().push_back(exact(toReal(dsg->getData(k)[i])));
    }
    return all(js(v));
  }
  static void raw(Ev& e, const char* k, const std::string& v) { e.s += ",\"" + std::string(k) + "\":" + v; }
  void alloc(const std::vector<int>& a) {
    Ev e("alloc");
    e.f("a", a);
    raw(e, "sz", sizes());
    raw(e, "d", data());
    put(e);
  }
  std::vector<long> vals(size_t n) {
    std::vector<long> v(n);
    for (auto& x : v) x = r.in(-9, 9);
    return v;
  }
  void run() {
    auto D = static_cast<DimType>(c.dim);
    std::vector<LevelVector> sub;
    for (auto& s : c.sg) sub.push_back(LevelVector(s.begin(), s.end()));
    dsg.reset(new DistributedSparseGridUniform<T>(D, sub, cc));
    std::vector<BoundaryType> bt(c.B.begin(), c.B.end());
    std::vector<IndexVector> d0(c.dec.begin(), c.dec.end());
    LevelVector R(c.R.begin(), c.R.end());
    for (auto& g : c.grids) {
      LevelVector L(g.begin(), g.end());
      fg.emplace_back(new OwningDistributedFullGrid<T>(D, L, cc, bt, c.P, false, downsampleDecomposition(d0, R, L, bt)));
    }
    auto reg = [&](size_t i) {
      dsg->registerDistributedFullGrid(*fg[i]);
      Ev e("reg");
      e.f("g", c.grids[i]);
      raw(e, "sz", sizes());
      put(e);
    };
    size_t nreg = static_cast<size_t>(r.in(1, static_cast<int>(fg.size())));
    for (size_t i = 0; i < nreg; ++i) reg(i);
    auto create = [&] {
      // the sum over all processes may be zero on some of them
      dsg->setZero();
      dsg->createSubspaceData();
      std::vector<int> a;
      for (int k = 0; k < dsg->getNumSubspaces(); ++k) a.push_back(k);
      full = true;
      alloc(a);
    };
    // a process without any point of the sparse grid cannot allocate: skip such cases (documented precondition)
    auto possible = [&](const std::set<int>& s) {
      long n = 0;
      for (int k : s) n += dsg->getDataSize(k);
      long m;
      MPI_Allreduce(&n, &m, 1, MPI_LONG, MPI_MIN, cc);
      return m > 0;
    };
    std::set<int> allS;
    for (int k = 0; k < dsg->getNumSubspaces(); ++k) allS.insert(k);
    if (!possible(allS)) return;
    create();
    int n = r.in(3, 8);
    for (int op = 0; op < n; ++op) {
      int what = r.in(0, 9);
      size_t gi = static_cast<size_t>(r.in(0, static_cast<int>(nreg) - 1));
      auto& g = *fg[gi];
      auto N = static_cast<size_t>(g.getNrElements());
      if (what <= 3) {
        auto v = vals(N);
        int co = r.in(-2, 2);
        setValues(g, v);
        if (full && r.coin()) dsg->template addDistributedFullGrid<true>(g, co);
        else dsg->template addDistributedFullGrid<false>(g, co);
        Ev e("add");
        e.f("g", c.grids[gi]).f("co", co).f("v", v);
        raw(e, "d", data());
        put(e);
      } else if (what <= 6) {
        auto v = vals(N);
        setValues(g, v);
        size_t k = full && r.coin() ? g.template extractFromUniformSG<true>(*dsg) : g.template extractFromUniformSG<false>(*dsg);
        auto w = allValues(g, cc);
        Ev e("extract");
        e.f("g", c.grids[gi]).f("v", v).f("w", w);
        raw(e, "nc", all(js(k)));
        put(e);
      } else if (what == 7) {
        std::set<int> s;
        for (int k : allS) if (r.coin()) s.insert(k);
        if (!s.empty() && possible(s)) {
          std::vector<int> a(s.begin(), s.end());
          dsg->allocateDifferentSubspaces(std::move(s));
          full = a.size() == allS.size();
          alloc(a);
        }
      } else if (what == 8) {
        dsg->clearMinMaxCoefficientsPerSubspace();
        dsg->accumulateMinMaxCoefficients();
        auto f = [&](const std::vector<real>& x) { std::vector<long> y; for (real q : x) y.push_back(std::abs(q) < 1e6 ? exact(q) : 2000000009L); return all(js(y)); };
        Ev e("minmax");
        raw(e, "mi", f(dsg->getMinCoefficientsPerSubspace()));
        raw(e, "ma", f(dsg->getMaxCoefficientsPerSubspace()));
        put(e);
      } else if (full && nreg < fg.size()) {
        reg(nreg++);
        dsg->deleteSubspaceData();
        create();
      }
    }
  }
};
template <class T> void go(SCase& c, uint64_t seed, MPI_Comm cc, int rank, std::ofstream& out) {
  Runner<T> r{c, Rng(seed), cc, rank, out, nullptr, {}};
  r.run();
}

int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  Stats::initialize();
  Args a(argc, argv);
  int wr, wn;
  MPI_Comm_rank(MPI_COMM_WORLD, &wr);
  MPI_Comm_size(MPI_COMM_WORLD, &wn);
  std::ofstream out;
  if (wr == 0) out.open(a.s("out", "trace.ndjson"));
  Rng g(static_cast<uint64_t>(a.i("seed", 1)));
  for (int id = 0, n = a.i("n", 100); id < n; ++id) {
    SCase c = randCase(g, wn, a.i("maxpts", 150));
    MPI_Comm sub = firstRanks(c.np);
    uint64_t s = g.next();
    if (sub != MPI_COMM_NULL) {
      MPI_Comm cc = cart(sub, c.P, c.B);
      std::vector<std::vector<int>> coords;
      for (int q = 0; q < c.np; ++q) {
        std::vector<int> x(static_cast<size_t>(c.dim));
        MPI_Cart_coords(cc, q, c.dim, x.data());
        coords.push_back(x);
      }
      if (wr == 0) {
        out << Ev("case").f("id", id).f("R", c.R).f("B", c.B).f("P", c.P).f("dec", c.dec).f("sg", c.sg).f("coords", coords).f("type", c.type).str();
        out.flush();
      }
      if (c.type == "double") go<double>(c, s, cc, wr, out);
      else if (c.type == "float") go<float>(c, s, cc, wr, out);
      else go<std::complex<double>>(c, s, cc, wr, out);
    }
    MPI_Barrier(MPI_COMM_WORLD);
    if (wr == 0) out << Ev("end").str();
  }
  Stats::finalize();
  MPI_Finalize();
  return 0;
}
