// records basis changes on distributed grids (C05)
#include "gridgen.hpp"
#include "hierarchization/DistributedHierarchization.hpp"
#include "hierarchization/Hierarchization.hpp"
#include "utils/Stats.hpp"
using namespace combigrid;
using namespace vh;

struct Bases {
  HierarchicalHatBasisFunction hat;
  HierarchicalHatPeriodicBasisFunction hatp;
  FullWeightingBasisFunction fw;
  FullWeightingPeriodicBasisFunction fwp;
  BiorthogonalBasisFunction bo;
  BiorthogonalPeriodicBasisFunction bop;
  BasisFunctionBasis* get(const std::string& n) {
    if (n == "hat") return &hat;
    if (n == "hatp") return &hatp;
    if (n == "fw") return &fw;
    if (n == "fwp") return &fwp;
    if (n == "bo") return &bo;
    return &bop;
  }
};

struct HCase {
  GridCase g;
  std::vector<std::string> bases;
  std::vector<bool> dims;
  std::vector<int> lmin;
  int style;  // which entry point
  bool setAfter;
  std::vector<long> v0, v1;
};

static int total(const GridCase& g) {
  int t = 1;
  for (int d = 0; d < g.dim; ++d) t *= npts(g.L[static_cast<size_t>(d)], g.B[static_cast<size_t>(d)]);
  return t;
}

static HCase randCase(Rng& r, int wn) {
  for (;;) {
    HCase h;
    int np = std::min(wn, r.coin(1, 3) ? r.pick(std::vector<int>{2, 4, 6, 8}) : r.in(1, wn));
    int dim = r.coin(1, 12) ? r.in(5, 6) : r.in(1, 4);
    bool hatOnly = r.coin();
    bool deep = r.coin(1, 8);  // longer poles
    h.g = randGrid(r, np, dim, dim == 1 ? (deep ? 9 : 7) : dim == 2 ? (deep ? 6 : 5) : 3, dim == 1 ? (deep ? 520 : 140) : dim > 4 || deep ? 400 : 200);
    int bits = 0, S = 0;
    bool wave = false;
    std::string uni;
    h.style = r.in(0, 2);
    bool uniform = h.style == 1, whole = h.style == 2 && r.coin();
    for (int d = 0; d < dim; ++d) {
      auto u = static_cast<size_t>(d);
      int b = h.g.B[u];
      std::vector<std::string> c = hatOnly || b == 0 ? std::vector<std::string>{"hat", "hatp"} : b == 1 ? std::vector<std::string>{"hat", "hatp", "fwp", "bop"}
          : std::vector<std::string>{"hat", "hatp", "fw", "bo", "fw", "bo", "fwp", "bop"};
      if (b == 0) c = {"hat"};
      std::string n = r.pick(c);
      if (h.style == 2) n = "hat";
      h.bases.push_back(n);
      h.dims.push_back(h.style == 2 ? true : !r.coin(1, 6));
      h.lmin.push_back(b == 0 || whole ? 0 : r.coin() ? 0 : r.in(0, h.g.L[u] + 1));
      int k = std::max(0, h.g.L[u] - h.lmin.back());
      if (!h.dims.back()) k = 0;
      if (n.substr(0, 3) == "hat") bits += k > 0 ? 1 : 0;
      else { bits += 3 * k; wave = true; }
      S += k;
    }
    if (uniform) {  // one basis for all dimensions through the aliases
      bool ok = true;
      for (auto& n : h.bases) if (n != h.bases[0]) ok = false;
      if (!ok) h.style = 0;
    }
    if (wave && bits > 21) continue;
    h.setAfter = wave ? (bits <= 15 && S <= 5) : S <= 12;
    long scale = 1L << bits, scale1 = wave ? (1L << std::max(bits, S)) : (1L << S);
    int N = total(h.g);
    h.v0.resize(static_cast<size_t>(N));
    h.v1.resize(static_cast<size_t>(N));
    int kind = r.in(0, 3);
    for (int i = 0; i < N; ++i) {
      long a = r.in(-4, 4);
      if (kind == 1) a = i == N / 2 ? 3 : 0;
      h.v0[static_cast<size_t>(i)] = a * scale;
      h.v1[static_cast<size_t>(i)] = static_cast<long>(r.in(-3, 3)) * scale1;
    }
    // periodic bases on grids with both ends need equal end values
    int off = 1;
    for (int d = 0; d < dim; ++d) {
      auto u = static_cast<size_t>(d);
      int n = npts(h.g.L[u], h.g.B[u]);
      if (h.g.B[u] == 2 && (h.bases[u] == "fwp" || h.bases[u] == "bop"))
        for (int i = 0; i < N; ++i)
          if ((i / off) % n == n - 1)
            for (auto* v : {&h.v0, &h.v1}) (*v)[static_cast<size_t>(i)] = (*v)[static_cast<size_t>(i - (n - 1) * off)];
      off *= n;
    }
    return h;
  }
}

static void apply(HCase& h, DistributedFullGrid<double>& dfg, bool hier) {
  Bases b;
  LevelVector lmin(h.lmin.begin(), h.lmin.end());
  using DH = DistributedHierarchization;
  if (h.style == 0) {
    std::vector<BasisFunctionBasis*> p;
    for (auto& n : h.bases) p.push_back(b.get(n));
    if (hier) DH::hierarchize<double>(dfg, h.dims, p, lmin);
    else DH::dehierarchizeDFG<double>(dfg, h.dims, p, lmin);
  } else if (h.style == 1) {
    const auto& n = h.bases[0];
    if (hier) {
      if (n == "hat") DH::hierarchizeHierarchicalHat<double>(dfg, h.dims, lmin);
      if (n == "hatp") DH::hierarchizeHierarchicalHatPeriodic<double>(dfg, h.dims, lmin);
      if (n == "fw") DH::hierarchizeFullWeighting<double>(dfg, h.dims, lmin);
      if (n == "fwp") DH::hierarchizeFullWeightingPeriodic<double>(dfg, h.dims, lmin);
      if (n == "bo") DH::hierarchizeBiorthogonal<double>(dfg, h.dims, lmin);
      if (n == "bop") DH::hierarchizeBiorthogonalPeriodic<double>(dfg, h.dims, lmin);
    } else {
      if (n == "hat") DH::dehierarchizeHierarchicalHat<double>(dfg, h.dims, lmin);
      if (n == "hatp") DH::dehierarchizeHierachicalBasis<double, HierarchicalHatPeriodicBasisFunction>(dfg, h.dims, lmin);
      if (n == "fw") DH::dehierarchizeFullWeighting<double>(dfg, h.dims, lmin);
      if (n == "fwp") DH::dehierarchizeFullWeightingPeriodic<double>(dfg, h.dims, lmin);
      if (n == "bo") DH::dehierarchizeBiorthogonal<double>(dfg, h.dims, lmin);
      if (n == "bop") DH::dehierarchizeBiorthogonalPeriodic<double>(dfg, h.dims, lmin);
    }
  } else {
    if (hier) DH::hierarchize<double>(dfg, lmin);
    else DH::dehierarchize<double>(dfg, lmin);
  }
}

static void runCase(HCase& h, int id, std::ofstream& out, int wrank) {
  if (wrank == 0) {
    out << h.g.ev(id).f("bases", h.bases).f("dims", h.dims).f("lmin", h.lmin).f("style", h.style).f("v", h.v0).str();
    out.flush();
  }
  MPI_Comm sub = firstRanks(h.g.np);
  if (sub != MPI_COMM_NULL) {
    MPI_Comm cc = cart(sub, h.g.P, h.g.B);
    OwningDistributedFullGrid<double> dfg(static_cast<DimType>(h.g.dim), h.g.lv(), cc, h.g.bt(), h.g.P, h.g.fwd, h.g.decomposition());
    auto put = [&](const char* n) {
      auto v = allValues(dfg, cc);
      if (wrank == 0) { out << Ev(n).f("v", v).str(); out.flush(); }
    };
    setValues(dfg, h.v0);
    apply(h, dfg, true);
    put("hier");
    apply(h, dfg, false);
    put("dehier");
    if (h.setAfter) {
      setValues(dfg, h.v1);
      put("set");
      apply(h, dfg, false);
      put("dehier");
      apply(h, dfg, true);
      put("hier");
    }
  }
  // the same on one process, with the undistributed grid
  bool serial = wrank == 0;
  for (size_t d = 0; d < h.g.L.size(); ++d) if (h.bases[d] != "hat" || !h.dims[d] || h.lmin[d] != 0 || h.g.B[d] == 1) serial = false;
  if (serial) {
    FullGrid<double> fg(static_cast<DimType>(h.g.dim), h.g.lv(), h.g.bt());
    fg.createFullGrid();
    for (int t = 0; t < (h.setAfter ? 2 : 1); ++t) {
      auto& v = t == 0 ? h.v0 : h.v1;
      auto put = [&](const char* n) {
        std::vector<long> x;
        for (size_t i = 0; i < v.size(); ++i) x.push_back(exact(fg.getData()[i]));
        out << Ev(n).f("v", x).str();
      };
      if (static_cast<size_t>(fg.getNrElements()) != v.size()) { out << Ev("size").str(); break; }
      for (size_t i = 0; i < v.size(); ++i) fg.getData()[i] = static_cast<double>(v[i]);
      put("set");
      if (t == 0) { Hierarchization::hierarchize(fg); put("hier"); Hierarchization::dehierarchize(fg); put("dehier"); }
      else { fg.setHierarchized(); Hierarchization::dehierarchize(fg); put("dehier"); Hierarchization::hierarchize(fg); put("hier"); }
    }
    out.flush();
  }
  MPI_Barrier(MPI_COMM_WORLD);
  if (wrank == 0) out << Ev("end").str();
}

int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  Stats::initialize();
  Args a(argc, argv);
  int wr, wn;
  MPI_Comm_rank(MPI_COMM_WORLD, &wr);
  MPI_Comm_size(MPI_COMM_WORLD, &wn);
  std::ofstream out;
  if (wr == 0) out.open(a.s("out", "trace.ndjson"));
  Rng g(static_cast<uint64_t>(a.i("seed", 1)));
  for (int id = 0, n = a.i("n", 100); id < n; ++id) {
    HCase c = randCase(g, wn);
    runCase(c, id, out, wr);
  }
  Stats::finalize();
  MPI_Finalize();
  return 0;
}
