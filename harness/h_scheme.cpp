// records combination schemes (C02) and their distribution over groups and systems (C03)
#include "combischeme/CombiMinMaxScheme.hpp"
#include "combischeme/CombiThirdLevelScheme.hpp"
#include "gridgen.hpp"
using namespace combigrid;
using namespace vh;
typedef std::vector<std::vector<int>> VV;
static VV vv(const std::vector<LevelVector>& s) {
  VV r;
  for (auto& x : s) r.emplace_back(x.begin(), x.end());
  return r;
}
static LevelVector lv(const std::vector<int>& v) { return LevelVector(v.begin(), v.end()); }
static std::vector<long> co(const std::vector<double>& c) {
  std::vector<long> r;
  for (double x : c) r.push_back(exact(x));
  return r;
}
static std::vector<long> co4(const std::vector<double>& c) {
  std::vector<long> r;
  for (double x : c) r.push_back(exact(4 * x));
  return r;
}
static std::ofstream out;
static int wr, wn;
static void put(const Ev& e) { if (wr == 0) { out << e.str(); out.flush(); } }

static void scheme(int& id, const std::vector<int>& lo, const std::vector<int>& hi, Rng& g, bool down) {
  auto D = static_cast<DimType>(lo.size());
  put(Ev("case").f("id", id++).f("lmin", lo).f("lmax", hi));
  for (int k = 0; k < 2; ++k) {
    CombiMinMaxScheme s(D, lv(lo), lv(hi));
    if (k == 0) s.createClassicalCombischeme(); else s.createAdaptiveCombischeme();
    put(Ev("gen").f("kind", k == 0 ? "class" : "adapt").f("lv", vv(s.getCombiSpaces())).f("co", co(s.getCoeffs())));
    if (g.coin()) {
      s.makeFaultTolerant();
      put(Ev("ft").f("lv", vv(s.getCombiSpaces())).f("co", co(s.getCoeffs())));
    }
    if (down) {
      s.createDownSet();
      put(Ev("down").f("s", vv(s.getDownSet())));
    }
  }
  if (down) {
    std::vector<LevelVector> created;
    createTruncatedHierarchicalLevels(lv(hi), lv(lo), created);
    put(Ev("trunc").f("s", vv(created)));
    HypercubeDownSetGenerator h(lv(hi));
    std::vector<LevelVector> hs;
    for (LevelType i = 0; i < h.getTotalNumberOfLevels(); ++i) hs.push_back(h.getNextLevel());
    put(Ev("below").f("v", hi).f("s", vv(getDownSet(lv(hi)))).f("h", vv(hs)).f("n", h.getTotalNumberOfLevels()));
    std::vector<BoundaryType> bt;
    std::vector<int> B;
    for (size_t d = 0; d < hi.size(); ++d) { B.push_back(g.in(0, 2)); bt.push_back(static_cast<BoundaryType>(B.back())); }
    put(Ev("dof").f("v", hi).f("B", B).f("nodal", getNumDofNodal(lv(hi), bt)).f("combi", getCombiDegreesOfFreedom(lv(hi), bt))
            .f("hier", getNumDofHierarchical(lv(hi), bt)).f("s", vv(created)).f("sg", getSGDegreesOfFreedomFromDownSet(created)));
    // per-process sizes for a decomposition of a reference grid (both boundaries)
    std::vector<int> R = hi;
    VV dec;
    for (size_t d = 0; d < hi.size(); ++d) {
      R[d] = hi[d] + g.in(0, 1);
      int n = npts(R[d], 2);
      dec.push_back(randDec1(g, n, std::min(n, g.in(1, hi.size() > 2 ? 3 : 5))));
    }
    std::vector<IndexVector> dd(dec.begin(), dec.end());
    put(Ev("part").f("R", R).f("dec", dec).f("s", vv(created)).f("n", getPartitionedNumDOFSG(created, lv(R), dd)));
  }
}
static void writeScheme(const std::string& fn, const VV& l, const std::vector<long>& c4, const std::vector<int>& gr, Rng& g) {
  std::ofstream f(fn);
  f << "[\n";
  for (size_t i = 0; i < l.size(); ++i) {
    std::ostringstream a, b, d;
    a << "\"coeff\": " << static_cast<double>(c4[i]) / 4.;
    if (c4[i] % 4 == 0 && g.coin()) a << ".0";
    b << "\"level\": " << js(l[i]);
    d << "\"group_no\": " << (gr.empty() ? 0 : gr[i]);
    f << "  {";
    if (g.coin()) f << a.str() << ", " << b.str(); else f << b.str() << ", " << a.str();
    if (!gr.empty()) f << ", " << d.str();
    f << "}" << (i + 1 < l.size() ? "," : "") << "\n";
  }
  f << "]\n";
}
struct RandScheme { VV l; std::vector<long> c4; std::vector<int> gr, lo, hi; };
static RandScheme randScheme(Rng& g) {
  RandScheme s;
  size_t D = static_cast<size_t>(g.in(1, 6));
  int n = g.coin(1, 12) ? g.in(200, 300) : g.in(1, 20);
  for (size_t d = 0; d < D; ++d) { s.lo.push_back(g.in(1, 3)); s.hi.push_back(s.lo[d] + g.in(0, 9)); }
  for (int i = 0; i < n; ++i) {
    s.l.emplace_back();
    for (size_t d = 0; d < D; ++d) s.l.back().push_back(g.in(s.lo[d], s.hi[d]));
    s.c4.push_back(g.coin() ? 4 * g.in(-3, 3) : g.in(-13, 13));
  }
  return s;
}
static void files(int& id, Rng& g) {
  RandScheme s = randScheme(g);
  bool groups = g.coin();
  if (groups) for (size_t i = 0; i < s.l.size(); ++i) s.gr.push_back(i == 0 ? 0 : g.in(0, 5));
  std::string fn = "scheme" + std::to_string(id) + ".json";
  if (wr == 0) writeScheme(fn, s.l, s.c4, s.gr, g); else { std::ofstream nul("/dev/null"); Rng h = g; (void)h; }
  // the generator state must stay the same on all ranks
  uint64_t st = g.next();
  MPI_Bcast(&st, 1, MPI_UINT64_T, 0, MPI_COMM_WORLD);
  g = Rng(st);
  MPI_Barrier(MPI_COMM_WORLD);
  CombiMinMaxSchemeFromFile f(static_cast<DimType>(s.lo.size()), lv(s.lo), lv(s.hi), fn, MPI_COMM_WORLD);
  Ev r("x");
  std::string mine = "{\"lv\":" + js(vv(f.getCombiSpaces())) + ",\"co\":" + js(co4(f.getCoeffs())) + ",\"gr\":" + js(std::vector<int>(f.getProcessGroupNumbers().begin(), f.getProcessGroupNumbers().end())) + "}";
  std::string all = gather(MPI_COMM_WORLD, mine + ",");
  if (!all.empty()) all.pop_back();
  put(Ev("case").f("id", id++).f("lmin", s.lo).f("lmax", s.hi));
  Ev e("file");
  e.f("lv", s.l).f("co", s.c4).f("gr", s.gr);
  e.s += ",\"r\":[" + all + "]";
  put(e);
  if (groups) {
    Ev q("dist");
    q.f("kind", "file").f("lv", s.l).f("co", s.c4).f("gr", s.gr);
    std::string parts;
    for (int k = 0; k <= 5; ++k) {
      std::vector<LevelVector> L;
      std::vector<real> C;
      std::vector<size_t> T;
      size_t n = getAssignedLevels(f, k, L, C, T);
      parts += std::string(k ? "," : "") + "{\"t\":" + js(T) + ",\"lv\":" + js(vv(L)) + ",\"co\":" + js(co4(C)) + ",\"n\":" + js(n) + "}";
    }
    q.s += ",\"parts\":[" + parts + "]";
    put(q);
  }
}
static void dist(int& id, Rng& g) {
  RandScheme s = randScheme(g);
  // small grids only: the loads are summed by the specification
  for (auto& x : s.l) for (auto& y : x) y = 1 + y % 4;
  std::vector<LevelVector> L0;
  std::vector<real> C0;
  for (auto& x : s.l) L0.push_back(lv(x));
  for (long x : s.c4) C0.push_back(static_cast<double>(x) / 4.);
  CombiMinMaxScheme sch(L0, C0);
  put(Ev("case").f("id", id++).f("lmin", s.lo).f("lmax", s.hi));
  std::vector<int> B;
  std::vector<BoundaryType> bt;
  for (size_t d = 0; d < s.lo.size(); ++d) { B.push_back(g.in(0, 2)); bt.push_back(static_cast<BoundaryType>(B.back())); }
  int n = static_cast<int>(s.l.size());
  for (int k = 0; k < 2; ++k) {
    int ng = g.in(1, std::min(n, 12));
    std::string parts;
    for (int p = 0; p < ng; ++p) {
      std::vector<LevelVector> L;
      std::vector<real> C;
      std::vector<size_t> T;
      size_t tot = k == 0 ? getRoundRobinLevels(sch, p, static_cast<size_t>(ng), L, C, T)
                          : getLoadBalancedLevels(sch, p, static_cast<size_t>(ng), bt, L, C, T);
      parts += std::string(p ? "," : "") + "{\"t\":" + js(T) + ",\"lv\":" + js(vv(L)) + ",\"co\":" + js(co4(C)) + ",\"n\":" + js(tot) + "}";
    }
    Ev q("dist");
    q.f("kind", k == 0 ? "rr" : "lb").f("lv", s.l).f("co", s.c4).f("B", B);
    q.s += ",\"parts\":[" + parts + "]";
    put(q);
  }
  // systems
  int ns = g.in(1, 5);
  std::vector<int> fr;
  int left = 1000;
  for (int k = 0; k < ns; ++k) { int f = k + 1 == ns ? left : (g.coin(1, 4) ? 1000 / ns : g.in(0, left)); f = std::min(f, left); fr.push_back(f); left -= f; }
  std::vector<real> frac;
  for (int f : fr) frac.push_back(f / 1000.);
  std::string parts;
  for (int k = 0; k < ns; ++k) {
    std::vector<LevelVector> L;
    std::vector<real> C;
    CombiThirdLevelScheme::createThirdLevelScheme(L0, C0, static_cast<unsigned>(k), static_cast<unsigned>(ns), L, C, frac);
    parts += std::string(k ? "," : "") + "{\"lv\":" + js(vv(L)) + ",\"co\":" + js(co4(C)) + "}";
  }
  Ev q("sys");
  q.f("lv", s.l).f("co", s.c4).f("fr", fr);
  q.s += ",\"parts\":[" + parts + "]";
  put(q);
}
static void prod(std::vector<std::vector<int>>& r, size_t D, int a, int b) {
  r = {{}};
  for (size_t d = 0; d < D; ++d) {
    VV n;
    for (auto& x : r) for (int k = a; k <= b; ++k) { n.push_back(x); n.back().push_back(k); }
    r = n;
  }
}
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  Args a(argc, argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &wr);
  MPI_Comm_size(MPI_COMM_WORLD, &wn);
  if (wr == 0) out.open(a.s("out", "trace.ndjson"));
  Rng g(static_cast<uint64_t>(a.i("seed", 1)));
  int id = 0;
  if (a.s("mode", "scheme") == "scheme") {
    int deep = a.i("deep", 0);
    // every pair of small levels
    for (size_t D = 1; D <= 3; ++D) {
      VV lo, df;
      prod(lo, D, 1, D == 3 ? 2 : 3);
      prod(df, D, 0, D == 1 ? 6 : D == 2 ? 4 + deep : 3);
      for (auto& x : lo) for (auto& w : df) {
        if (D == 3 && !deep && g.in(0, 2) != 0 && x != std::vector<int>{1, 1, 1}) continue;
        std::vector<int> hi = x;
        for (size_t d = 0; d < D; ++d) hi[d] += w[d];
        scheme(id, x, hi, g, true);
      }
    }
    // higher dimensions
    for (int k = 0, n = a.i("n", 60); k < n; ++k) {
      size_t D = static_cast<size_t>(g.in(4, deep ? 6 : 5));
      std::vector<int> lo, hi;
      bool even = g.coin();
      int w = g.in(0, 2);
      for (size_t d = 0; d < D; ++d) { lo.push_back(g.in(1, 2)); hi.push_back(lo[d] + (g.coin(1, 4) ? 0 : even ? w : g.in(0, D == 4 ? 3 : 2))); }
      scheme(id, lo, hi, g, D == 4);
    }
    // many dimensions
    for (size_t D : deep ? std::vector<size_t>{7, 9, 12} : std::vector<size_t>{7, 10}) {
      std::vector<int> lo, hi;
      for (size_t d = 0; d < D; ++d) { lo.push_back(g.in(1, 2)); hi.push_back(lo[d] + (D > 9 ? 1 : 2)); }
      scheme(id, lo, hi, g, false);
    }
    // many grids
    scheme(id, {1, 1, 1}, {14, 14, 14}, g, false);
    scheme(id, {1, 2}, {140, 141}, g, false);
    scheme(id, {2, 1, 1}, {2, 12, 15}, g, false);
    for (int k = 0, n = a.i("nf", 60); k < n; ++k) files(id, g);
  } else {
    for (int k = 0, n = a.i("n", 300); k < n; ++k) { if (k % 4 == 0) files(id, g); else dist(id, g); }
  }
  MPI_Finalize();
  return 0;
}
