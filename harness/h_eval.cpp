// records evaluations of distributed grids and of combined solutions (C16)
#include <unistd.h>
#include "combigen.hpp"
#include "loadmodel/LinearLoadModel.hpp"
#include "utils/Stats.hpp"
using namespace combigrid;
using namespace vh;
static std::ofstream out;
static int wr, wn;
static void put(const Ev& e) { if (wr == 0) { out << e.str(); out.flush(); } }
static void raw(Ev& e, const char* k, const std::string& v) { e.s += ",\"" + std::string(k) + "\":" + v; }
// lists of all ranks as one list on rank 0
static std::string lists(MPI_Comm c, const std::string& mine) {
  std::string all = gather(c, mine + "\n"), s = "[";
  std::istringstream is(all);
  std::string line;
  while (std::getline(is, line)) s += (s.size() > 1 ? "," : "") + line;
  return s + "]";
}
// a coordinate numerator over 2^m: grid points, their neighbourhood, the border, process borders, anything
static int pick(Rng& r, int l, int m, const std::vector<int>& borders, int b) {
  int s = 1 << (m - l), top = 1 << m, q;
  switch (r.in(0, 5)) {
    case 0: q = r.pick(std::vector<int>{0, top, top - 1, 1, top - s, s, top - s + 1}); break;
    case 1: q = r.in(0, 1 << l) * s; break;
    case 2: q = (r.pick(borders) + (b == 0 ? 1 : 0)) * s + r.in(-s, s); break;
    default: q = r.in(0, top);
  }
  return std::max(0, std::min(top, q));
}
template <class T> std::vector<long> readFile(const std::string& fn, int dim, bool header, std::vector<int>& dims, size_t textHeader = 0) {
  std::ifstream f(fn, std::ios::binary);
  std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  size_t p = textHeader;
  std::vector<long> v;
  if (header) {
    // the format tools/errorCalc.cpp reads: int dimension, one int per dimension, data
    if (s.size() < 4) return v;
    int d;
    memcpy(&d, s.data(), 4);
    if (d != dim) dims.push_back(-d);
    for (int i = 0; i < dim && 4 * (static_cast<size_t>(i) + 2) <= s.size(); ++i) { int x; memcpy(&x, s.data() + 4 + 4 * i, 4); dims.push_back(x); }
    p = 4 * (static_cast<size_t>(dim) + 1);
  }
  for (; p + sizeof(T) <= s.size(); p += sizeof(T)) { T x; memcpy(&x, s.data() + p, sizeof(T)); v.push_back(exact(toReal(x))); }
  if (p != s.size()) v.push_back(-123456789);
  return v;
}
static std::vector<long> readVtk(const std::string& fn, std::vector<int>& dims, std::vector<int>& sp, long& count) {
  std::ifstream h(fn, std::ios::binary);
  std::string line, w;
  while (std::getline(h, line) && line.compare(0, 12, "LOOKUP_TABLE") != 0) {
    std::istringstream is(line);
    is >> w;
    if (w == "DIMENSIONS") for (auto& x : dims) is >> x;
    if (w == "SPACING") for (auto& x : sp) {
      std::string t = "0";
      is >> t;  // may be infinite if there is one point only
      x = static_cast<int>(std::lround(std::min(1e6, 1. / std::strtod(t.c_str(), nullptr))));
    }
    if (w == "POINT_DATA") is >> count;
  }
  std::vector<long> a;
  double y;
  char by[8];
  while (h.read(by, 8)) {  // the format wants the most significant byte first
    std::reverse(by, by + 8);
    memcpy(&y, by, 8);
    a.push_back(exact(y));
  }
  if (h.gcount() != 0) a.push_back(-999);
  return a;
}
template <class T> void grid(Rng& r, const GridCase& c, MPI_Comm cc, const std::vector<long>& v, const std::string& dir) {
  OwningDistributedFullGrid<T> g(static_cast<DimType>(c.dim), c.lv(), cc, c.bt(), c.P, c.fwd, c.decomposition());
  setValues(g, v);
  auto dec = g.getDecomposition();
  std::vector<int> m;
  int sh = 0;
  for (int l : c.L) { int x = r.in(0, 2); m.push_back(l + x); sh += x; }
  std::vector<std::vector<int>> qs;
  std::vector<std::vector<real>> xs;
  for (int k = 0, n = r.in(1, 12); k < n; ++k) {
    std::vector<int> q;
    std::vector<real> x;
    for (int d = 0; d < c.dim; ++d) {
      auto u = static_cast<size_t>(d);
      q.push_back(pick(r, c.L[u], m[u], std::vector<int>(dec[u].begin(), dec[u].end()), c.B[u]));
      x.push_back(std::ldexp(static_cast<double>(q.back()), -m[u]));
    }
    qs.push_back(q);
    xs.push_back(x);
  }
  auto res = g.getInterpolatedValues(xs);
  std::vector<long> rl;
  for (auto& x : res) rl.push_back(exact(toReal(x), std::ldexp(1., sh)));
  Ev e("eval");
  e.f("m", m).f("q", qs);
  raw(e, "res", lists(cc, js(rl)));
  put(e);
  {  // sum of the local contributions
    std::vector<double> loc;
    for (auto& x : xs) { T t = g.evalLocal(x); loc.push_back(toReal(t)); }
    std::vector<double> sum(loc.size());
    MPI_Allreduce(loc.data(), sum.data(), static_cast<int>(loc.size()), MPI_DOUBLE, MPI_SUM, cc);
    std::vector<long> sl;
    for (double x : sum) sl.push_back(exact(x, std::ldexp(1., sh)));
    Ev e2("eval");
    e2.f("m", m).f("q", qs);
    raw(e2, "res", lists(cc, js(sl)));
    put(e2);
  }
  {
    int L = 0, b2 = 0;
    for (int l : c.L) L += l;
    for (int b : c.B) b2 += b == 2;
    double mx = g.getLpNorm(0), on = g.getLpNorm(1), tw = g.getLpNorm(2);
    double sc = std::ldexp(1., L + b2);
    Ev f("norm");
    raw(f, "max", lists(cc, js(exact(mx))));
    raw(f, "one", lists(cc, js(near(on, sc))));
    raw(f, "two", lists(cc, js(near(tw * tw, sc * std::ldexp(1., L), 1e-4))));
    raw(f, "two1", lists(cc, js(near(tw * tw, sc, 1e-4))));
    put(f);
  }
  {
    std::vector<long> cv;
    for (auto& x : g.getCornersValues()) cv.push_back(exact(toReal(x)));
    Ev f("corners");
    raw(f, "res", lists(cc, js(cv)));
    put(f);
  }
  for (int k = 0; k < 2; ++k) {
    int d = r.in(0, c.dim - 1);
    auto lo = g.getLowerBounds(), up = g.getUpperBounds();
    std::vector<int> se;
    std::vector<T> layer;
    if (r.coin()) layer = g.exchangeGhostLayerUpward(static_cast<DimType>(d), se);
    else {
      MPI_Request rq = MPI_REQUEST_NULL;
      g.exchangeGhostLayerUpward(static_cast<DimType>(d), se, layer, &rq);
      MPI_Wait(&rq, MPI_STATUS_IGNORE);
    }
    std::vector<long> lv;
    for (auto& x : layer) lv.push_back(exact(toReal(x)));
    Ev f("ghost");
    f.f("d", d + 1);
    raw(f, "res", lists(cc, "{\"lo\":" + js(std::vector<int>(lo.begin(), lo.end())) + ",\"up\":" + js(std::vector<int>(up.begin(), up.end())) + ",\"v\":" + js(lv) + "}"));
    put(f);
    if (c.B[static_cast<size_t>(d)] == 2 && r.coin()) {
      g.writeLowerBoundaryToUpperBoundary(static_cast<DimType>(d));
      auto a = allValues(g, cc);
      Ev h("lowtoup");
      h.f("d", d + 1).f("v", a);
      put(h);
    }
  }
  int cr;
  MPI_Comm_rank(cc, &cr);
  {
    int root = r.in(0, c.np - 1);
    FullGrid<T> fg(static_cast<DimType>(c.dim), c.lv(), c.bt());
    g.gatherFullGrid(fg, root);
    std::vector<long> a;
    std::string s;
    if (cr == root) { for (IndexType i = 0; i < static_cast<IndexType>(fg.getNrElements()); ++i) a.push_back(exact(toReal(fg.getData()[i]))); s = js(a); }
    s = gather(cc, s);
    Ev f("gather");
    raw(f, "v", s);
    put(f);
    if (std::is_same<T, double>::value && cr == root) {  // text file of the gathered grid
      std::string fn = dir + "/plot_s.txt";
      fg.writePlotFile(fn.c_str());
    }
    MPI_Barrier(cc);
    if (std::is_same<T, double>::value && cr == 0) {
      std::string fn = dir + "/plot_s.txt";
      std::ifstream h(fn);
      int n = -1;
      h >> n;
      std::vector<int> dims;
      for (int d = 0; d < std::min(n, 20); ++d) { int x = -1; h >> x; dims.push_back(x); }
      std::vector<long> x;
      double y;
      while (h >> y) x.push_back(exact(y));
      put(Ev("plot").f("dims", dims).f("v", x).f("kind", "text"));
      unlink(fn.c_str());
    }
    if (std::all_of(c.B.begin(), c.B.end(), [](int b) { return b == 2; })) {  // the gathered grid is evaluated on one process
      std::string t;
      if (cr == root) {
        std::vector<long> rl;
        for (auto& x : xs) { auto y = x; rl.push_back(exact(toReal(fg.eval(y)), std::ldexp(1., sh))); }
        t = js(rl);
      }
      t = gather(cc, t);
      Ev h("eval");
      h.f("m", m).f("q", qs);
      raw(h, "res", "[" + t + "]");
      put(h);
    }
  }
  for (int k = 0; k < 2; ++k) {
    bool isRaw = k == 0;
    std::string fn = dir + "/plot_" + (isRaw ? "a.raw" : "b.dat");
    if (cr == 0) { unlink(fn.c_str()); unlink((fn + "_header").c_str()); }
    MPI_Barrier(cc);
    g.writePlotFile(fn.c_str());
    MPI_Barrier(cc);
    if (cr == 0) {
      std::vector<int> dims;
      auto a = readFile<T>(fn, c.dim, !isRaw, dims);
      if (isRaw) {
        std::ifstream h(fn + "_header");
        std::string w;
        int hd = -1;
        h >> w >> hd >> w;
        if (hd != c.dim) dims.push_back(-1000 - hd);
        for (int d = 0; d < c.dim; ++d) { int x = -1; h >> x; dims.push_back(x); }
      }
      put(Ev("plot").f("dims", dims).f("v", a).f("kind", isRaw ? "raw" : "header"));
      unlink(fn.c_str());
      unlink((fn + "_header").c_str());
    }
  }
  if constexpr (std::is_same<T, double>::value) {
    if (c.dim <= 3) {  // legacy VTK files: text up to the data, then the values
      std::string fn = dir + "/plot_c.vtk";
      if (cr == 0) unlink(fn.c_str());
      MPI_Barrier(cc);
      g.writePlotFileVTK(fn.c_str());
      MPI_Barrier(cc);
      if (cr == 0) {
        std::vector<int> dims(3, -1), sp(3, -1);
        long count = -1;
        auto a = readVtk(fn, dims, sp, count);
        put(Ev("vtk").f("dims", dims).f("sp", sp).f("count", count).f("v", a));
        unlink(fn.c_str());
      }
    }
  }
}
static void combined(Rng& r, const CombiCase& c, const std::string& dir) {
  ProcessGroupWorker<double> w;
  w.setCombiParameters(c.params());
  std::vector<LevelVector> ls;
  std::vector<real> cs;
  std::vector<size_t> ids;
  int me = theMPISystem()->getProcessGroupNumber();
  for (size_t i = 0; i < c.grids.size(); ++i)
    if (c.owner[i] == me) { ls.push_back(c.lv(c.grids[i])); cs.push_back(c.coef[i]); ids.push_back(i); }
  static LinearLoadModel lm;
  w.initializeAllTasks<VTaskT<double>>(ls, cs, ids, &lm);
  w.initCombinedDSGVector();
  w.zeroDsgsData();
  VTaskData::hold() = false;
  int ex = 0;
  for (int d = 0; d < c.dim; ++d) { auto u = static_cast<size_t>(d); ex += c.lmax[u] - c.lmin[u]; }
  prescribe(c, r.next(), 1L << c.K);
  w.runAllTasks();
  auto interp = [&]() {
    std::vector<std::vector<int>> qs;
    std::vector<std::vector<real>> xs;
    for (int k = 0, n = r.in(1, 10); k < n; ++k) {
      std::vector<int> q;
      std::vector<real> x;
      for (int d = 0; d < c.dim; ++d) {
        auto u = static_cast<size_t>(d);
        q.push_back(pick(r, r.in(c.lmin[u], c.lmax[u]), c.lmax[u], c.dec[u], c.B[u]));
        x.push_back(std::ldexp(static_cast<double>(q.back()), -c.lmax[u]));
      }
      qs.push_back(q);
      xs.push_back(x);
    }
    auto res = w.interpolateValues(xs);
    std::vector<long> rl;
    for (double x : res) rl.push_back(exact(x, std::ldexp(1., ex)));
    Ev e("interp");
    e.f("q", qs).f("ex", ex);
    raw(e, "res", lists(MPI_COMM_WORLD, js(rl)));
    put(e);
    // per-task norms: task number and maximum norm of every task of every group
    auto n0 = w.getLpNorms(0);
    std::string s;
    int lr;
    MPI_Comm_rank(theMPISystem()->getLocalComm(), &lr);
    for (size_t i = 0; i < n0.size(); ++i) s += (i ? "," : "") + std::string("[") + std::to_string(w.getTasks()[i]->getID() + 1) + "," + std::to_string(exact(n0[i])) + "]";
    Ev f("norms");
    raw(f, "res", lists(MPI_COMM_WORLD, "[" + s + "]"));
    put(f);
  };
  auto species = [&]() {
    std::string o = "[";
    for (size_t n = 0; n < static_cast<size_t>(c.nsp); ++n) o += (n ? "," : "") + allGrids<double>(w.getTasks(), MPI_COMM_WORLD, c.grids.size(), n);
    return o + "]";
  };
  Ev e("run");
  raw(e, "v", species());
  put(e);
  if (c.nsp == 1) interp();
  w.combineAtOnce(false);
  Ev f("combine");
  raw(f, "v", species());
  put(f);
  if (c.nsp == 1) interp();
  if (c.variant == "sg") {  // every group holds the complete sparse grid
    int who = r.in(0, c.ng - 1);
    std::vector<int> le;
    for (int d = 0; d < c.dim; ++d) { auto u = static_cast<size_t>(d); le.push_back(c.nsp > 1 && r.coin() ? c.lmax[u] : r.in(c.lmin[u], c.lmax[u])); }
    if (c.exponent(le) > c.K) le = r.pick(c.grids);
    std::string base = r.pick(std::vector<std::string>{dir + "/pe.raw", dir + "/pe.dat", "./pe.raw", "pe.raw"});
    bool vtk = c.nsp == 1 && c.dim <= 3 && r.coin(1, 3);
    if (vtk) base = dir + "/pe.vtk";
    if (me == who) w.parallelEvalUniform(base, c.lv(le));
    MPI_Barrier(MPI_COMM_WORLD);
    if (wr == 0) {
      auto p = base.rfind('.');
      for (int n = 0; n < c.nsp; ++n) {
        std::string fn = vtk ? base : base.substr(0, p) + "_" + std::to_string(n) + base.substr(p);
        std::vector<int> dims(vtk ? 3 : 0), sp(3, -1);
        long count = -1;
        auto a = vtk ? readVtk(fn, dims, sp, count) : readFile<double>(fn, c.dim, base.substr(p) == ".dat", dims);
        put(Ev("plot").f("lev", le).f("n", n + 1).f("v", a).f("name", base));
        unlink(fn.c_str());
        unlink((fn + "_header").c_str());
      }
    }
    MPI_Barrier(MPI_COMM_WORLD);
  }
  w.exit();
}
int main(int argc, char** argv) {
  int prov;
  MPI_Init_thread(&argc, &argv, MPI_THREAD_MULTIPLE, &prov);
  Stats::initialize();
  Args a(argc, argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &wr);
  MPI_Comm_size(MPI_COMM_WORLD, &wn);
  if (wr == 0) out.open(a.s("out", "trace.ndjson"));
  Rng g(static_cast<uint64_t>(a.i("seed", 1)));
  char cwd[4096];
  if (!getcwd(cwd, sizeof cwd)) return 3;
  if (a.s("mode", "grid") == "grid") {
    for (int id = 0, n = a.i("n", 50); id < n; ++id) {
      int dim = g.pick(std::vector<int>{1, 1, 2, 2, 2, 3, 3, 4, 5});
      GridCase c = randGrid(g, g.coin(1, 3) ? g.in(1, wn) : wn, dim, dim == 1 ? 5 : dim == 2 ? 4 : dim == 3 ? 3 : 2, 300);
      Rng r(g.next());
      std::vector<long> v;
      long tot = 1;
      for (int d = 0; d < dim; ++d) tot *= npts(c.L[static_cast<size_t>(d)], c.B[static_cast<size_t>(d)]);
      for (long i = 0; i < tot; ++i) v.push_back(r.in(-20, 20));
      Ev e = c.ev(id);
      bool f = r.coin(1, 5);
      e.f("v", v).f("type", f ? "float" : "double");
      put(e);
      MPI_Comm sub = firstRanks(c.np);
      if (sub != MPI_COMM_NULL) {
        MPI_Comm cc = cart(sub, c.P, c.B);
        if (f) grid<float>(r, c, cc, v, cwd);
        else grid<double>(r, c, cc, v, cwd);
      }
      MPI_Barrier(MPI_COMM_WORLD);
    }
  } else {
    for (int id = 0, n = a.i("n", 50); id < n; ++id) {
      CombiCase c = randCombi(g, wn, a.i("maxpts", 300));
      if (g.coin()) c.variant = "sg";
      if (c.variant == "sg" && g.coin(1, 3)) c.nsp = g.in(2, 3);
      VTaskData::grids() = static_cast<size_t>(c.nsp);
      // also on the finest grid
      if (c.exponent(c.lmax) <= 15) c.K = std::max(c.K, c.exponent(c.lmax));
      Rng r(g.next());
      put(c.ev(id));
      theMPISystem()->initWorldReusable(MPI_COMM_WORLD, static_cast<size_t>(c.ng), static_cast<size_t>(c.np), false);
      VTaskData::procs() = c.P;
      combined(r, c, cwd);
      MPI_Barrier(MPI_COMM_WORLD);
    }
  }
  Stats::finalize();
  MPI_Finalize();
  return 0;
}
