// records the index maps of distributed grids (C04)
#include "gridgen.hpp"
using namespace combigrid;
using namespace vh;

// the complete maps of a small grid, or those of some points of a big one (without data)
static void runCase(const GridCase& c, int id, std::ofstream& out, int wrank, bool big, uint64_t seed) {
  std::string rec;
  if (wrank == 0) { out << c.ev(id).f("big", big).str(); out.flush(); }
  MPI_Comm sub = firstRanks(c.np);
  if (sub != MPI_COMM_NULL) {
    MPI_Comm cc = cart(sub, c.P, c.B);
    std::unique_ptr<DistributedFullGrid<double>> grid;
    double none = 0;
    if (big) grid.reset(new DistributedFullGrid<double>(static_cast<DimType>(c.dim), c.lv(), cc, c.bt(), &none, c.P, c.fwd, c.decomposition()));
    else grid.reset(new OwningDistributedFullGrid<double>(static_cast<DimType>(c.dim), c.lv(), cc, c.bt(), c.P, c.fwd, c.decomposition()));
    auto& dfg = *grid;
    int r;
    MPI_Comm_rank(cc, &r);
    std::vector<int> co(static_cast<size_t>(c.dim));
    MPI_Cart_coords(cc, r, c.dim, co.data());
    Ev e("rank");
    e.f("r", r).f("c", co);
    auto D = static_cast<DimType>(c.dim);
    std::vector<std::vector<int>> coords, los, ups;
    for (int q = 0; q < c.np; ++q) {
      std::vector<int> x(static_cast<size_t>(c.dim));
      MPI_Cart_coords(cc, q, c.dim, x.data());
      coords.push_back(x);
      los.push_back(dfg.getLowerBounds(q));
      ups.push_back(dfg.getUpperBounds(q));
    }
    e.f("coords", coords).f("los", los).f("ups", ups);
    e.f("dec", dfg.getDecomposition()).f("ext", dfg.getGlobalSizes()).f("N", dfg.getNrElements());
    e.f("lo", dfg.getLowerBounds()).f("up", dfg.getUpperBounds()).f("lext", dfg.getLocalSizes()).f("n", dfg.getNrLocalElements());
    e.f("off", dfg.getOffsets()).f("loff", dfg.getLocalOffsets());
    std::vector<long> l2g, v2l, v2g, g2l;
    std::vector<std::vector<int>> l2v, g2v, g2lv, lil, lii, own;
    std::vector<std::vector<long>> gc, lc;
    std::vector<std::vector<bool>> bd;
    std::vector<bool> here, herev;
    auto num = [&](const std::vector<real>& x) {
      std::vector<long> y;
      for (size_t d = 0; d < x.size(); ++d) y.push_back(exact(x[d], std::pow(2., c.L[d])));
      return y;
    };
    Rng r2(seed);
    auto some = [&](IndexType n) {
      std::vector<IndexType> x;
      if (!big) for (IndexType i = 0; i < n; ++i) x.push_back(i);
      else {
        std::set<IndexType> s{0, n - 1};
        for (int k = 0; k < 12; ++k) s.insert(static_cast<IndexType>(r2.in(0, n - 1)));
        for (int k = 0; k < 4; ++k) s.insert(std::min(n - 1, 1 << r2.in(0, 28)));
        x.assign(s.begin(), s.end());
      }
      return x;
    };
    auto li = some(dfg.getNrLocalElements()), gi = some(dfg.getNrElements());
    if (big) {  // global points that are here, and their neighbours
      for (size_t k = 0; k < li.size(); k += 3) {
        auto x = dfg.getGlobalLinearIndex(li[k]);
        for (auto y : {x - 1, x, x + 1}) if (y >= 0 && y < dfg.getNrElements()) gi.push_back(y);
      }
      e.f("li", li).f("gi", gi);
    }
    for (IndexType i : li) {
      l2g.push_back(dfg.getGlobalLinearIndex(i));
      IndexVector v(D);
      dfg.getLocalVectorIndex(i, v);
      l2v.push_back(v);
      v2l.push_back(dfg.getLocalLinearIndex(v));
      std::vector<real> x;
      dfg.getCoordsLocal(i, x);
      lc.push_back(num(x));
      IndexVector gv(D), gv2(D);
      dfg.getGlobalVectorIndex(v, gv);
      dfg.getGlobalVectorIndex(dfg.getGlobalLinearIndex(i), gv2);
      if (gv != gv2) l2g.back() = -7;
    }
    for (IndexType i : gi) {
      IndexVector v(D);
      dfg.getGlobalVectorIndex(i, v);
      g2v.push_back(v);
      v2g.push_back(dfg.getGlobalLinearIndex(v));
      g2l.push_back(dfg.getLocalLinearIndex(i));
      here.push_back(dfg.isGlobalIndexHere(i));
      herev.push_back(dfg.isGlobalIndexHere(v));
      IndexVector w(D, -5);
      g2lv.push_back(dfg.getLocalVectorIndex(v, w) ? std::vector<int>(w.begin(), w.end()) : std::vector<int>());
      std::vector<real> x;
      dfg.getCoordsGlobal(i, x);
      gc.push_back(num(x));
      LevelVector ll;
      IndexVector li;
      dfg.getGlobalLI(i, ll, li);
      lil.push_back(ll);
      lii.push_back(li);
      std::vector<int> pc;
      dfg.getPartitionCoords(v, pc);
      own.push_back(pc);
      bd.push_back(dfg.isGlobalLinearIndexOnBoundary(i));
    }
    e.f("l2g", l2g).f("l2v", l2v).f("v2l", v2l).f("g2v", g2v).f("v2g", v2g).f("g2l", g2l).f("here", here).f("herev", herev);
    e.f("g2lv", g2lv).f("gc", gc).f("lc", lc).f("lil", lil).f("lii", lii).f("own", own).f("bd", bd);
    std::vector<std::vector<int>> lev, lp, rp, nbout, ai;
    std::vector<std::vector<std::vector<int>>> nb;
    std::vector<std::vector<bool>> edge;
    std::vector<long> loc, upc;
    auto uc = dfg.getUpperBoundsCoords();
    for (DimType d = 0; d < D; ++d) {
      lev.emplace_back(); lp.emplace_back(); rp.emplace_back(); nb.emplace_back();
      ai.push_back(some(dfg.globalNumPointsInDimension(d)));
      if (big) for (int k = 0; k < c.P[d]; ++k) for (auto y : {dfg.getDecomposition()[d][static_cast<size_t>(k)] - 1, dfg.getDecomposition()[d][static_cast<size_t>(k)]}) if (y >= 0) ai.back().push_back(y);
      for (IndexType i : ai.back()) {
        lev.back().push_back(dfg.getLevel(d, i));
        lp.back().push_back(dfg.getLeftPredecessor(d, i));
        rp.back().push_back(dfg.getRightPredecessor(d, i));
        int q = dfg.getNeighbor1dFromAxisIndex(d, i);
        nb.back().push_back(q >= 0 && q < c.np ? coords[static_cast<size_t>(q)] : std::vector<int>());
      }
      nbout.push_back({dfg.getNeighbor1dFromAxisIndex(d, -1), dfg.getNeighbor1dFromAxisIndex(d, dfg.globalNumPointsInDimension(d))});
      edge.push_back({dfg.getCartesianUtils().isOnLowerBoundaryInDimension(d), dfg.getCartesianUtils().isOnUpperBoundaryInDimension(d)});
      loc.push_back(exact(dfg.getLowerBoundsCoord(d), std::pow(2., c.L[d])));
      upc.push_back(exact(uc[d], std::pow(2., c.L[d])));
    }
    e.f("lev", lev).f("lp", lp).f("rp", rp).f("nb", nb).f("nbout", nbout).f("edge", edge).f("loc", loc).f("upc", upc);
    if (big) e.f("ai", ai);
    auto [a, b, s] = dfg.getSizesSubsizesStartsOfSubtensor();
    e.f("sub", std::vector<std::vector<int>>{a, b, s});
    rec = e.str();
    // communicators are kept: grids cache the process layout by communicator handle
  }
  std::string all = gather(MPI_COMM_WORLD, rec);
  if (wrank == 0) { out << all << Ev("end").str(); out.flush(); }
}

int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  Args a(argc, argv);
  int wr, wn;
  MPI_Comm_rank(MPI_COMM_WORLD, &wr);
  MPI_Comm_size(MPI_COMM_WORLD, &wn);
  std::ofstream out;
  if (wr == 0) out.open(a.s("out", "trace.ndjson"));
  Rng g(static_cast<uint64_t>(a.i("seed", 1)));
  int n = a.i("n", 100), maxPts = a.i("maxpts", 120);
  for (int id = 0; id < n; ++id) {
    int np = g.in(1, wn);
    if (g.coin(1, 3)) np = g.pick(std::vector<int>{2, 4, 6, 8});
    np = std::min(np, wn);
    int dim = g.in(1, 4);
    if (g.coin(1, 12)) dim = g.in(5, 6);
    GridCase c = randGrid(g, np, dim, dim == 1 ? 6 : dim == 2 ? 4 : 3, dim > 4 ? 260 : maxPts);
    runCase(c, id, out, wr, false, 0);
  }
  for (int id = 0, nb = a.i("nbig", 0); id < nb; ++id) {
    int np = g.in(1, wn), dim = g.in(1, 5);
    GridCase c = randGrid(g, np, dim, dim == 1 ? 27 : dim == 2 ? 15 : dim == 3 ? 12 : 9, 2100000000);
    runCase(c, n + id, out, wr, true, static_cast<uint64_t>(id) * 77 + static_cast<uint64_t>(a.i("seed", 1)));
  }
  MPI_Finalize();
  return 0;
}
