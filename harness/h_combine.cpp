// records whole combination steps of process groups without a manager (C01)
#include "combigen.hpp"
#include "loadmodel/LinearLoadModel.hpp"
#include "utils/Stats.hpp"
using namespace combigrid;
using namespace vh;
static std::ofstream out;
static int wr, wn;
static void put(const Ev& e) { if (wr == 0) { out << e.str(); out.flush(); } }
static void raw(Ev& e, const char* k, const std::string& v) { e.s += ",\"" + std::string(k) + "\":" + v; }
template <class T> std::string species(ProcessGroupWorker<T>& w, const CombiCase& c) {
  std::string s = "[";
  for (size_t n = 0; n < static_cast<size_t>(c.nsp); ++n) s += (n ? "," : "") + allGrids<T>(w.getTasks(), MPI_COMM_WORLD, c.grids.size(), n);
  return s + "]";
}
template <class T> void go(const CombiCase& c, Rng r, bool big = false) {
  ProcessGroupWorker<T> w;
  w.setCombiParameters(c.params());
  std::vector<LevelVector> ls;
  std::vector<real> cs;
  std::vector<size_t> ids;
  int me = theMPISystem()->getProcessGroupNumber();
  for (size_t i = 0; i < c.grids.size(); ++i)
    if (c.owner[i] == me) { ls.push_back(c.lv(c.grids[i])); cs.push_back(c.coef[i]); ids.push_back(i); }
  static LinearLoadModel lm;
  w.template initializeAllTasks<VTaskT<T>>(ls, cs, ids, &lm);
  w.initCombinedDSGVector();
  w.zeroDsgsData();
  if (big) {
    for (int s = 0, n = r.in(1, 2); s < n; ++s) {
      prescribe(c, r.next(), 1);
      auto pts = somePoints(r, c, 250);
      w.runAllTasks();
      auto before = atPoints<T>(w.getTasks(), c, pts, MPI_COMM_WORLD);
      w.combineAtOnce(r.coin(1, 4));
      Ev e("big");
      e.f("p", pts);
      raw(e, "u", before);
      raw(e, "v", atPoints<T>(w.getTasks(), c, pts, MPI_COMM_WORLD));
      put(e);
    }
    w.exit();
    return;
  }
  int steps = r.in(1, 3), holds = 0, maxHold = 0;
  while ((maxHold + 2) * c.K <= 15 && maxHold < 2) ++maxHold;
  long scale = 1L << (c.K * (maxHold + 1));
  for (int s = 0; s < steps; ++s) {
    bool hold = s > 0 && holds < maxHold && r.coin(1, 3);
    VTaskData::hold() = hold;
    holds = hold ? holds + 1 : 0;
    prescribe(c, r.next(), scale);
    w.runAllTasks();
    Ev e("run");
    raw(e, "v", species<T>(w, c));
    put(e);
    bool two = c.variant != "chunk" && r.coin(1, 3);
    bool mm = r.coin(1, 4);
    if (two) { w.combineSystemWide(); w.updateFullFromCombinedSparseGrids(); }
    else w.combineAtOnce(mm);
    Ev f("combine");
    f.f("two", two).f("n", w.getCurrentNumberOfCombinations()).f("s", s + 1);
    raw(f, "v", species<T>(w, c));
    put(f);
  }
  w.exit();
}
int main(int argc, char** argv) {
  int prov;
  MPI_Init_thread(&argc, &argv, MPI_THREAD_MULTIPLE, &prov);
  Stats::initialize();
  Args a(argc, argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &wr);
  MPI_Comm_size(MPI_COMM_WORLD, &wn);
  if (wr == 0) out.open(a.s("out", "trace.ndjson"));
  Rng g(static_cast<uint64_t>(a.i("seed", 1)));
  for (int id = 0, n = a.i("n", 50); id < n; ++id) {
    CombiCase c = randCombi(g, wn, a.i("maxpts", 400));
    if (c.variant != "chunk" && g.coin(1, 4)) c.nsp = g.in(2, 3);
    VTaskData::grids() = static_cast<size_t>(c.nsp);
    uint64_t s = g.next();
    put(c.ev(id));
    theMPISystem()->initWorldReusable(MPI_COMM_WORLD, static_cast<size_t>(c.ng), static_cast<size_t>(c.np), false);
    VTaskData::procs() = c.P;
    go<double>(c, Rng(s));
    MPI_Barrier(MPI_COMM_WORLD);
    put(Ev("end"));
  }
  for (int id = 0, n = a.i("big", 0); id < n; ++id) {
    CombiCase c = bigCombi(g, wn);
    VTaskData::grids() = 1;
    uint64_t s = g.next();
    put(c.ev(100000 + id));
    theMPISystem()->initWorldReusable(MPI_COMM_WORLD, static_cast<size_t>(c.ng), static_cast<size_t>(c.np), false);
    VTaskData::procs() = c.P;
    go<double>(c, Rng(s), true);
    MPI_Barrier(MPI_COMM_WORLD);
    put(Ev("end"));
  }
  Stats::finalize();
  MPI_Finalize();
  return 0;
}
