// records the reported minimum and maximum coefficients per subspace (C19)
#include <unistd.h>
#include "combigen.hpp"
#include "tick.hpp"
#include "loadmodel/LinearLoadModel.hpp"
#include "manager/ProcessGroupManager.hpp"
#include "manager/ProcessManager.hpp"
#include "utils/BoostExports.hpp"
#include "utils/Stats.hpp"
using namespace combigrid;
using namespace vh;
static std::ofstream out;
static int wr, wn;
static Tick tk;
static CombiCase cc;
static uint64_t caseSeed;
static void raw(Ev& e, const char* k, const std::string& v) { e.s += ",\"" + std::string(k) + "\":" + v; }
class ETask : public combigrid::Task<double> {
 public:
  ETask(const LevelVector& l, const std::vector<BoundaryType>& b, real coeff, LoadModel* m) : Task<double>(l, b, coeff, m) {}
  ETask() {}
  ~ETask() override { for (auto x : g) delete x; }
  void init(CommunicatorType lcomm, const std::vector<IndexVector>& dec) override {
    for (auto x : g) delete x;
    g.clear();
    for (int i = 0; i < cc.nsp; ++i) {
      g.push_back(new OwningDistributedFullGrid<double>(getDim(), getLevelVector(), lcomm, getBoundary(), cc.P, false, dec));
      std::fill(g.back()->getData(), g.back()->getData() + g.back()->getNrLocalElements(), 0.);
    }
  }
  void run(CommunicatorType lcomm) override {
    ++n;
    prescribe(cc, caseSeed + static_cast<uint64_t>(n) * 7919, 1L << cc.K);
    int lr;
    MPI_Comm_rank(lcomm, &lr);
    for (size_t k = 0; k < g.size(); ++k) {
      VTaskData::which() = k;
      for (IndexType i = 0; i < g[k]->getNrLocalElements(); ++i) g[k]->getData()[i] = static_cast<double>(VTaskData::value()(getID(), g[k]->getGlobalLinearIndex(i)));
      auto v = allValues(*g[k], lcomm);
      if (lr == 0) tk.rec(Ev("run").f("t", getID() + 1).f("s", n).f("k", k + 1).f("v", v));
    }
    VTaskData::which() = 0;
    MPI_Barrier(lcomm);
    setFinished(true);
  }
  DistributedFullGrid<double>& getDistributedFullGrid(size_t k) override { return *g[k]; }
  const DistributedFullGrid<double>& getDistributedFullGrid(size_t k) const override { return *g[k]; }
  void setZero() override {}
  std::vector<OwningDistributedFullGrid<double>*> g;
  int n = 0;
 private:
  friend class boost::serialization::access;
  template <class A> void serialize(A& ar, const unsigned int) { ar& boost::serialization::base_object<Task<double>>(*this); ar& n; }
};
BOOST_CLASS_EXPORT(ETask)
// the lines of a report: level, smallest, largest
static void report(const std::string& name, int no) {
  for (int k = 0; k < cc.nsp; ++k) {
    std::ifstream f(name + "_" + std::to_string(k) + ".txt");
    std::vector<std::vector<long>> lines;
    bool there = static_cast<bool>(f);
    std::string l;
    while (std::getline(f, l)) {
      for (auto& ch : l) if (ch == '[' || ch == ']' || ch == ',' || ch == ':') ch = ' ';
      std::istringstream is(l);
      std::vector<long> v;
      double x;
      while (is >> x) v.push_back(exact(x));
      if (!is.eof()) v.push_back(2000000003L);
      lines.push_back(v);
    }
    tk.rec(Ev("report").f("k", k + 1).f("no", no).f("there", there).f("l", lines));
  }
}
static void plain(Rng r) {
  ProcessGroupWorker<double> w;
  w.setCombiParameters(cc.params());
  std::vector<LevelVector> ls;
  std::vector<real> cs;
  std::vector<size_t> ids;
  int me = theMPISystem()->getProcessGroupNumber();
  for (size_t i = 0; i < cc.grids.size(); ++i)
    if (cc.owner[i] == me) { ls.push_back(cc.lv(cc.grids[i])); cs.push_back(cc.coef[i]); ids.push_back(i); }
  static LinearLoadModel lm;
  w.initializeAllTasks<ETask>(ls, cs, ids, &lm);
  w.initCombinedDSGVector();
  w.zeroDsgsData();
  bool any = false;
  for (int s = 1, n = r.in(1, 4), no = 0; s <= n; ++s) {
    w.runAllTasks();
    bool col = r.coin(2, 3);
    any = any || col;
    MPI_Barrier(MPI_COMM_WORLD);
    if (wr == 0) tk.rec(Ev("combine").f("s", s).f("col", col));
    w.combineAtOnce(col);
    // with chunks, values must have been collected
    if ((any || cc.variant != "chunk") && (s == n || r.coin())) {
      any = false;
      std::string f = "ext_" + std::to_string(++no);
      if (wr == 0) tk.rec(Ev("ask").f("no", no));
      w.writeSparseGridMinMaxCoefficients(f);
      MPI_Barrier(MPI_COMM_WORLD);
      if (wr == 0) report(f, no);
    }
  }
  w.exit();
}
static void manage(Rng r) {
  ProcessGroupManagerContainer<> pg;
  for (int i = 0; i < cc.ng; ++i) pg.emplace_back(std::make_shared<ProcessGroupManager<>>(i));
  std::unique_ptr<LoadModel> lm(new LinearLoadModel());
  TaskContainer<> tasks;
  for (size_t i = 0; i < cc.grids.size(); ++i) {
    auto* t = new ETask(cc.lv(cc.grids[i]), cc.bt(), cc.coef[i], lm.get());
    t->setID(i);
    tasks.push_back(t);
  }
  auto p = cc.params();
  {
    ProcessManager<> m{pg, tasks, p, std::move(lm)};
    m.updateCombiParameters();
    for (int s = 1, n = r.in(1, 3), no = 0; s <= n; ++s) {
      if (s == 1) m.runfirst(); else m.runnext();
      tk.rec(Ev("combine").f("s", s).f("col", false));
      m.combine();
      if (s == n || r.coin()) {
        std::string f = "ext_" + std::to_string(++no);
        tk.rec(Ev("ask").f("no", no));
        m.writeSparseGridMinMaxCoefficients(f);
        report(f, no);
      }
    }
    m.exit();
  }
  for (auto* t : tasks) delete t;
}
int main(int argc, char** argv) {
  int prov;
  MPI_Init_thread(&argc, &argv, MPI_THREAD_MULTIPLE, &prov);
  Stats::initialize();
  Args a(argc, argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &wr);
  MPI_Comm_size(MPI_COMM_WORLD, &wn);
  if (wr == 0) out.open(a.s("out", "trace.ndjson"));
  if (!tk.open(wr)) return 3;
  bool managed = a.i("managed", 0);
  Rng g(static_cast<uint64_t>(a.i("seed", 1)));
  for (int id = 0, n = a.i("n", 20); id < n; ++id) {
    // (the report has six digits)
    cc = randCombi(g, managed ? wn - 1 : wn, a.i("maxpts", 300), 0, 7, 9);
    if (managed && cc.variant == "chunk") cc.variant = g.pick(std::vector<std::string>{"sg", "sub", "out"});
    if (!managed && g.coin(1, 3)) cc.variant = "chunk";
    cc.nsp = cc.variant != "chunk" && g.coin(1, 4) ? 2 : 1;
    caseSeed = g.next();
    if (wr == 0) { out << cc.ev(id).str(); out.flush(); for (int i = 0; i < 6; ++i) for (int k = 0; k < 2; ++k) unlink(("ext_" + std::to_string(i) + "_" + std::to_string(k) + ".txt").c_str()); }
    theMPISystem()->initWorldReusable(MPI_COMM_WORLD, static_cast<size_t>(cc.ng), static_cast<size_t>(cc.np), managed);
    MPI_Barrier(MPI_COMM_WORLD);
    if (!managed) plain(Rng(caseSeed));
    else if (wr == wn - 1) manage(Rng(caseSeed));
    else { ProcessGroupWorker<double> w; while (w.wait() != EXIT) {} }
    MPI_Barrier(MPI_COMM_WORLD);
    tk.flush(out, wr);
    if (wr == 0) { out << Ev("end").str(); out.flush(); }
    MPI_Barrier(MPI_COMM_WORLD);
  }
  Stats::finalize();
  MPI_Finalize();
  return 0;
}
