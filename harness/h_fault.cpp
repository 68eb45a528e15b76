// records how coefficients are recomputed after grids were lost (C17)
#include "combischeme/CombiMinMaxScheme.hpp"
#include "combigen.hpp"
#include "loadmodel/LinearLoadModel.hpp"
#include "manager/ProcessGroupManager.hpp"
#include "manager/ProcessManager.hpp"
#include "utils/BoostExports.hpp"
#include "utils/Stats.hpp"
using namespace combigrid;
using namespace vh;
static std::ofstream out;
// coefficients as integers; 1000000 if it is none
static std::vector<long> coefs(CombiParameters& p, size_t n) {
  std::vector<long> v;
  for (size_t i = 0; i < n; ++i) { double c = p.getCoeff(i); long r = std::lround(c); v.push_back(std::abs(c - static_cast<double>(r)) < 1e-6 ? r : 1000000); }
  return v;
}
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  Stats::initialize();
  Args a(argc, argv);
  int wr;
  MPI_Comm_rank(MPI_COMM_WORLD, &wr);
  if (wr == 0) { std::ofstream dummy; } else out.open(a.s("out", "trace.ndjson"));
  Rng g(static_cast<uint64_t>(a.i("seed", 1)));
  for (int id = 0, n = a.i("n", 100); id < n; ++id) {
    int dim = g.pick(std::vector<int>{1, 2, 2, 2, 3, 3, 4});
    LevelVector lmin, lmax;
    int k = g.in(1, dim == 1 ? 5 : dim == 2 ? 5 : dim == 3 ? 3 : 2);
    for (int d = 0; d < dim; ++d) { lmin.push_back(g.in(1, 3)); lmax.push_back(lmin.back() + k); }
    int fixed = dim > 1 && g.coin(1, 4) ? g.in(0, dim - 1) : -1;
    if (fixed >= 0) lmax[static_cast<size_t>(fixed)] = lmin[static_cast<size_t>(fixed)];
    CombiMinMaxScheme sch(static_cast<DimType>(dim), lmin, lmax);
    if (g.coin()) sch.createClassicalCombischeme(); else sch.createAdaptiveCombischeme();
    sch.makeFaultTolerant();
    auto levels = sch.getCombiSpaces();
    auto co = sch.getCoeffs();
    int rounds = g.in(1, 3);
    std::vector<std::vector<size_t>> faults;
    for (int r = 0; r < rounds; ++r) {
      int m = g.coin(1, 6) ? g.in(1, static_cast<int>(levels.size())) : g.in(1, std::min<int>(3, static_cast<int>(levels.size())));
      std::set<size_t> s;
      while (static_cast<int>(s.size()) < m) s.insert(static_cast<size_t>(g.in(0, static_cast<int>(levels.size()) - 1)));
      std::vector<size_t> f(s.begin(), s.end());
      for (size_t i = f.size(); i > 1; --i) std::swap(f[i - 1], f[static_cast<size_t>(g.in(0, static_cast<int>(i) - 1))]);
      faults.push_back(f);
    }
    theMPISystem()->initWorldReusable(MPI_COMM_WORLD, 1, 1, true);
    if (wr == 0) {
      ProcessGroupWorker<double> w;
      for (SignalType x = w.wait(); x != EXIT; x = w.wait())
        if (x == UPDATE_COMBI_PARAMETERS) {
          auto p = w.getCombiParameters();
          auto v = coefs(p, levels.size());
          MPI_Send(v.data(), static_cast<int>(v.size()), MPI_LONG, 1, 777, MPI_COMM_WORLD);
        }
    } else {
      ProcessGroupManagerContainer<> pg;
      pg.emplace_back(std::make_shared<ProcessGroupManager<>>(0));
      std::vector<BoundaryType> b(static_cast<size_t>(dim), 2);
      std::vector<size_t> ids;
      TaskContainer<> tasks;
      for (size_t i = 0; i < levels.size(); ++i) ids.push_back(i);
      CombiParameters p(static_cast<DimType>(dim), lmin, lmax, b, levels, co, ids, 1, 1);
      p.setParallelization(std::vector<int>(static_cast<size_t>(dim), 1));
      std::string ls = "[";
      for (auto& l : levels) ls += (ls.size() > 1 ? "," : "") + js(std::vector<int>(l.begin(), l.end()));
      Ev e("case");
      e.f("id", id).f("dim", dim).f("lmin", std::vector<int>(lmin.begin(), lmin.end())).f("lmax", std::vector<int>(lmax.begin(), lmax.end())).f("co", coefs(p, levels.size()));
      e.s += ",\"g\":" + ls + "]";
      out << e.str();
      ProcessManager<> m{pg, tasks, p, std::unique_ptr<LoadModel>(new LinearLoadModel())};
      // what the workers use from now on
      auto told = [&]() {
        std::vector<long> v(levels.size());
        MPI_Recv(v.data(), static_cast<int>(v.size()), MPI_LONG, 0, 777, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
        return v;
      };
      out << Ev("restored").f("co", told()).str();
      for (auto f : faults) {
        std::vector<size_t> red, rec;
        std::vector<int> fs, rs, cs;
        for (auto x : f) fs.push_back(static_cast<int>(x) + 1);
        out << Ev("lost").f("f", fs).str();
        out.flush();
        m.recomputeOptimumCoefficients("p", f, red, rec);
        for (auto x : red) rs.push_back(static_cast<int>(x) + 1);
        for (auto x : rec) cs.push_back(static_cast<int>(x) + 1);
        m.updateCombiParameters();
        out << Ev("new").f("co", told()).f("red", rs).f("rec", cs).str();
        m.restoreCombischeme();
        out << Ev("restored").f("co", told()).str();
        out.flush();
      }
      m.exit();
      out << Ev("end").str();
      out.flush();
    }
    MPI_Barrier(MPI_COMM_WORLD);
  }
  Stats::finalize();
  MPI_Finalize();
  return 0;
}
