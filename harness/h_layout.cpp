// records the communicators and roles after (re-)initialisations of MPISystem (C08)
#include <algorithm>
#include "mpi/MPISystem.hpp"
#include "utils/Stats.hpp"
#include "vh.hpp"
using namespace combigrid;
using namespace vh;
static std::ofstream out;
static int wr, wn;
static std::vector<int> members(MPI_Comm c, MPI_Comm world) {  // in world ranks, by rank order
  if (c == MPI_COMM_NULL) return {};
  MPI_Group g, w;
  MPI_Comm_group(c, &g);
  MPI_Comm_group(world, &w);
  int n;
  MPI_Group_size(g, &n);
  std::vector<int> a(static_cast<size_t>(n)), b(static_cast<size_t>(n));
  for (int i = 0; i < n; ++i) a[static_cast<size_t>(i)] = i;
  MPI_Group_translate_ranks(g, n, a.data(), w, b.data());
  MPI_Group_free(&g);
  MPI_Group_free(&w);
  return b;
}
static int nn(int r) { return r < 0 ? -1 : r; }
static void report(MPI_Comm world) {
  auto s = theMPISystem();
  auto W = s->getWorldComm();
  Ev e("proc");
  int outr = s->getOutputGroupComm() != MPI_COMM_NULL;
  std::vector<std::vector<int>> third;
  for (auto c : s->getThirdLevelComms()) third.push_back(members(c, W));
  e.f("w", s->getWorldRank()).f("wsize", s->getWorldSize()).f("ng", s->getNumGroups()).f("np", s->getNumProcs())
      .f("isman", s->isWorldManager()).f("group", s->getProcessGroupNumber()).f("manworld", nn(s->getManagerRankWorld()))
      .f("local", members(s->getLocalComm(), W)).f("lrank", nn(s->getLocalRank())).f("ismaster", s->isProcessGroupMaster())
      .f("reduce", members(s->getGlobalReduceComm(), W)).f("rrank", nn(s->getGlobalReduceRank()))
      .f("global", members(s->getGlobalComm(), W)).f("grank", nn(s->getGlobalRank())).f("man", nn(s->getManagerRank()))
      .f("third", third).f("isthird", s->isThirdLevelManager())
      .f("outg", members(s->getOutputGroupComm(), W)).f("outin", s->isWorldManager() ? 0 : s->getOutputRankInGlobalReduceComm())
      .f("outc", outr ? members(s->getOutputComm(), W) : std::vector<int>{}).f("orank", nn(s->getOutputGroupRank()))
      .f("part", outr ? s->getFilePartNumber() : -1);
  // every communicator must be usable by its members
  for (MPI_Comm c : {s->getLocalComm(), s->getGlobalReduceComm(), s->getGlobalComm(), s->getOutputGroupComm()})
    if (c != MPI_COMM_NULL) MPI_Barrier(c);
  std::string all = gather(world, e.str());
  int r;
  MPI_Comm_rank(world, &r);
  // the world's first process hands the reports to the recorder
  int root = r == 0 ? wr : -1, rootAll;
  (void)root; (void)rootAll;
  if (r == 0) {
    int n = static_cast<int>(all.size());
    if (wr == 0) { out << all; out.flush(); }
    else { MPI_Send(&n, 1, MPI_INT, 0, 77, MPI_COMM_WORLD); MPI_Send(all.data(), n, MPI_CHAR, 0, 78, MPI_COMM_WORLD); }
  }
}
static void collect(int root) {  // on world rank 0
  if (wr == 0 && root != 0) {
    int n;
    MPI_Recv(&n, 1, MPI_INT, root, 77, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
    std::string s(static_cast<size_t>(n), ' ');
    MPI_Recv(&s[0], n, MPI_CHAR, root, 78, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
    out << s;
    out.flush();
  }
}
static void put(const Ev& e) { if (wr == 0) { out << e.str(); out.flush(); } }
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  Stats::initialize();
  Args a(argc, argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &wr);
  MPI_Comm_size(MPI_COMM_WORLD, &wn);
  if (wr == 0) out.open(a.s("out", "trace.ndjson"));
  Rng g(static_cast<uint64_t>(a.i("seed", 1)));
  // the one-time initialisation on the whole world
  {
    bool m = a.i("mgr", 1) != 0;
    int wk = m ? wn - 1 : wn;
    int ng = a.i("ng", 1);
    if (wk % ng == 0) {
      put(Ev("case").f("id", -1));
      put(Ev("init").f("ng", ng).f("np", wk / ng).f("mgr", m));
      if (a.i("own", 0)) {
        MPI_Comm lc;
        int np = wk / ng;
        MPI_Comm_split(MPI_COMM_WORLD, wr / np, wr % np, &lc);
        theMPISystem()->init(static_cast<size_t>(ng), static_cast<size_t>(np), lc, m);
      } else theMPISystem()->init(static_cast<size_t>(ng), static_cast<size_t>(wk / ng), m);
      report(MPI_COMM_WORLD);
    }
  }
  for (int id = 0, n = a.i("n", 60); id < n; ++id) {
    // a world made of some processes in some order, initialised several times
    bool m = g.coin();
    int tot = g.in(m ? 2 : 1, wn);
    bool wide = wn >= 20 && g.coin();  // many groups of even more processes
    if (wide) tot = wn;
    std::vector<int> perm(static_cast<size_t>(wn));
    for (int i = 0; i < wn; ++i) perm[static_cast<size_t>(i)] = i;
    for (int i = wn - 1; i > 0; --i) std::swap(perm[static_cast<size_t>(i)], perm[static_cast<size_t>(g.in(0, i))]);
    int root = perm[0];
    bool in = false;
    int key = 0;
    for (int i = 0; i < tot; ++i) if (perm[static_cast<size_t>(i)] == wr) { in = true; key = i; }
    MPI_Comm w;
    MPI_Comm_split(MPI_COMM_WORLD, in ? 0 : MPI_UNDEFINED, key, &w);
    put(Ev("case").f("id", id));
    for (int k = 0, nk = g.in(1, 3); k < nk; ++k) {
      // same world, another layout
      bool mm = tot > 1 && g.coin();
      int wk = mm ? tot - 1 : tot;
      std::vector<int> divs;
      for (int d = 1; d <= wk; ++d) if (wk % d == 0) divs.push_back(d);
      int ng = g.pick(divs), np;
      if (wide) for (int d : divs) if (d > 3 && d < wk / d) ng = d;
      np = wk / ng;
      put(Ev("init").f("ng", ng).f("np", np).f("mgr", mm));
      if (in) { theMPISystem()->initWorldReusable(w, static_cast<size_t>(ng), static_cast<size_t>(np), mm); report(w); }
      collect(root);
      MPI_Barrier(MPI_COMM_WORLD);
      for (int q = g.in(0, 2); q > 0; --q) {
        std::vector<int> pd;
        for (int d = 1; d <= np; ++d) if (np % d == 0) pd.push_back(d);
        int parts = g.pick(pd);
        put(Ev("output").f("parts", parts));
        if (in) { theMPISystem()->initOutputGroupComm(static_cast<uint16_t>(parts)); report(w); }
        collect(root);
        MPI_Barrier(MPI_COMM_WORLD);
      }
    }
  }
  MPI_Barrier(MPI_COMM_WORLD);
  MPI_Finalize();
  return 0;
}
