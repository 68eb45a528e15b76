// records reductions of subspaces between process groups (C07)
#include <algorithm>
#include <complex>
#include "combicom/CombiCom.hpp"
#include "gridgen.hpp"
#include "mpi/MPISystem.hpp"
#include "sparsegrid/DistributedSparseGridUniform.hpp"
#include "utils/Stats.hpp"
using namespace combigrid;
using namespace vh;
static std::ofstream out;
static int wr, wn;
static std::string all(const std::string& mine) {  // list over the world's processes
  std::string s = gather(MPI_COMM_WORLD, mine + ",");
  if (!s.empty()) s.pop_back();
  return "[" + s + "]";
}
static void raw(Ev& e, const char* k, const std::string& v) { e.s += ",\"" + std::string(k) + "\":" + v; }
static void put(const Ev& e) { if (wr == 0) { out << e.str(); out.flush(); } }

struct RCase {
  int ng, np, S, mib, lim, threads;
  bool big;
  std::string variant, type;
  std::vector<std::vector<unsigned>> sz;  // by world rank
};
static RCase randCase(Rng& r, bool big) {
  for (;;) {
    RCase c;
    c.big = big;
    std::vector<std::pair<int, int>> sh;
    for (int g = 1; g <= wn; ++g) if (wn % g == 0) sh.push_back({g, wn / g});
    auto x = r.pick(sh);
    if (wn > 12 && r.coin()) x = {wn, 1};  // very many groups
    c.ng = x.first;
    c.np = x.second;
    if (big && c.ng > 4) continue;
    bool many = !big && wn <= 12 && r.coin(1, 12);  // as many subspaces as in real schemes
    c.S = big ? r.in(2, 5) : many ? r.in(30, 180) : r.in(1, 7);
    c.variant = r.pick(std::vector<std::string>{"sg", "sub", "out", "chunk", "out", "chunk"});
    c.type = r.pick(std::vector<std::string>{"double", "double", "float", "complex"});
    c.mib = r.pick(std::vector<int>{0, 1, 1, 16});
    c.threads = r.pick(std::vector<int>{1, 1, 2});
    c.lim = big ? r.pick(std::vector<int>{1000, 65000, 131072, 131073, 300000}) : r.in(1, many ? 300 : 12);
    if (many && c.variant == "sub" && c.ng > 4) continue;
    c.sz.assign(static_cast<size_t>(wn), {});
    int dens = r.in(1, 5);
    for (int p = 0; p < c.np; ++p) {
      bool ok = false;
      for (int t = 0; t < 200 && !ok; ++t) {
        std::vector<std::vector<unsigned>> z(static_cast<size_t>(c.ng));
        for (int s = 0; s < c.S; ++s) {
          unsigned k = static_cast<unsigned>(big ? r.pick(std::vector<int>{3, 1000, 65535, 65536, 65537, 131071, 131072, 131073, 140000, 270001}) : r.coin(1, 6) ? 0 : r.in(1, 5));
          for (auto& q : z) q.push_back(r.coin(dens, 6) ? k : 0u);
        }
        ok = true;
        bool anyShared = false;
        for (int s = 0; s < c.S; ++s) { int n = 0; for (auto& q : z) n += q[static_cast<size_t>(s)] > 0; if (n > 1) anyShared = true; }
        for (auto& q : z) {
          unsigned n = 0;
          bool sh = false;
          for (int s = 0; s < c.S; ++s) {
            auto u = static_cast<size_t>(s);
            n += q[u];
            int m = 0;
            for (auto& qq : z) m += qq[u] > 0;
            if (q[u] > 0 && m > 1) sh = true;
          }
          // every process has some points; with the out-group variants every group shares something
          if (n == 0) ok = false;
          if ((c.variant == "out" || c.variant == "chunk") && anyShared && !sh) ok = false;
        }
        if (ok) for (int g = 0; g < c.ng; ++g) c.sz[static_cast<size_t>(g * c.np + p)] = z[static_cast<size_t>(g)];
      }
      if (!ok) { c.sz.clear(); break; }
    }
    if (!c.sz.empty()) return c;
  }
}

template <class T> struct Run {
  using DSG = DistributedSparseGridUniform<T>;
  RCase& c;
  Rng r;
  std::unique_ptr<DSG> dsg;
  std::vector<std::vector<long>> b;  // by world rank, subspace
  void newValues() {
    b.assign(static_cast<size_t>(wn), {});
    for (auto& x : b) for (int s = 0; s < c.S; ++s) x.push_back(r.in(-50, 50));
  }
  std::string sizes() { std::vector<unsigned> v; for (int s = 0; s < c.S; ++s) v.push_back(dsg->getDataSize(s)); return all(js(v)); }
  // contents of a subspace: base value times 1,2,3,1,2,3...
  void fill(bool everything) {
    for (int s = 0; s < c.S; ++s) {
      auto u = static_cast<size_t>(s);
      if (!dsg->isSubspaceCurrentlyAllocated(s)) continue;
      bool mine = everything || c.sz[static_cast<size_t>(wr)][u] > 0;
      for (unsigned i = 0; i < dsg->getAllocatedDataSize(s); ++i)
        dsg->getData(s)[i] = mine ? static_cast<T>(static_cast<double>(b[static_cast<size_t>(wr)][u] * (1 + i % 3))) : T(0);
    }
  }
  std::string data() {
    std::vector<std::vector<long>> v;
    for (int s = 0; s < c.S; ++s) {
      v.emplace_back();
      if (!dsg->isSubspaceDataCreated() || !dsg->isSubspaceCurrentlyAllocated(s)) continue;
      unsigned n = dsg->getAllocatedDataSize(s);
      if (n == 0) continue;
      long x = exact(toReal(dsg->getData(s)[0]));
      for (unsigned i = 0; i < n; ++i)
        if (exact(toReal(dsg->getData(s)[i])) != x * (1 + i % 3)) { x = 2000000007L; break; }
      v.back().push_back(x);
      v.back().push_back(static_cast<long>(n));
    }
    return all(js(v));
  }
  void note(std::string& got) {
    for (int s = 0; s < c.S; ++s) {
      if (!dsg->isSubspaceCurrentlyAllocated(s)) continue;
      unsigned n = dsg->getAllocatedDataSize(s);
      if (n == 0) continue;
      long x = exact(toReal(dsg->getData(s)[0]));
      for (unsigned i = 0; i < n; ++i) if (exact(toReal(dsg->getData(s)[i])) != x * (1 + i % 3)) { x = 2000000007L; break; }
      got += std::string(got.size() > 1 ? "," : "") + js(std::vector<long>{s + 1, x, static_cast<long>(n)});
    }
  }
  void run() {
    auto sys = theMPISystem();
    MPI_Comm rc = sys->getGlobalReduceComm();
    std::vector<LevelVector> lv;
    for (int s = 0; s < c.S; ++s) lv.push_back(LevelVector{s + 1});
    dsg.reset(new DSG(1, lv, sys->getLocalComm()));
    for (int s = 0; s < c.S; ++s) dsg->setDataSize(s, c.sz[static_cast<size_t>(wr)][static_cast<size_t>(s)]);
    // agreement about sizes and communicators, possibly repeated
    for (int rep = r.in(1, 2); rep > 0; --rep) {
      if (c.variant == "sg") {
        if (r.coin()) CombiCom::reduceSubspaceSizes(*dsg, rc);
        else {
          int root = r.in(0, c.ng - 1);
          CombiCom::maxReduceSubspaceSizesAcrossGroups(*dsg, root, rc);
          CombiCom::broadcastSubspaceSizes(*dsg, rc, root);
        }
      } else if (c.variant == "sub") dsg->setSubspaceCommunicators(rc, sys->getGlobalReduceRank());
      else dsg->setOutgroupCommunicator(rc, sys->getGlobalReduceRank());
    }
    {
      std::string cs = "[";
      for (auto& p : dsg->getSubspacesByCommunicator()) {
        MPI_Group g, w;
        MPI_Comm_group(p.first, &g);
        MPI_Comm_group(rc, &w);
        int n;
        MPI_Group_size(g, &n);
        std::vector<int> x(static_cast<size_t>(n)), y(static_cast<size_t>(n));
        for (int i = 0; i < n; ++i) x[static_cast<size_t>(i)] = i;
        MPI_Group_translate_ranks(g, n, x.data(), w, y.data());
        MPI_Group_free(&g);
        MPI_Group_free(&w);
        std::vector<long> ss(p.second.begin(), p.second.end());
        cs += std::string(cs.size() > 1 ? "," : "") + "[" + js(y) + "," + js(ss) + "]";
      }
      Ev e("agree");
      raw(e, "sz", sizes());
      raw(e, "cm", all(cs + "]"));
      put(e);
    }
    auto mib = static_cast<uint32_t>(c.mib);
    if (c.variant != "chunk") {
      dsg->setZero();
      dsg->createSubspaceData();
      for (int step = r.in(1, 2); step > 0; --step) {
        newValues();
        int collect = c.variant != "sub" && r.coin(1, 3) ? r.in(0, c.ng - 1) : -1;
        fill(false);
        RankType to = collect < 0 ? MPI_PROC_NULL : collect;
        if (c.variant == "sg") CombiCom::distributedGlobalSparseGridReduce(*dsg, mib, to);
        else CombiCom::distributedGlobalSubspaceReduce(*dsg, mib, to);
        Ev e("reduce");
        e.f("b", b).f("to", collect);
        raw(e, "d", data());
        put(e);
      }
      // broadcast of the values of one group
      if (c.variant != "sub") {
        bool possible = c.variant == "sg" || !dsg->getSubspacesByCommunicator().empty();
        int ok = possible, okAll;
        MPI_Allreduce(&ok, &okAll, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
        if (okAll) {
          newValues();
          int root = r.in(0, c.ng - 1);
          fill(true);
          MPI_Request q;
          if (c.variant == "sg") CombiCom::asyncBcastDsgData(*dsg, root, rc, &q);
          else CombiCom::asyncBcastOutgroupDsgData(*dsg, root, rc, &q);
          MPI_Wait(&q, MPI_STATUS_IGNORE);
          Ev e("bcast");
          e.f("b", b).f("root", root);
          raw(e, "d", data());
          put(e);
        }
      }
      return;
    }
    // chunk by chunk: first the communicated subspaces, then the others
    newValues();
    using SI = typename AnyDistributedSparseGrid::SubspaceIndexType;
    auto show = [&](const char* what, const std::vector<std::set<SI>>& ch, const std::vector<SI>& cont) {
      std::vector<std::vector<long>> v;
      for (auto& x : ch) v.emplace_back(x.begin(), x.end());
      Ev e("chunks");
      e.f("w", what).f("lim", c.lim);
      raw(e, "of", all(js(std::vector<long>(cont.begin(), cont.end()))));
      raw(e, "ch", all(js(v)));
      put(e);
    };
    bool any = !dsg->getSubspacesByCommunicator().empty();
    std::vector<SI> comm = any ? dsg->getSubspacesByCommunicator()[0].second : std::vector<SI>{};
    auto chunks = CombiCom::getChunkedSubspaces(*dsg, comm, c.lim);
    show("out", chunks, comm);
    // all positions of the groups may have a different number of chunks
    std::string got = "[";
    auto part = [&](const std::set<SI>& chunk, bool reduce) {
      std::set<SI> copy = chunk;
      dsg->allocateDifferentSubspaces(std::move(copy));
      fill(false);
      if (reduce) CombiCom::distributedGlobalSubspaceReduce<DSG, true>(*dsg, 0);
      note(got);
    };
    for (auto& ch : chunks) part(ch, true);
    auto in = dsg->getIngroupSubspaces();
    std::vector<SI> inv(in.begin(), in.end());
    auto chunks2 = CombiCom::getChunkedSubspaces(*dsg, in, c.lim);
    show("in", chunks2, inv);
    for (auto& ch : chunks2) part(ch, false);
    Ev e("parts");
    e.f("b", b);
    raw(e, "got", all(got + "]"));
    put(e);
    // and by explicit broadcasts of chunks from one group
    newValues();
    int root = r.in(0, c.ng - 1);
    got = "[";
    for (auto& ch : chunks) {
      std::set<SI> copy = ch;
      dsg->allocateDifferentSubspaces(std::move(copy));
      fill(true);
      MPI_Request q;
      CombiCom::asyncBcastOutgroupDsgData<DSG, true>(*dsg, root, rc, &q);
      MPI_Wait(&q, MPI_STATUS_IGNORE);
      note(got);
    }
    Ev e2("bparts");
    e2.f("b", b).f("root", root);
    raw(e2, "got", all(got + "]"));
    put(e2);
  }
};
template <class T> void go(RCase& c, uint64_t s) { Run<T> r{c, Rng(s), nullptr, {}}; r.run(); }

int main(int argc, char** argv) {
  int prov;
  MPI_Init_thread(&argc, &argv, MPI_THREAD_MULTIPLE, &prov);
  Stats::initialize();
  Args a(argc, argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &wr);
  MPI_Comm_size(MPI_COMM_WORLD, &wn);
  if (wr == 0) out.open(a.s("out", "trace.ndjson"));
  Rng g(static_cast<uint64_t>(a.i("seed", 1)));
  for (int id = 0, n = a.i("n", 100), nb = a.i("big", 0); id < n + nb; ++id) {
    RCase c = randCase(g, id >= n);
    uint64_t s = g.next();
    theMPISystem()->initWorldReusable(MPI_COMM_WORLD, static_cast<size_t>(c.ng), static_cast<size_t>(c.np), false);
    Ev e("case");
    e.f("id", id).f("ng", c.ng).f("np", c.np).f("variant", c.variant).f("type", c.type).f("mib", c.mib).f("sz", c.sz);
    put(e);
    if (c.type == "double") go<double>(c, s);
    else if (c.type == "float") go<float>(c, s);
    else go<std::complex<double>>(c, s);
    MPI_Barrier(MPI_COMM_WORLD);
    put(Ev("end"));
  }
  MPI_Finalize();
  return 0;
}
