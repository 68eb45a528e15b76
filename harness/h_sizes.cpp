// reads subspace size files written by the tool into the sparse grids of a process group (C22)
#include "gridgen.hpp"
#include "sparsegrid/DistributedSparseGridIO.hpp"
#include "sparsegrid/DistributedSparseGridUniform.hpp"
#include "utils/Stats.hpp"
using namespace combigrid;
using namespace vh;

int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  Stats::initialize();
  Args a(argc, argv);
  int wr, wn;
  MPI_Comm_rank(MPI_COMM_WORLD, &wr);
  MPI_Comm_size(MPI_COMM_WORLD, &wn);
  std::ofstream out;
  if (wr == 0) out.open(a.s("out", "trace.ndjson"));
  std::ifstream in(a.s("cases", "cases.txt"));
  // one line per case: np dim lmin.. lmax.. P.. nsys, per system: number of grids and grids, then the file names
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream s(line);
    int np, dim, nsys, nfiles;
    s >> np >> dim;
    auto vec = [&] { std::vector<int> v(static_cast<size_t>(dim)); for (auto& x : v) s >> x; return v; };
    auto lmin = vec(), lmax = vec(), P = vec();
    s >> nsys;
    std::vector<std::vector<std::vector<int>>> sys;
    for (int k = 0; k < nsys; ++k) {
      int n;
      s >> n;
      sys.emplace_back();
      for (int i = 0; i < n; ++i) sys.back().push_back(vec());
    }
    s >> nfiles;
    std::vector<std::string> files(static_cast<size_t>(nfiles));
    for (auto& f : files) s >> f;
    MPI_Comm sub = firstRanks(np);
    if (sub != MPI_COMM_NULL) {
      MPI_Comm cc = cart(sub, P, std::vector<int>(static_cast<size_t>(dim), 1));
      auto all = [&](const std::string& mine) { std::string x = gather(cc, mine + ","); if (!x.empty()) x.pop_back(); return "[" + x + "]"; };
      std::vector<std::vector<int>> coords;
      for (int q = 0; q < np; ++q) {
        std::vector<int> x(static_cast<size_t>(dim));
        MPI_Cart_coords(cc, q, dim, x.data());
        coords.push_back(x);
      }
      LevelVector lo(lmin.begin(), lmin.end()), top(lmax.begin(), lmax.end());
      for (size_t d = 0; d < lo.size(); ++d) top[d] = std::max(lo[d], top[d] - 1);
      std::string raws, gots;
      std::vector<std::vector<int>> sg;
      for (auto& f : files) {
        DistributedSparseGridUniform<double> dsg(static_cast<DimType>(dim), top, lo, cc);
        sg.clear();
        for (auto& v : dsg.getAllLevelVectors()) sg.emplace_back(v.begin(), v.end());
        std::vector<unsigned> got, raw;
        std::ifstream b(f, std::ios::binary);
        std::vector<unsigned> content;
        for (unsigned x; b.read(reinterpret_cast<char*>(&x), 4);) content.push_back(x);
        // consecutive equal parts, one per process
        size_t part = content.size() / static_cast<size_t>(np);
        bool fits = part * static_cast<size_t>(np) == content.size() && part == sg.size();
        if (fits) {
          for (size_t i = 0; i < part; ++i) raw.push_back(content[static_cast<size_t>(wr) * part + i]);
          DistributedSparseGridIO::readSubspaceSizesFromFile(dsg, f, false);
          for (int k = 0; k < dsg.getNumSubspaces(); ++k) got.push_back(dsg.getDataSize(k));
        }
        raws += (raws.empty() ? "" : ",") + all(js(raw));
        gots += (gots.empty() ? "" : ",") + all(js(got));
      }
      if (wr == 0) {
        Ev e("case");
        e.f("P", P).f("lmin", lmin).f("lmax", lmax).f("nsys", nsys).f("sys", sys).f("sg", sg).f("coords", coords).f("files", files);
        e.s += ",\"raw\":[" + raws + "],\"got\":[" + gots + "]";
        out << e.str();
        out.flush();
      }
    }
    MPI_Barrier(MPI_COMM_WORLD);
  }
  Stats::finalize();
  MPI_Finalize();
  return 0;
}
