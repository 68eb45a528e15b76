// records writing and reading of sparse grid files (C13)
#include <unistd.h>
#include <cstring>
#include <complex>
#include <filesystem>
#include "vh.hpp"
#define DISCOTEC_USE_LZ4
#include "io/MPICompression.hpp"
#undef DISCOTEC_USE_LZ4
#include "combicom/CombiCom.hpp"
#include "io/FileInputOutput.hpp"
#include "mpi/MPISystem.hpp"
#include "sparsegrid/DistributedSparseGridIO.hpp"
#include "sparsegrid/DistributedSparseGridUniform.hpp"
#include "utils/Stats.hpp"
using namespace combigrid;
using namespace vh;
static std::ofstream out;
static int wr, wn;
static void put(const Ev& e) { if (wr == 0) { out << e.str(); out.flush(); } }
static void raw(Ev& e, const char* k, const std::string& v) { e.s += ",\"" + std::string(k) + "\":" + v; }
static void putr(Ev e, const char* k, const std::string& v) { raw(e, k, v); put(e); }
// one list per process
template <class T> std::string lists(const std::vector<T>& mine) {
  std::vector<long> v;
  for (auto& x : mine) v.push_back(exact(static_cast<double>(x)));
  std::string s = gather(MPI_COMM_WORLD, js(v) + "\n"), r = "[";
  std::istringstream is(s);
  std::string line;
  while (std::getline(is, line)) r += (r.size() > 1 ? "," : "") + line;
  return r + "]";
}
static std::string ints(long mine) {
  std::vector<long> v(static_cast<size_t>(wn));
  MPI_Gather(&mine, 1, MPI_LONG, v.data(), 1, MPI_LONG, 0, MPI_COMM_WORLD);
  return js(v);
}
// number of values a call reports, -1 for an exception
static long attempt(const std::function<long()>& f) {
  long r = -1;
  try { r = f(); } catch (const std::exception&) { r = -1; }
  MPI_Barrier(MPI_COMM_WORLD);
  return r;
}
template <class T> std::vector<T> values(Rng& r, int n) { std::vector<T> v; for (int i = 0; i < n; ++i) v.push_back(static_cast<T>(r.in(0, 99))); return v; }
template <class T> std::string content(const std::string& f) {
  std::ifstream is(f, std::ios::binary);
  std::string s((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
  std::vector<long> v;
  for (size_t i = 0; i + sizeof(T) <= s.size(); i += sizeof(T)) { T x; memcpy(&x, s.data() + i, sizeof(T)); v.push_back(exact(static_cast<double>(x))); }
  if (s.size() % sizeof(T)) v.push_back(2000000001);
  return js(v);
}
static std::string fname(int k) { return "f" + std::to_string(k); }
template <class T> void plain(Rng g, int id, const std::string& ty) {
  Rng mineR(g.next() + static_cast<uint64_t>(wr) * 1000003);
  std::vector<int> len;
  bool zero = g.coin(1, 3), even = g.coin(1, 3);
  int base = g.in(1, 12);
  for (int i = 0; i < wn; ++i) len.push_back(even ? base : g.in(zero ? 0 : 1, g.coin(1, 4) ? 40 : 8));
  put(Ev("case").f("id", id).f("np", wn).f("kind", "plain").f("ty", ty).f("len", len));
  int n = len[static_cast<size_t>(wr)];
  for (int i = 0; i < 3; ++i) if (wr == 0) std::filesystem::remove(fname(i));
  MPI_Barrier(MPI_COMM_WORLD);
  std::vector<T> mem = values<T>(mineR, n);
  std::map<std::string, bool> packed;  // compressed files are read as such
  for (int k = 0, m = g.in(4, 10); k < m; ++k) {
    int f = g.in(0, 2), op = g.in(0, 9);
    bool z = g.coin(1, 4), cb = g.coin(1, 3);
    std::string nm = fname(f);
    if (op > 3) z = packed[nm];
    if (op <= 3) {
      packed[nm] = z;
      mem = values<T>(mineR, n);
      bool rep = g.coin();
      long r = attempt([&]() { return z ? mpiio::writeCompressedValuesConsecutive<T>(mem.data(), n, nm, MPI_COMM_WORLD, rep, cb) : mpiio::writeValuesConsecutive<T>(mem.data(), n, nm, MPI_COMM_WORLD, rep, cb); });
      Ev e("write");
      e.f("f", nm).f("z", z).f("rep", rep);
      raw(e, "v", lists(mem));
      raw(e, "res", ints(r));
      if (wr == 0) raw(e, "file", z ? "[]" : content<T>(nm));
      put(e);
    } else if (op == 4) {
      // other sizes than the file has
      int cut = g.in(1, static_cast<int>(sizeof(T)) * 3);
      bool longer = g.coin(1, 3);
      bool there = false;
      if (wr == 0 && std::filesystem::exists(nm)) {
        there = true;
        auto s = std::filesystem::file_size(nm);
        if (s == 0) longer = true;
        if (longer) std::filesystem::resize_file(nm, s + static_cast<size_t>(cut));
        else std::filesystem::resize_file(nm, s > static_cast<size_t>(cut) ? s - static_cast<size_t>(cut) : 0);
      }
      put(Ev("damage").f("f", nm).f("there", there));
    } else if (op == 5) {
      if (wr == 0) std::filesystem::remove(nm);
      packed[nm] = false;
      put(Ev("remove").f("f", nm));
    } else if (op <= 7) {
      std::vector<T> got(static_cast<size_t>(n), static_cast<T>(0));
      long r = attempt([&]() { return z ? mpiio::readCompressedValuesConsecutive<T>(got.data(), n, nm, MPI_COMM_WORLD) : mpiio::readValuesConsecutive<T>(got.data(), n, nm, MPI_COMM_WORLD, cb); });
      Ev e("read");
      e.f("f", nm).f("z", z);
      raw(e, "res", ints(r));
      raw(e, "v", lists(got));
      put(e);
    } else if (op == 8 || z) {
      int chunk = g.pick(std::vector<int>{1, 2, 3, 5, 7, 1000});
      int fn = g.in(0, 1);
      std::vector<T> in = mem;
      auto fun = [fn](T a, T b) -> T { return fn ? static_cast<T>(a + b) : std::min(a, b); };
      long r = attempt([&]() { return z ? mpiio::readReduceCompressedValuesConsecutive<T>(mem.data(), n, nm, MPI_COMM_WORLD, fun) : mpiio::readReduceValuesConsecutive<T>(mem.data(), n, nm, MPI_COMM_WORLD, chunk, fun, cb); });
      Ev e("reduce");
      e.f("f", nm).f("z", z).f("chunk", chunk).f("fn", fn ? "plus" : "min");
      raw(e, "in", lists(in));
      raw(e, "res", ints(r));
      raw(e, "v", lists(mem));
      put(e);
      if (r < 0) mem = values<T>(mineR, n);
    } else {
      int chunk = g.pick(std::vector<int>{1, 2, 3, 5, 7, 1000});
      std::string n2 = fname(g.in(0, 2));
      if (packed[n2]) n2 = nm;
      std::vector<T> in = mem;
      // not symmetric, to see which file is which
      auto fun = [](T a, T b, T c) -> T { return static_cast<T>(a + 2 * b + 3 * c); };
      long r = attempt([&]() { return mpiio::readMultipleReduceValuesConsecutive<T>(mem.data(), n, {nm, n2}, MPI_COMM_WORLD, chunk, fun, cb); });
      Ev e("multi");
      e.f("f", nm).f("f2", n2).f("chunk", chunk);
      raw(e, "in", lists(in));
      raw(e, "res", ints(r));
      raw(e, "v", lists(mem));
      put(e);
      if (r < 0) mem = values<T>(mineR, n);
    }
  }
  put(Ev("end"));
}
// sparse grids, whole files and parts
template <class T> void sparse(Rng g, int id) {
  Rng mineR(g.next() + static_cast<uint64_t>(wr) * 1000003);
  std::vector<int> ps;
  for (int p = 1; p <= wn; ++p) if (wn % p == 0) ps.push_back(p);
  int parts = g.pick(ps);
  theMPISystem()->initWorldReusable(MPI_COMM_WORLD, 1, static_cast<size_t>(wn), false);
  theMPISystem()->initOutputGroupComm(static_cast<uint16_t>(parts));
  int nsub = g.in(1, 6);
  std::vector<LevelVector> lv;
  for (int i = 0; i < nsub; ++i) lv.push_back(LevelVector{static_cast<LevelType>(i / 3 + 1), static_cast<LevelType>(i % 3 + 1)});
  DistributedSparseGridUniform<T> d(2, lv, theMPISystem()->getOutputGroupComm()), e2(2, lv, theMPISystem()->getOutputGroupComm());
  std::vector<int> sz;
  for (int i = 0; i < nsub; ++i) { sz.push_back(mineR.in(i == 0 ? 1 : 0, 9)); d.setDataSize(static_cast<typename AnyDistributedSparseGrid::SubspaceIndexType>(i), static_cast<SubspaceSizeType>(sz.back())); e2.setDataSize(static_cast<typename AnyDistributedSparseGrid::SubspaceIndexType>(i), static_cast<SubspaceSizeType>(sz.back())); }
  d.createSubspaceData();
  e2.createSubspaceData();
  int n = static_cast<int>(d.getRawDataSize());
  std::vector<int> len(static_cast<size_t>(wn));
  MPI_Gather(&n, 1, MPI_INT, len.data(), 1, MPI_INT, 0, MPI_COMM_WORLD);
  put(Ev("case").f("id", id).f("np", wn).f("kind", "sparse").f("parts", parts).f("len", len));
  auto fill = [&](DistributedSparseGridUniform<T>& x) { for (size_t i = 0; i < x.getRawDataSize(); ++i) x.getRawData()[i] = static_cast<T>(mineR.in(0, 99)); };
  auto get = [&](DistributedSparseGridUniform<T>& x) { std::vector<double> v; for (size_t i = 0; i < x.getRawDataSize(); ++i) v.push_back(std::real(x.getRawData()[i])); return v; };
  if (wr == 0) for (auto& x : std::filesystem::directory_iterator(".")) if (x.path().filename().string().substr(0, 1) == "s") std::filesystem::remove(x.path());
  MPI_Barrier(MPI_COMM_WORLD);
  for (int k = 0, m = g.in(2, 6); k < m; ++k) {
    fill(d);
    std::string nm = "s" + std::to_string(k);
    int kind = g.in(0, 2);
    if (kind == 0) {
      long r = attempt([&]() { return DistributedSparseGridIO::writeOneFile(d, nm, g.coin()); });
      Ev e("write");
      e.f("f", nm).f("z", false).f("rep", true);
      raw(e, "v", lists(get(d)));
      raw(e, "res", ints(r));
      if (wr == 0) raw(e, "file", content<T>(nm));
      put(e);
      fill(e2);
      auto in = get(e2);
      bool red = g.coin();
      r = attempt([&]() { return red ? DistributedSparseGridIO::readOneFileAndReduce(e2, nm, 1) : DistributedSparseGridIO::readOneFile(e2, nm); });
      Ev f(red ? "reduce" : "read");
      f.f("f", nm).f("z", false).f("fn", "plus").f("chunk", 0);
      raw(f, "in", lists(in));
      raw(f, "res", ints(r));
      raw(f, "v", lists(get(e2)));
      put(f);
    } else if (kind == 1) {
      long r = attempt([&]() { return DistributedSparseGridIO::writeSomeFiles(d, nm, true); });
      Ev e("writep");
      e.f("f", nm);
      raw(e, "v", lists(get(d)));
      raw(e, "res", ints(r));
      if (wr == 0) { std::string s = "["; for (int p = 0; p < parts; ++p) s += (p ? "," : "") + content<T>(nm + ".part" + std::to_string(p)); raw(e, "file", s + "]"); }
      put(e);
      fill(e2);
      auto in = get(e2);
      bool red = g.coin();
      std::string pn = nm + ".part" + std::to_string(theMPISystem()->getFilePartNumber());
      r = attempt([&]() { return red ? DistributedSparseGridIO::readSomeFilesAndReduce(e2, pn, 1) : DistributedSparseGridIO::readSomeFiles(e2, pn); });
      Ev f(red ? "reducep" : "readp");
      f.f("f", nm);
      raw(f, "part", ints(theMPISystem()->getFilePartNumber()));
      raw(f, "in", lists(in));
      raw(f, "res", ints(r));
      raw(f, "v", lists(get(e2)));
      put(f);
    } else {
      DistributedSparseGridIO::writeToDiskChunked(d, nm + "_");
      std::string s = content<T>(nm + "_" + std::to_string(wr));
      std::string all = gather(MPI_COMM_WORLD, s + "\n"), files = "[";
      std::istringstream is(all);
      std::string line;
      while (std::getline(is, line)) files += (files.size() > 1 ? "," : "") + line;
      fill(e2);
      DistributedSparseGridIO::readFromDiskChunked(e2, nm + "_");
      Ev e("chunked");
      raw(e, "v", lists(get(d)));
      raw(e, "file", files + "]");
      raw(e, "got", lists(get(e2)));
      put(e);
    }
  }
  put(Ev("end"));
}
// sizes around the block and chunk sizes of the library; compared here, only the outcome is recorded
static void big(Rng g, int id) {
  Rng mineR(g.next() + static_cast<uint64_t>(wr) * 1000003);
  put(Ev("case").f("id", id).f("np", wn).f("kind", "big").f("len", std::vector<int>()));
  int n = mineR.pick(std::vector<int>{131072, 131073, 262144, 1, 400000, 600000, 1048576, 131071});
  int style = g.in(0, 2);
  std::vector<double> v;
  for (int i = 0; i < n; ++i) v.push_back(style == 0 ? static_cast<double>(mineR.next() >> 20) : style == 1 ? static_cast<double>(i % 100) : 1.);
  for (int z = 0; z < 2; ++z) {
    std::string nm = "b" + std::to_string(z);
    long r = attempt([&]() { return z ? mpiio::writeCompressedValuesConsecutive<double>(v.data(), n, nm, MPI_COMM_WORLD, true) : mpiio::writeValuesConsecutive<double>(v.data(), n, nm, MPI_COMM_WORLD, true); });
    std::vector<double> got(static_cast<size_t>(n));
    long r2 = attempt([&]() { return z ? mpiio::readCompressedValuesConsecutive<double>(got.data(), n, nm, MPI_COMM_WORLD) : mpiio::readValuesConsecutive<double>(got.data(), n, nm, MPI_COMM_WORLD); });
    bool same = got == v;
    long r3 = attempt([&]() { return z ? mpiio::readReduceCompressedValuesConsecutive<double>(got.data(), n, nm, MPI_COMM_WORLD, std::plus<double>{}) : mpiio::readReduceValuesConsecutive<double>(got.data(), n, nm, MPI_COMM_WORLD, 131072, std::plus<double>{}); });
    bool twice = true;
    for (size_t i = 0; i < v.size(); ++i) twice = twice && got[i] == 2 * v[i];
    Ev e("bigio");
    e.f("z", z);
    raw(e, "n", ints(n)); raw(e, "wres", ints(r)); raw(e, "rres", ints(r2)); raw(e, "same", ints(same)); raw(e, "ares", ints(r3)); raw(e, "twice", ints(twice));
    put(e);
    if (wr == 0) std::filesystem::remove(nm);
  }
  put(Ev("end"));
}
int main(int argc, char** argv) {
  int prov;
  MPI_Init_thread(&argc, &argv, MPI_THREAD_MULTIPLE, &prov);
  Stats::initialize();
  Args a(argc, argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &wr);
  MPI_Comm_size(MPI_COMM_WORLD, &wn);
  if (wr == 0) out.open(a.s("out", "trace.ndjson"));
  Rng g(static_cast<uint64_t>(a.i("seed", 1)));
  int id = 0;
  for (int i = 0, n = a.i("n", 30); i < n; ++i) {
    Rng r(g.next());
    if (i % 5 == 4) { if (r.coin(1, 4)) sparse<float>(r, id++); else sparse<double>(r, id++); }
    else if (i % 5 == 3) plain<uint32_t>(r, id++, "uint32");
    else if (i % 5 == 2) plain<float>(r, id++, "float");
    else plain<double>(r, id++, "double");
  }
  for (int i = 0, n = a.i("big", 2); i < n; ++i) big(Rng(g.next()), id++);
  Stats::finalize();
  MPI_Finalize();
  return 0;
}
