// one order of the events of all processes: a counter in shared memory
#pragma once
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <atomic>
#include <mutex>
#include "vh.hpp"
namespace vh {
struct Tick {
  std::atomic<uint64_t>* ticket = nullptr;
  std::vector<std::pair<uint64_t, std::string>> mine;
  std::mutex mu;
  bool open(int wr) {
    if (wr == 0) { std::ofstream z("ticket"); z << std::string(4096, '\0'); }
    MPI_Barrier(MPI_COMM_WORLD);
    int fd = ::open("ticket", O_RDWR);
    void* p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (fd < 0 || p == MAP_FAILED) return false;
    ticket = reinterpret_cast<std::atomic<uint64_t>*>(p);
    if (wr == 0) ticket->store(1);
    MPI_Barrier(MPI_COMM_WORLD);
    return true;
  }
  std::atomic<uint64_t>& word(int i) { return ticket[i]; }
  void rec(const Ev& e, uint64_t t = 0) {
    std::lock_guard<std::mutex> g(mu);
    if (getenv("VD")) { std::string x = e.s.substr(0, 200) + "}\n"; fputs(x.c_str(), stderr); }
    mine.emplace_back(t ? t : ticket->fetch_add(1), e.s + "}");
  }
  void flush(std::ofstream& out, int wr) {
    std::string s;
    for (auto& x : mine) s += std::to_string(x.first) + " " + x.second + "\n";
    mine.clear();
    s = gather(MPI_COMM_WORLD, s);
    if (wr == 0) {
      std::vector<std::pair<uint64_t, std::string>> all;
      std::istringstream is(s);
      std::string line;
      while (std::getline(is, line)) { auto q = line.find(' '); all.emplace_back(std::stoull(line.substr(0, q)), line.substr(q + 1)); }
      std::sort(all.begin(), all.end());
      for (auto& x : all) out << x.second << "\n";
      out.flush();
    }
  }
};
}  // namespace vh
