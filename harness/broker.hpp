// starts the real broker as a process of its own and reads what it reports
#pragma once
#include <arpa/inet.h>
#include <dirent.h>
#include <set>
#include <signal.h>
#include <spawn.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <sstream>
#include <fstream>
#include <string>
#include <vector>
#include <chrono>
#include <thread>
extern char** environ;
namespace vh {
inline std::string exeDir() {
  char b[4096];
  ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
  std::string s(b, n > 0 ? n : 0);
  return s.substr(0, s.rfind('/'));
}
inline int freePort() {
  int s = ::socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = htonl(INADDR_ANY);
  int port = 0;
  if (::bind(s, reinterpret_cast<sockaddr*>(&a), sizeof a) == 0) {
    socklen_t l = sizeof a;
    getsockname(s, reinterpret_cast<sockaddr*>(&a), &l);
    port = ntohs(a.sin_port);
  }
  ::close(s);
  return port;
}
// does the process itself listen on the port (another one may have taken it meanwhile)
inline bool listening(int port, pid_t pid) {
  std::set<std::string> mine;
  if (DIR* d = opendir(("/proc/" + std::to_string(pid) + "/fd").c_str())) {
    while (dirent* e = readdir(d)) {
      char b[256];
      ssize_t n = readlink(("/proc/" + std::to_string(pid) + "/fd/" + e->d_name).c_str(), b, sizeof b - 1);
      if (n > 0) mine.insert(std::string(b, static_cast<size_t>(n)));
    }
    closedir(d);
  }
  for (const char* f : {"/proc/net/tcp", "/proc/net/tcp6"}) {
    std::ifstream is(f);
    std::string line;
    char want[16];
    snprintf(want, sizeof want, ":%04X", port);
    while (std::getline(is, line)) {
      std::istringstream ls(line);
      std::string n, loc, rem, st, q, tr, re, uid, to, inode;
      ls >> n >> loc >> rem >> st >> q >> tr >> re >> uid >> to >> inode;
      if (st == "0A" && loc.size() > 5 && loc.substr(loc.size() - 5) == want && mine.count("socket:[" + inode + "]")) return true;
    }
  }
  return false;
}
struct Broker {
  pid_t pid = -1;
  int port = 0, status = -1;
  // fromFile: parameters from an .ini file
  bool start(int systems, long chunk, bool fromFile, unsigned split) {
    for (int attempt = 0; attempt < 5; ++attempt) {
      port = freePort();
      std::vector<std::string> a{exeDir() + "/thirdLevelManager"};
      if (fromFile) {
        std::ofstream o("broker.ini");
        o << "[Connection]\nport=" << port << "\n";
        if (chunk > 0) o << "chunksize=" << chunk << "\n";
        o << "\n[DistributedCombi]\nnumSystems=" << systems << "\n";
        a.push_back("broker.ini");
      } else {
        a.push_back("--port=" + std::to_string(port));
        if (systems != 2 || chunk % 2) a.push_back("--numSystems=" + std::to_string(systems));
        if (chunk > 0) a.push_back("--chunksize=" + std::to_string(chunk));
      }
      unlink("stats.json");
      std::vector<char*> av;
      for (auto& x : a) av.push_back(const_cast<char*>(x.c_str()));
      av.push_back(nullptr);
      std::vector<std::string> es;
      for (char** e = environ; *e; ++e) { std::string x(*e); if (x.rfind("OMPI_", 0) && x.rfind("PMIX", 0) && x.rfind("SPLIT", 0)) es.push_back(x); }
      if (split) es.push_back("SPLIT=" + std::to_string(split));
      std::vector<char*> ev;
      for (auto& x : es) ev.push_back(const_cast<char*>(x.c_str()));
      ev.push_back(nullptr);
      posix_spawn_file_actions_t fa;
      posix_spawn_file_actions_init(&fa);
      posix_spawn_file_actions_addopen(&fa, 1, "broker.log", O_WRONLY | O_CREAT | O_TRUNC, 0644);
      posix_spawn_file_actions_addopen(&fa, 2, "broker.err", O_WRONLY | O_CREAT | O_TRUNC, 0644);
      if (posix_spawn(&pid, av[0], &fa, nullptr, av.data(), ev.data()) != 0) return false;
      posix_spawn_file_actions_destroy(&fa);
      for (int i = 0; i < 20000; ++i) {
        if (listening(port, pid)) return true;
        int st;
        if (waitpid(pid, &st, WNOHANG) == pid) { pid = -1; break; }  // the port was taken meanwhile
        usleep(1000);
      }
      if (pid > 0) { kill(pid, SIGKILL); waitpid(pid, nullptr, 0); }
    }
    return false;
  }
  static std::string errors() {
    std::ifstream is("broker.err");
    std::string s((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
    return s.size() > 400 ? s.substr(s.size() - 400) : s;
  }
  bool running() const {
    siginfo_t i{};
    return waitid(P_PID, static_cast<id_t>(pid), &i, WEXITED | WNOHANG | WNOWAIT) == 0 && i.si_pid == 0;
  }
  // exit status, or 1000 if it does not end
  int end(int seconds) {
    for (int i = 0; i < seconds * 1000; ++i) {
      int st;
      if (waitpid(pid, &st, WNOHANG) == pid) return WIFEXITED(st) ? WEXITSTATUS(st) : 256 + WTERMSIG(st);
      usleep(1000);
    }
    kill(pid, SIGKILL);
    waitpid(pid, nullptr, 0);
    return 1000;
  }
  long stat(const std::string& key) {
    std::ifstream is("stats.json");
    std::string s((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
    auto p = s.find("\"" + key + "\"");
    if (p == std::string::npos) return -1;
    p = s.find(':', p);
    p = s.find_first_of("0123456789-", p);
    return p == std::string::npos ? -1 : std::stol(s.substr(p));
  }
};
}  // namespace vh
