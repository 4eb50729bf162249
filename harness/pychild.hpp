// The Python programs of the repository, run in a child process of each worker
// (see ref/pyserve.py).
#pragma once
#include "vpbt.hpp"
namespace vp {
struct PyResult {
  int rc = 0; // 124: did not end; 77: there is no such function
  std::string out, err;
};
class PyChild {
  FILE *to = nullptr, *from = nullptr;
  pid_t owner = 0;
  void start() {
    // a fork of the process that had the child needs one of its own
    if (owner == getpid())
      return;
    owner = getpid();
    int a[2], b[2];
    if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC))
      _exit(99);
    const pid_t p = fork();
    if (p == 0) {
      signal(SIGPROF, SIG_DFL);
      struct itimerval off;
      std::memset(&off, 0, sizeof off);
      setitimer(ITIMER_PROF, &off, nullptr);
      dup2(a[0], 0), dup2(b[1], 1);
      const std::string f = __FILE__;
      const std::string s = f.substr(0, f.rfind("/harness/")) + "/ref/pyserve.py";
      execlp("python3", "python3", "-B", "-S", s.c_str(), (char *)nullptr);
      _exit(99);
    }
    close(a[0]), close(b[1]);
    to = fdopen(a[1], "w"), from = fdopen(b[0], "r");
  }
  std::string blob() {
    size_t n = 0;
    if (std::fscanf(from, "%zu", &n) != 1 || std::fgetc(from) != '\n')
      _exit(99);
    std::string s(n, 0);
    if (n && std::fread(&s[0], 1, n, from) != n)
      _exit(99);
    return s;
  }

public:
  PyResult operator()(const std::vector<std::string> &args) {
    start();
    std::fprintf(to, "%zu\n", args.size());
    for (auto &s : args)
      std::fprintf(to, "%zu\n", s.size()), std::fwrite(s.data(), 1, s.size(), to);
    std::fflush(to);
    PyResult r;
    if (std::fscanf(from, "%d", &r.rc) != 1)
      _exit(99);
    r.out = blob();
    r.err = blob();
    return r;
  }
};
inline PyResult pyrun(std::vector<std::string> a) {
  static PyChild c;
  return c(a);
}
} // namespace vp
