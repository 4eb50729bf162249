#include "vpbt.hpp"
#include <algorithm>
#include <functional>

namespace vp {

std::string json_escape(const std::string &s) {
  std::string o;
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 0x20 || c >= 0x7f) {
      std::snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += c;
  }
  return o;
}

namespace {
// for the terminal
std::string plain(std::string s) {
  for (char &c : s)
    if ((unsigned char)c >= 0x7f || ((unsigned char)c < 0x20 && c != '\n' && c != '\t'))
      c = '?';
  return s;
}
struct Options {
  uint64_t seed = 1;
  bool thorough = false;
  std::string out, replay_dir = ".", replay, only;
  std::vector<std::string> known;
  double scale = 1e0;
  int workers = 8; // (as many as STRIDE)
  bool verbose = false;
  double cpu_limit = 20;
  bool list = false;
} opt;

Shared *g_sh = nullptr;

void on_prof(int) {
  if (g_sh) {
    g_sh->status = 4;
    std::strcpy(g_sh->msg, "hang: the case used up its CPU limit");
  }
  _exit(96);
}
void arm(double s) {
  struct itimerval t;
  std::memset(&t, 0, sizeof t);
  t.it_value.tv_sec = (long)s;
  setitimer(ITIMER_PROF, &t, nullptr);
}
double now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + 1e-9 * ts.tv_nsec;
}
Shared *map_shared() {
  void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    std::perror("mmap");
    std::exit(99);
  }
  return (Shared *)p;
}
void setmsg(Shared *sh, const std::string &m) {
  std::strncpy(sh->msg, m.c_str(), sizeof(sh->msg) - 1);
  sh->msg[sizeof(sh->msg) - 1] = 0;
}
// run one case; the outcome is in sh->status / msg
void run_case(const Sub &s, Gen &g, Shared *sh) {
  sh->status = 0;
  sh->msg[0] = 0;
  try {
    s.fn(g);
    sh->status = 1;
  } catch (Fail &f) {
    setmsg(sh, f.msg);
    sh->status = 2;
  } catch (Discard &) {
    sh->status = 3;
  } catch (std::exception &e) {
    setmsg(sh, std::string("exception escaped: ") + e.what());
    sh->status = 2;
  } catch (...) {
    setmsg(sh, "unknown exception escaped");
    sh->status = 2;
  }
}

struct Outcome {
  bool failed = false, discarded = false;
  std::string msg, notes;
  std::vector<Choice> choices;
};

void silence(const char *errfile) {
  int fd = open("/dev/null", O_WRONLY);
  dup2(fd, 1);
  if (errfile) {
    int e = open(errfile, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (e >= 0) {
      dup2(e, 2);
      close(e);
    }
  } else
    dup2(fd, 2);
  close(fd);
}

std::string crash_summary(const std::string &errfile) {
  std::string all;
  if (FILE *f = std::fopen(errfile.c_str(), "rb")) {
    char b[4096];
    size_t n;
    while ((n = std::fread(b, 1, sizeof b, f)) > 0 && all.size() < (1u << 22))
      all.append(b, n);
    std::fclose(f);
  }
  std::string res;
  static const char *keys[] = {"SUMMARY:", "runtime error:", "Assertion",
                               "ERROR: AddressSanitizer", "terminate called",
                               "what():"};
  size_t pos = 0;
  int left = 6;
  while (pos < all.size() && left) {
    size_t e = all.find('\n', pos);
    if (e == std::string::npos)
      e = all.size();
    std::string l = all.substr(pos, e - pos);
    for (auto k : keys)
      if (l.find(k) != std::string::npos) {
        res += l.substr(0, 300) + " | ";
        --left;
        break;
      }
    pos = e + 1;
  }
  return res;
}

typedef std::vector<std::vector<Choice>> History;
// replay cases one after the other in a child, until one fails
Outcome replay_history(const Sub &s, const History &h, bool verbose) {
  static Shared *sh = map_shared();
  sh->status = 0;
  sh->nchoices = 0;
  sh->done = 0;
  sh->msg[0] = 0;
  int pfd[2];
  if (pipe(pfd)) {
    std::perror("pipe");
    std::exit(99);
  }
  const std::string errf = scratch_dir() + "/replay.err";
  pid_t pid = fork();
  if (pid == 0) {
    close(pfd[0]);
    g_sh = sh;
    silence(verbose ? errf.c_str() : nullptr);
    signal(SIGPROF, on_prof);
    for (size_t k = 0; k < h.size(); ++k) {
      if (verbose && h.size() > 1) {
        const std::string t = fmt("-- case %zu of %zu\n", k + 1, h.size());
        if (write(pfd[1], t.data(), t.size()) < 0)
          _exit(98);
      }
      arm(opt.cpu_limit);
      Gen g(sh, &h[k]);
      g.verbose = verbose;
      g.note_fd = verbose ? pfd[1] : -1;
      g.known_ids = &opt.known;
      run_case(s, g, sh);
      arm(0);
      if (sh->status == 2)
        break;
    }
    sh->done = 1;
    _exit(0);
  }
  close(pfd[1]);
  Outcome o;
  char b[4096];
  ssize_t n;
  while ((n = read(pfd[0], b, sizeof b)) > 0)
    o.notes.append(b, n);
  close(pfd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  o.choices.assign(sh->choices, sh->choices + sh->nchoices);
  if (sh->done) {
    o.failed = sh->status == 2;
    o.discarded = sh->status == 3;
    o.msg = sh->msg;
  } else {
    o.failed = true;
    if (sh->status == 4)
      o.msg = sh->msg;
    else if (WIFSIGNALED(st))
      o.msg = fmt("crash: signal %d", WTERMSIG(st));
    else
      o.msg = fmt("crash: the process ended with status %d", WEXITSTATUS(st));
    if (verbose) {
      std::string cs = crash_summary(errf);
      if (!cs.empty())
        o.msg += " (" + cs + ")";
    }
  }
  return o;
}
Outcome replay_once(const Sub &s, const std::vector<Choice> &c, bool verbose) {
  return replay_history(s, History{c}, verbose);
}

// the case with index i (see vpbt.hpp)
constexpr uint64_t STRIDE = 8;
Gen nth_case(Shared *sh, uint64_t base, uint64_t i) {
  if ((i / STRIDE) % 8 != 7)
    return Gen(sh, mix64(base ^ mix64(i + 1)));
  Gen g(sh, mix64(base ^ mix64(i - STRIDE + 1)));
  const uint64_t h = mix64(base ^ mix64(~i));
  static const uint32_t p[4] = {400, 150, 60, 20};
  g.vary(h, p[(h >> 32) & 3]);
  return g;
}

// What a worker ran just before and including its case `last` (every stride-th
// one, `count` of them), as lists of choices; shorter if one of them crashes.
History choices_of(const Sub &s, uint64_t base, uint64_t last, uint64_t stride,
                   uint64_t count) {
  static Shared *sh = map_shared();
  const std::string fn = scratch_dir() + "/history.bin";
  pid_t pid = fork();
  if (pid == 0) {
    g_sh = sh;
    silence(nullptr);
    signal(SIGPROF, on_prof);
    FILE *f = std::fopen(fn.c_str(), "wb");
    if (!f)
      _exit(99);
    uint64_t total = 0;
    for (uint64_t k = count; k-- > 0;) {
      const uint64_t i = last - k * stride;
      Gen g = nth_case(sh, base, i);
      g.known_ids = &opt.known;
      arm(opt.cpu_limit);
      run_case(s, g, sh);
      arm(0);
      const uint64_t n = sh->nchoices;
      if ((total += n) > (16u << 20)) // too much to keep
        break;
      std::fwrite(&n, 8, 1, f);
      std::fwrite((const void *)sh->choices, sizeof(Choice), n, f);
      std::fflush(f);
      if (sh->status == 2)
        break;
    }
    std::fclose(f);
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  History h;
  if (FILE *f = std::fopen(fn.c_str(), "rb")) {
    uint64_t n;
    while (std::fread(&n, 8, 1, f) == 1 && n <= MAXC) {
      std::vector<Choice> c(n);
      if (std::fread(c.data(), sizeof(Choice), n, f) != n)
        break;
      h.push_back(c);
    }
    std::fclose(f);
  }
  unlink(fn.c_str());
  return h;
}

bool smaller(const std::vector<Choice> &a, const std::vector<Choice> &b) {
  if (a.size() != b.size())
    return a.size() < b.size();
  for (size_t i = 0; i < a.size(); ++i)
    if (a[i].v != b[i].v)
      return a[i].v < b[i].v;
  return false;
}

std::vector<Choice>
shrink(const std::function<Outcome(const std::vector<Choice> &)> &run,
       std::vector<Choice> best, uint64_t *attempts) {
  const double t0 = now();
  uint64_t maxtry = opt.thorough ? 20000 : 6000;
  // (running out of budget only costs minimality)
  static double spent = 0;
  const double budget = std::max(5e0, std::min(opt.thorough ? 90e0 : 40e0,
                                               120e0 - spent));
  auto over = [&]() { return *attempts >= maxtry || now() - t0 > budget; };
  *attempts = 0;
  auto attempt = [&](const std::vector<Choice> &c) -> bool {
    if (over())
      return false;
    ++*attempts;
    Outcome o = run(c);
    if (!o.failed)
      return false;
    // a crash may not have consumed the tail: o.choices is what was used
    if (smaller(o.choices, best)) {
      best = o.choices;
      return true;
    }
    return false;
  };
  bool progress = true;
  while (progress && !over()) {
    progress = false;
    // delete chunks
    for (size_t k = std::min<size_t>(best.size(), 256); k >= 1; k /= 2) {
      for (size_t i = 0; i + k <= best.size();) {
        std::vector<Choice> c(best);
        c.erase(c.begin() + i, c.begin() + i + k);
        if (attempt(c))
          progress = true;
        else {
          // delete the chunk and lower the choice before it (a length)
          bool ok = false;
          if (i > 0 && best[i - 1].v >= 1 && k <= 8) {
            c[i - 1].v -= 1;
            ok = attempt(c);
            progress |= ok;
          }
          if (!ok)
            i += k;
        }
        if (over())
          break;
      }
    }
    // zero chunks
    for (size_t k = std::min<size_t>(best.size(), 64); k >= 1; k /= 2)
      for (size_t i = 0; i + k <= best.size() && !over(); i += k) {
        std::vector<Choice> c(best);
        bool any = false;
        for (size_t j = i; j < i + k; ++j)
          if (c[j].v) {
            c[j].v = 0;
            any = true;
          }
        if (any && attempt(c))
          progress = true;
      }
    // lower single choices
    for (size_t i = 0; i < best.size() && !over(); ++i) {
      uint64_t lo = 0; // known (or assumed) not to fail
      while (i < best.size() && best[i].v > lo + 1) {
        const uint64_t mid = lo + (best[i].v - lo) / 2;
        std::vector<Choice> c(best);
        c[i].v = mid;
        if (attempt(c))
          progress = true;
        else
          lo = mid;
        if (over())
          break;
      }
      if (i < best.size() && best[i].v > 0) {
        std::vector<Choice> c(best);
        c[i].v -= 1;
        if (attempt(c))
          progress = true;
      }
    }
  }
  spent += now() - t0;
  return best;
}

// drop cases, then simplify those left
void shrink_history(const Sub &s, History &h, uint64_t *attempts) {
  const double t0 = now();
  *attempts = 0;
  for (size_t k = std::max<size_t>(1, h.size() / 2);; k /= 2) {
    for (size_t i = 0; i < h.size() && h.size() > 1 && now() - t0 < 40;) {
      History c(h);
      c.erase(c.begin() + i, c.begin() + std::min(i + k, c.size()));
      ++*attempts;
      if (!c.empty() && replay_history(s, c, false).failed)
        h = c;
      else
        i += k;
    }
    if (k <= 1)
      break;
  }
  if (h.size() > 6)
    return;
  for (size_t i = h.size(); i-- > 0 && now() - t0 < 60;) {
    uint64_t n = 0;
    h[i] = shrink(
        [&](const std::vector<Choice> &c) {
          History x(h);
          x[i] = c;
          Outcome o = replay_history(s, x, false);
          o.choices = c;
          return o;
        },
        h[i], &n);
    *attempts += n;
  }
}

struct SubStats {
  uint64_t evaluations = 0, discarded = 0, distinct_nontrivial = 0,
           nontrivial = 0;
  std::map<std::string, uint64_t> labels, excluded;
  std::vector<std::string> samples;
  bool failed = false, flaky = false;
  std::string msg, replay, notes;
  uint64_t fail_index = 0, shrink_attempts = 0;
  size_t nchoices0 = 0, nchoices1 = 0;
  double wall = 0;
};

struct Control {
  volatile uint64_t min_fail;
};

void save_replay(const std::string &path, const Sub &s, const History &h,
                 const Outcome &o) {
  FILE *f = std::fopen(path.c_str(), "w");
  if (!f)
    return;
  std::fprintf(f, "vpbt-replay 2\nsub %s\nseed %llu\ncases %zu\n",
               s.name.c_str(), (unsigned long long)opt.seed, h.size());
  for (auto &c : h) {
    std::fprintf(f, "choices %zu\n", c.size());
    for (auto &x : c)
      std::fprintf(f, "%llu %llu\n", (unsigned long long)x.v,
                   (unsigned long long)x.n);
  }
  std::fprintf(f, "# failure: %s\n", o.msg.c_str());
  std::fprintf(f, "# case:\n");
  std::string l = "# ";
  for (char ch : o.notes) {
    l += ch;
    if (ch == '\n') {
      std::fputs(l.c_str(), f);
      l = "# ";
    }
  }
  std::fclose(f);
}

void run_sub(const Sub &s, SubStats &st) {
  const double t0 = now();
  const uint64_t N = std::max<uint64_t>(
      1, (uint64_t)((opt.thorough ? s.nthorough : s.nquick) * opt.scale));
  const int W = (int)std::min<uint64_t>(opt.workers, N);
  Control *ctl = (Control *)mmap(nullptr, sizeof(Control),
                                 PROT_READ | PROT_WRITE,
                                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  ctl->min_fail = ~0ULL;
  const uint64_t base = mix64(mix64(opt.seed) ^ hash_str(s.name.c_str()));
  std::vector<Shared *> sh(W);
  std::vector<pid_t> pid(W);
  std::vector<std::string> outf(W);
  for (int w = 0; w < W; ++w) {
    sh[w] = map_shared();
    outf[w] = scratch_dir() + fmt("/stats.%s.%d", s.name.c_str(), w);
    std::fflush(nullptr);
    pid[w] = fork();
    if (pid[w] == 0) {
      Shared *my = sh[w];
      g_sh = my;
      silence(opt.verbose ? nullptr : nullptr);
      signal(SIGPROF, on_prof);
      SubStats ls;
      std::unordered_set<uint64_t> seen;
      for (uint64_t i = w; i < N; i += W) {
        if (i > ctl->min_fail)
          break;
        my->index = i;
        Gen g = nth_case(my, base, i);
        g.labels = &ls.labels;
        g.excluded = &ls.excluded;
        g.known_ids = &opt.known;
        g.verbose = ls.samples.size() < 2;
        arm(opt.cpu_limit);
        run_case(s, g, my);
        if (my->status == 2) {
          if (i < ctl->min_fail)
            ctl->min_fail = i;
          my->done = 2;
          break;
        }
        ++ls.evaluations;
        if (my->status == 3) {
          ++ls.discarded;
          continue;
        }
        if (g.nontriv) {
          ++ls.nontrivial;
          seen.insert(g.case_hash());
          if (g.verbose && !g.notes.empty())
            ls.samples.push_back(g.notes.substr(0, 1500));
        }
      }
      arm(0);
      FILE *f = std::fopen(outf[w].c_str(), "wb");
      if (!f)
        _exit(99);
      auto wr = [&](const void *p, size_t n) { std::fwrite(p, 1, n, f); };
      auto wrs = [&](const std::string &x) {
        uint64_t n = x.size();
        wr(&n, 8);
        wr(x.data(), n);
      };
      wr(&ls.evaluations, 8);
      wr(&ls.discarded, 8);
      wr(&ls.nontrivial, 8);
      uint64_t n = ls.labels.size();
      wr(&n, 8);
      for (auto &kv : ls.labels) {
        wrs(kv.first);
        wr(&kv.second, 8);
      }
      n = ls.excluded.size();
      wr(&n, 8);
      for (auto &kv : ls.excluded) {
        wrs(kv.first);
        wr(&kv.second, 8);
      }
      n = ls.samples.size();
      wr(&n, 8);
      for (auto &x : ls.samples)
        wrs(x);
      n = seen.size();
      wr(&n, 8);
      for (auto h : seen)
        wr(&h, 8);
      std::fclose(f);
      if (my->done != 2)
        my->done = 1;
      _exit(0);
    }
  }
  uint64_t bestfail = ~0ULL;
  int bestw = -1;
  for (int k = 0; k < W; ++k) {
    int wst = 0;
    pid_t p = waitpid(-1, &wst, 0);
    int w = -1;
    for (int j = 0; j < W; ++j)
      if (pid[j] == p)
        w = j;
    if (w < 0) {
      --k;
      continue;
    }
    if (sh[w]->done == 0) { // crashed or hung
      if (sh[w]->index < ctl->min_fail)
        ctl->min_fail = sh[w]->index;
      if (sh[w]->index < bestfail) {
        bestfail = sh[w]->index;
        bestw = w;
      }
    } else if (sh[w]->done == 2 && sh[w]->index < bestfail) {
      bestfail = sh[w]->index;
      bestw = w;
    }
  }
  // merge
  std::unordered_set<uint64_t> seen;
  for (int w = 0; w < W; ++w) {
    FILE *f = std::fopen(outf[w].c_str(), "rb");
    if (!f)
      continue;
    auto rd = [&](void *p, size_t n) { return std::fread(p, 1, n, f) == n; };
    auto rds = [&]() {
      uint64_t n = 0;
      rd(&n, 8);
      std::string x(n, '\0');
      if (n)
        rd(&x[0], n);
      return x;
    };
    uint64_t a = 0, n = 0;
    rd(&a, 8);
    st.evaluations += a;
    rd(&a, 8);
    st.discarded += a;
    rd(&a, 8);
    st.nontrivial += a;
    rd(&n, 8);
    while (n--) {
      std::string k = rds();
      rd(&a, 8);
      st.labels[k] += a;
    }
    rd(&n, 8);
    while (n--) {
      std::string k = rds();
      rd(&a, 8);
      st.excluded[k] += a;
    }
    rd(&n, 8);
    while (n--) {
      std::string k = rds();
      if (st.samples.size() < 4)
        st.samples.push_back(k);
    }
    rd(&n, 8);
    while (n--) {
      rd(&a, 8);
      seen.insert(a);
    }
    std::fclose(f);
    unlink(outf[w].c_str());
  }
  st.distinct_nontrivial = seen.size();
  if (bestw >= 0) {
    std::vector<Choice> c(sh[bestw]->choices,
                          sh[bestw]->choices + sh[bestw]->nchoices);
    st.fail_index = bestfail;
    st.nchoices0 = c.size();
    // (a hang costs its time limit at every replay)
    const bool hung = sh[bestw]->done == 0 && sh[bestw]->status == 4;
    auto thrice = [&](const std::vector<Choice> &x) {
      if (hung)
        opt.cpu_limit = 10;
      for (int k = 0; k < (hung ? 1 : 3); ++k)
        if (!replay_once(s, x, false).failed)
          return false;
      return true;
    };
    if (!thrice(c)) {
      // Not on its own. After those before it in its worker, then? The same
      // calls with the same arguments in the same order are as good a
      // counterexample, if a longer one.
      const uint64_t most = (bestfail - bestfail % W) / W + 1;
      bool found = false;
      for (uint64_t n = 2; !found && !hung; n *= 4) {
        n = std::min(n, most);
        History h = choices_of(s, base, bestfail, W, n);
        if (!h.empty() && replay_history(s, h, false).failed &&
            replay_history(s, h, false).failed) {
          found = true;
          shrink_history(s, h, &st.shrink_attempts);
          Outcome o = replay_history(s, h, true);
          st.failed = o.failed;
          st.nchoices1 = 0;
          for (auto &x : h)
            st.nchoices1 += x.size();
          st.msg = fmt("in a history of %zu cases: ", h.size()) + o.msg;
          o.msg = st.msg;
          st.notes = o.notes;
          st.replay = opt.replay_dir + "/" + s.name + ".replay";
          save_replay(st.replay, s, h, o);
        }
        if (n == most)
          break;
      }
      if (!st.failed) {
        st.flaky = true;
        st.msg = sh[bestw]->msg;
        std::fprintf(stderr,
                     "[vpbt] %s: case %llu failed in its worker but does not "
                     "reproduce: not reported (%s)\n",
                     s.name.c_str(), (unsigned long long)bestfail,
                     plain(st.msg).c_str());
      }
    } else {
      const double lim = opt.cpu_limit;
      if (hung)
        opt.cpu_limit = 2;
      std::vector<Choice> m =
          shrink([&](const std::vector<Choice> &x) { return replay_once(s, x, false); },
                 c, &st.shrink_attempts);
      opt.cpu_limit = lim;
      if (!thrice(m))
        m = c;
      Outcome o = replay_once(s, m, true);
      if (!o.failed) { // verbose replay disagrees
        m = c;
        o = replay_once(s, m, true);
      }
      st.failed = true;
      st.nchoices1 = m.size();
      st.msg = o.msg;
      st.notes = o.notes;
      st.replay = opt.replay_dir + "/" + s.name + ".replay";
      save_replay(st.replay, s, {m}, o);
      if (o.msg.compare(0, 5, "crash") == 0) { // once more, with symbols
        setenv("ASAN_OPTIONS", "symbolize=1", 1);
        std::string cmd = "/proc/self/exe";
        char self[4096];
        ssize_t k = readlink("/proc/self/exe", self, sizeof(self) - 1);
        if (k > 0) {
          self[k] = 0;
          cmd = std::string(self) + " --scratch " + scratch_dir() +
                " --replay " + st.replay + " 2>/dev/null";
          if (FILE *f = popen(cmd.c_str(), "r")) {
            char line[2048];
            for (int j = 0; j < 2 && std::fgets(line, sizeof line, f); ++j)
              if (j == 1)
                st.msg = line;
            while (std::fgets(line, sizeof line, f))
              ;
            pclose(f);
          }
        }
        unsetenv("ASAN_OPTIONS");
        o.msg = st.msg;
        save_replay(st.replay, s, {m}, o);
      }
    }
  }
  for (int w = 0; w < W; ++w)
    munmap((void *)sh[w], sizeof(Shared));
  munmap((void *)ctl, sizeof(Control));
  st.wall = now() - t0;
}

bool probe_child(const Probe &p, std::string *how) {
  pid_t pid = fork();
  if (pid == 0) {
    silence(nullptr);
    struct sigaction sa;
    std::memset(&sa, 0, sizeof sa);
    signal(SIGPROF, SIG_DFL);
    arm(opt.cpu_limit);
    bool r = true;
    try {
      r = p.fn();
    } catch (...) {
      r = true;
    }
    _exit(r ? 10 : 0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
    *how = "gone";
    return false;
  }
  *how = WIFSIGNALED(st)              ? fmt("signal %d", WTERMSIG(st))
         : WEXITSTATUS(st) == 10      ? "reproduced"
                                      : fmt("exit %d", WEXITSTATUS(st));
  return true;
}

int do_replay() {
  FILE *f = std::fopen(opt.replay.c_str(), "r");
  if (!f) {
    std::perror(opt.replay.c_str());
    return 99;
  }
  char name[256];
  unsigned long long seed;
  size_t cases;
  if (std::fscanf(f, "vpbt-replay 2 sub %255s seed %llu cases %zu", name, &seed,
                  &cases) != 3) {
    std::fprintf(stderr, "not a replay file\n");
    return 99;
  }
  History h(cases);
  for (auto &c : h) {
    size_t n;
    if (std::fscanf(f, " choices %zu", &n) != 1 || n > MAXC)
      return 99;
    c.resize(n);
    for (auto &x : c) {
      unsigned long long v, b;
      if (std::fscanf(f, "%llu %llu", &v, &b) != 2)
        return 99;
      x = {v, b};
    }
  }
  std::fclose(f);
  for (auto &s : subs())
    if (s.name == name) {
      Outcome o = replay_history(s, h, true);
      std::printf("sub %s: %s\n%s\n--- case\n%s", name,
                  o.failed ? "FAILED" : o.discarded ? "discarded" : "passed",
                  o.msg.c_str(), o.notes.c_str());
      return o.failed ? 1 : 0;
    }
  std::fprintf(stderr, "no sub-property %s here\n", name);
  return 99;
}
} // namespace

int engine_main(int argc, char **argv) {
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> std::string {
      if (i + 1 >= argc)
        std::exit(99);
      return argv[++i];
    };
    if (a == "--seed")
      opt.seed = std::strtoull(val().c_str(), nullptr, 10);
    else if (a == "--tier")
      opt.thorough = val() == "thorough";
    else if (a == "--out")
      opt.out = val();
    else if (a == "--replay-dir")
      opt.replay_dir = val();
    else if (a == "--replay")
      opt.replay = val();
    else if (a == "--only")
      opt.only = val();
    else if (a == "--scale")
      opt.scale = std::atof(val().c_str());
    else if (a == "--workers")
      opt.workers = std::atoi(val().c_str());
    else if (a == "--scratch")
      scratch_dir() = val();
    else if (a == "--known") {
      std::string v = val(), x;
      for (char ch : v + ",")
        if (ch == ',') {
          if (!x.empty())
            opt.known.push_back(x);
          x.clear();
        } else
          x += ch;
    } else {
      std::fprintf(stderr, "unknown option %s\n", a.c_str());
      return 99;
    }
  }
  // nothing leaks into the code under test through stdin
  int fd = open("/dev/null", O_RDONLY);
  dup2(fd, 0);
  close(fd);
  if (!opt.replay.empty())
    return do_replay();
  std::string js = "{\"subs\":[";
  bool any = false, first = true;
  const double started = now();
  for (auto &s : subs()) {
    if (!opt.only.empty() && s.name != opt.only)
      continue;
    if (any && !opt.thorough && now() - started > 60) {
      std::fprintf(stderr, "[vpbt] %s: left out, there is a failure already\n", s.name.c_str());
      continue;
    }
    SubStats st;
    run_sub(s, st);
    any |= st.failed;
    std::fprintf(stderr, "[vpbt] %-34s %9llu cases %9llu non-trivial  %s %.1fs%s\n",
                 s.name.c_str(), (unsigned long long)st.evaluations,
                 (unsigned long long)st.distinct_nontrivial,
                 st.failed ? "FAILED" : st.flaky ? "(flaky)" : "ok", st.wall,
                 st.discarded ? fmt(" (%llu discarded)",
                                    (unsigned long long)st.discarded)
                                    .c_str()
                              : "");
    if (st.failed)
      std::fprintf(stderr,
                   "[vpbt]   case %llu shrunk from %zu to %zu choices in %llu "
                   "attempts\n[vpbt]   %s\n%s",
                   (unsigned long long)st.fail_index, st.nchoices0,
                   st.nchoices1, (unsigned long long)st.shrink_attempts,
                   plain(st.msg).c_str(), plain(st.notes.substr(0, 3000)).c_str());
    if (!first)
      js += ",";
    first = false;
    js += fmt("{\"name\":\"%s\",\"rule\":\"%s\",\"evaluations\":%llu,"
              "\"discarded\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,"
              "\"wall\":%.2f,\"failed\":%s,\"flaky\":%s,",
              s.name.c_str(), json_escape(s.rule).c_str(),
              (unsigned long long)st.evaluations,
              (unsigned long long)st.discarded,
              (unsigned long long)st.nontrivial,
              (unsigned long long)st.distinct_nontrivial, st.wall,
              st.failed ? "true" : "false", st.flaky ? "true" : "false");
    js += "\"msg\":\"" + json_escape(st.msg) + "\",\"replay\":\"" +
          json_escape(st.replay) + "\",\"labels\":{";
    bool f2 = true;
    for (auto &kv : st.labels) {
      js += (f2 ? "\"" : ",\"") + json_escape(kv.first) +
            fmt("\":%llu", (unsigned long long)kv.second);
      f2 = false;
    }
    js += "},\"excluded\":{";
    f2 = true;
    for (auto &kv : st.excluded) {
      js += (f2 ? "\"" : ",\"") + json_escape(kv.first) +
            fmt("\":%llu", (unsigned long long)kv.second);
      f2 = false;
    }
    js += "},\"samples\":[";
    f2 = true;
    for (auto &x : st.samples) {
      js += (f2 ? "\"" : ",\"") + json_escape(x) + "\"";
      f2 = false;
    }
    js += "]}";
  }
  js += "],\"probes\":[";
  first = true;
  for (auto &p : probes()) {
    if (!opt.only.empty())
      break;
    std::string how;
    bool r = probe_child(p, &how);
    js += (first ? "" : ",") + std::string("{\"id\":\"") + json_escape(p.id) +
          "\",\"text\":\"" + json_escape(p.text) + "\",\"present\":" +
          (r ? "true" : "false") + ",\"how\":\"" + how + "\"}";
    first = false;
  }
  js += "]}\n";
  if (!opt.out.empty())
    write_file(opt.out, js);
  return any ? 1 : 0;
}

} // namespace vp

extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb="
         "4096:malloc_fill_byte=190:max_malloc_fill_size=16777216:"
         "handle_abort=1:detect_stack_use_after_return=1:abort_on_error=0:"
         "exitcode=77:quarantine_size_mb=16:symbolize=0";
}
extern "C" const char *__ubsan_default_options() {
  return "halt_on_error=1:print_stacktrace=0:exitcode=78:symbolize=1";
}

int main(int argc, char **argv) { return vp::engine_main(argc, argv); }
