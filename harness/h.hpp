// Replay / bounded-stand-in harness: random cases against the real code, each case in a child process.
#pragma once
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <iostream>
#include <memory>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <Eigen/Dense>

namespace H {
typedef Eigen::VectorXd V;
typedef Eigen::MatrixXd M;

struct Fail : std::runtime_error {
  explicit Fail(const std::string& s) : std::runtime_error(s) {}
};

struct Rng {
  std::mt19937_64 g;
  double u(double a = -1., double b = 1.) { return std::uniform_real_distribution<double>(a, b)(g); }
  double n() { return std::normal_distribution<double>()(g); }
  int i(int a, int b) { return std::uniform_int_distribution<int>(a, b)(g); }
  bool b(double p = 0.5) { return u(0, 1) < p; }
  // a number in [0, 1], often at or next to an end
  double frac() { int k = i(0, 9); return k == 0 ? 0. : k <= 2 ? 1. : k == 3 ? 1 - 1e-3 * u(0, 1) : k == 4 ? 1e-3 * u(0, 1) : k == 5 ? 0.5 : u(0, 1); }
  double z = 0.05;  // share of vectors that are zero, and of single entries that are zero
  V v(long k, double s = 1.) {
    V r(k);
    bool zero = z > 0 && b(z);
    for (long j = 0; j < k; ++j) { double y = s * u(); r[j] = zero || (z > 0 && b(z)) ? 0. : y; }
    return r;
  }
  // matrices that are zero, have a zero diagonal, are diagonal, or have single zero entries, too
  M m(long r, long c, double s = 1.) {
    M x(r, c);
    int kind = z > 0 && b(3 * z) ? i(0, 2) : 3;
    for (long j = 0; j < c; ++j)
      for (long q = 0; q < r; ++q) {
        double y = s * u();
        x(q, j) = kind == 0 || (kind == 1 && q == j) || (kind == 2 && q != j) || (z > 0 && b(z)) ? 0. : y;
      }
    return x;
  }
  M spd(long k, double lo = 0.5) { M a = m(k, k); return a * a.transpose() + lo * M::Identity(k, k); }
  M sym(long k) { M a = m(k, k); return 0.5 * (a + a.transpose()); }
};

struct Case {
  std::string name;
  int iters;
  std::function<void(Rng&, int)> f;
};
inline std::vector<Case>& cases() { static std::vector<Case> c; return c; }
struct Reg {
  Reg(const char* n, int it, void (*f)(Rng&, int)) { cases().push_back(Case{n, it, f}); }
};

#define CASE(name, iters)                          \
  static void case_##name(H::Rng& R, int it);      \
  static H::Reg reg_##name(#name, iters, case_##name); \
  static void case_##name(H::Rng& R, int it)

inline std::string str(const M& m) { std::ostringstream o; o.precision(12); o << m.format(Eigen::IOFormat(12, Eigen::DontAlignCols, ",", ";", "", "", "[", "]")); return o.str(); }

inline void expect(bool c, const std::string& w) { if (!c) throw Fail(w); }
inline void near(double a, double b, const std::string& w, double tol = 1e-9) {
  if (!(std::fabs(a - b) <= tol * (1. + std::fabs(a) + std::fabs(b)))) {
    if (std::isnan(a) && std::isnan(b)) return;
    std::ostringstream o; o.precision(17); o << w << ": got " << a << " expected " << b; throw Fail(o.str());
  }
}
template <class A, class B>
void near(const Eigen::MatrixBase<A>& a_, const Eigen::MatrixBase<B>& b_, const std::string& w, double tol = 1e-9) {
  M a = a_, b = b_;
  if (a.rows() != b.rows() || a.cols() != b.cols()) {
    std::ostringstream o; o << w << ": shape " << a.rows() << "x" << a.cols() << " expected " << b.rows() << "x" << b.cols(); throw Fail(o.str());
  }
  double s = 1.;
  if (b.size()) s += b.cwiseAbs().maxCoeff();
  if (a.size() && !((a - b).cwiseAbs().maxCoeff() <= tol * s)) throw Fail(w + ": got " + str(a) + " expected " + str(b));
}
template <class F>
void throws(F f, const std::string& w) {
  bool t = false;
  try { f(); } catch (const Fail&) { throw; } catch (const std::exception&) { t = true; }
  if (!t) throw Fail(w + ": not rejected");
}
template <class F>
void nothrow(F f, const std::string& w) {
  try { f(); } catch (const Fail&) { throw; } catch (const std::exception& e) { throw Fail(w + ": threw " + e.what()); }
}

struct Shared { int iter; int done; char msg[4000]; };

inline int run_main(int argc, char** argv) {
  unsigned long seed = getenv("VERIF_SEED") ? strtoul(getenv("VERIF_SEED"), 0, 10) : 1;
  double scale = getenv("H_SCALE") ? atof(getenv("H_SCALE")) : 1.;
  int limit = getenv("H_TIMEOUT") ? atoi(getenv("H_TIMEOUT")) : 60;
  std::string only; int only_it = -1;
  if (argc > 1) only = argv[1];
  if (argc > 2) only_it = atoi(argv[2]);
  struct P { pid_t pid; size_t c; Shared* sh; time_t t0; };
  std::vector<P> run; size_t nx = 0; int bad = 0;
  std::vector<Case>& cs = cases();
  while (nx < cs.size() || !run.empty()) {
    while (nx < cs.size() && run.size() < 8) {
      if (!only.empty() && cs[nx].name != only) { ++nx; continue; }
      Shared* sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      fflush(stdout);
      pid_t pid = fork();
      if (pid == 0) {
        FILE* f1 = freopen("/dev/null", "w", stdout); FILE* f2 = freopen("/dev/null", "w", stderr); (void)f1; (void)f2;
        struct rlimit rl; rl.rlim_cur = rl.rlim_max = 6UL << 30; setrlimit(RLIMIT_AS, &rl);
        rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
        Case& c = cs[nx];
        int n = (int)(c.iters * scale + 0.5); if (n < 1) n = 1;
        size_t hs = std::hash<std::string>()(c.name);
        for (int k = (only_it >= 0 ? only_it : 0); k < (only_it >= 0 ? only_it + 1 : n); ++k) {
          sh->iter = k;
          Rng R; R.g.seed(seed * 1000003UL + 7919UL * k + hs);
          try { c.f(R, k); }
          catch (const std::exception& e) { snprintf(sh->msg, sizeof sh->msg, "%s", e.what()); _exit(3); }
          catch (...) { snprintf(sh->msg, sizeof sh->msg, "unknown exception"); _exit(3); }
          sh->done = k + 1;
        }
        _exit(0);
      }
      run.push_back(P{pid, nx, sh, time(0)}); ++nx;
    }
    for (size_t k = 0; k < run.size();) {
      int st = 0; pid_t r = waitpid(run[k].pid, &st, WNOHANG);
      if (r == 0 && time(0) - run[k].t0 > limit) {
        kill(run[k].pid, SIGKILL); waitpid(run[k].pid, &st, 0);
        // out of time with every finished iteration clean: fewer cases, unless the very first one never ends
        if (run[k].sh->done > 0) printf("CASE %s iters=%d cut\n", cs[run[k].c].name.c_str(), run[k].sh->done);
        else { printf("FAIL %s iter=%d seed=%lu no answer after %d s\n", cs[run[k].c].name.c_str(), run[k].sh->iter, seed, limit); ++bad; }
        run.erase(run.begin() + k); continue;
      }
      if (r == run[k].pid) {
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) printf("CASE %s iters=%d\n", cs[run[k].c].name.c_str(), run[k].sh->done);
        else {
          ++bad;
          std::string m = run[k].sh->msg;
          for (size_t q = 0; q < m.size(); ++q) if (m[q] == '\n') m[q] = ' ';
          if (!WIFEXITED(st)) { std::ostringstream o; o << "killed by signal " << WTERMSIG(st) << " (assertion, memory error) "; m = o.str() + m; }
          printf("FAIL %s iter=%d seed=%lu %s\n", cs[run[k].c].name.c_str(), run[k].sh->iter, seed, m.c_str());
        }
        run.erase(run.begin() + k); continue;
      }
      ++k;
    }
    usleep(2000);
  }
  fflush(stdout);
  return bad ? 1 : 0;
}
}  // namespace H
using H::near; using H::expect; using H::throws; using H::nothrow; using H::V; using H::M;
int main(int argc, char** argv) { return H::run_main(argc, argv); }
