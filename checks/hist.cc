// Rounding modes over histories and threads; results as a function of the call alone
#define FW_MAIN
#include "../h/calls.hpp"
#include <cfenv>
#include <cerrno>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <malloc.h>
#include <sys/wait.h>
using namespace fw;

// ---- a process in which no libdfp function has run yet, forked for each list of calls
static int z_in = -1, z_out = -1;
static void full_write(int fd, const void *p, size_t n) { const char *q = (const char *) p; while (n) { ssize_t k = write(fd, q, n); if (k <= 0) _exit(1); q += k; n -= (size_t) k; } }
static bool full_read(int fd, void *p, size_t n) { char *q = (char *) p; while (n) { ssize_t k = read(fd, q, n); if (k <= 0) return false; q += k; n -= (size_t) k; } return true; }
static pid_t z_owner = 0;
static void zygote() {
  if (z_owner == getpid()) return;
  z_owner = getpid(); int a[2], b[2]; if (pipe(a) || pipe(b)) abort();
  if (fork() == 0) { close(a[1]); close(b[0]); signal(SIGCHLD, SIG_DFL);
    for (;;) { uint32_t n; if (!full_read(a[0], &n, sizeof n)) _exit(0); std::vector<Call> cs(n); if (!full_read(a[0], cs.data(), n * sizeof(Call))) _exit(0);
      pid_t p = fork(); if (p == 0) { std::vector<Res> rs(n); for (uint32_t k = 0; k < n; k++) run(cs[k], rs[k]); uint32_t ok = 1; full_write(b[1], &ok, sizeof ok); full_write(b[1], rs.data(), n * sizeof(Res)); _exit(0); }
      int st; waitpid(p, &st, 0); if (st) { uint32_t ok = 0; full_write(b[1], &ok, sizeof ok); } } }
  close(a[0]); close(b[1]); z_in = a[1]; z_out = b[0]; }
static bool pristine(const std::vector<Call> &cs, std::vector<Res> &rs) { uint32_t n = (uint32_t) cs.size(), ok = 0; rs.resize(n); full_write(z_in, &n, sizeof n); full_write(z_in, cs.data(), n * sizeof(Call)); return full_read(z_out, &ok, sizeof ok) && ok && full_read(z_out, rs.data(), n * sizeof(Res)); }

static V check_history(const Case &c, Out &o) {
  size_t n = ncalls(c); if (!n) return SKIP; zygote(); std::vector<Call> cs; for (size_t k = 0; k < n; k++) cs.push_back(get_call(c, k));
  std::vector<Res> one(n), back(n), fresh;
  for (size_t k = 0; k < n; k++) run(cs[k], one[k]);
  // again, in the opposite order, with exceptions raised and an errno left by something else
  static const int stale[4] = {77, ERANGE, EDOM, EINVAL}; static const int exc[4] = {0, FE_ALL_EXCEPT, FE_INEXACT, FE_OVERFLOW | FE_INVALID};
  for (size_t k = n; k--;) { int e = stale[(cs[k].a[0] + cs[k].rm + k) % 4]; shim_set_errno(e); shim_set_preset(exc[(cs[k].a[1] + k) % 4]); run(cs[k], back[k]); if (!back[k].err && one[k].err == e) back[k].err = e; }
  shim_set_errno(77); shim_set_preset(0);
  for (size_t k = 0; k < n; k++) if (!same(one[k], back[k])) { o.msg = "call repeated after other calls: " + diff(cs[k], back[k], one[k]); return FAIL; }
  std::vector<Call> rev(cs.rbegin(), cs.rend()); if (!pristine(rev, fresh)) { o.msg = "calls die in a fresh process"; return FAIL; }
  for (size_t k = 0; k < n; k++) if (!same(one[k], fresh[n - 1 - k])) { o.msg = "call in a fresh process, other order: " + diff(cs[k], fresh[n - 1 - k], one[k]); return FAIL; }
  o.label = std::to_string(n) + " calls"; return n > 1 ? OK : TRIVIAL; }
struct TArg { const std::vector<Call> *cs; std::vector<Res> rs; size_t rot; int reps; pthread_barrier_t *bar; };
static void *tmain(void *v) { TArg *t = (TArg *) v; size_t n = t->cs->size(); t->rs.resize(n); pthread_barrier_wait(t->bar); std::vector<Res> first; for (int r = 0; r < t->reps; r++) for (size_t k = 0; k < n; k++) { size_t j = (k + t->rot) % n; Res x; run((*t->cs)[j], x); if (r == 0 || same(x, t->rs[j])) t->rs[j] = x; else { t->rs[j] = x; return nullptr; } } return nullptr; }
// the stack below and fresh heap blocks full of a byte, so that reading them uninitialised shows
static void __attribute__((noinline)) scribble(int v) { volatile char b[200000]; memset((void *) b, v, sizeof b); asm volatile("" : : "r"(b) : "memory"); }
static V check_garbage(const Case &c, Out &o) {
  Call k = get_call(c, 0); Res r[3]; static const int fill[3] = {0, 0xff, 0x5a};
  for (int j = 0; j < 3; j++) { mallopt(M_PERTURB, fill[j] ? fill[j] ^ 0xff : 0); scribble(fill[j]); run(k, r[j]); }
  mallopt(M_PERTURB, 0);
  for (int j = 1; j < 3; j++) if (!same(r[0], r[j])) { o.msg = "the result depends on left-over memory: " + diff(k, r[j], r[0]); return FAIL; }
  o.label = k.op >= 0 ? "function" : "string conversion"; return OK; }
static V check_threads(const Case &c, Out &o) {
  size_t n = ncalls(c); if (!n) return SKIP; std::vector<Call> cs; for (size_t k = 0; k < n; k++) cs.push_back(get_call(c, k));
  std::vector<Res> one(n); for (size_t k = 0; k < n; k++) run(cs[k], one[k]);
  const int T = 4; TArg a[T]; pthread_t th[T]; pthread_barrier_t bar; pthread_barrier_init(&bar, nullptr, T);
  for (int t = 0; t < T; t++) { a[t] = {&cs, {}, t * n / T, 3, &bar}; if (pthread_create(&th[t], nullptr, tmain, &a[t])) abort(); }
  for (int t = 0; t < T; t++) pthread_join(th[t], nullptr);
  pthread_barrier_destroy(&bar);
  for (int t = 0; t < T; t++) for (size_t k = 0; k < n; k++) if (!same(one[k], a[t].rs[k])) { o.msg = "call in one of four threads: " + diff(cs[k], a[t].rs[k], one[k]); return FAIL; }
  o.label = std::to_string(n) + " calls"; return n > 1 ? OK : TRIVIAL; }

// one function (or two) called again and again by four threads, each with its own arguments and rounding mode
struct HArg { Call c; Res want, got; pthread_barrier_t *bar; int64_t ns; bool bad; };
static int64_t now_ns() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000LL + t.tv_nsec; }
static void *hmain(void *v) { HArg *h = (HArg *) v; pthread_barrier_wait(h->bar); int64_t end = now_ns() + h->ns; do { run(h->c, h->got); if (!same(h->got, h->want) || h->got.rm != h->c.rm) { h->bad = true; return nullptr; } } while (now_ns() < end); return nullptr; }
static V hammer(const Case &c, Out &o, bool modes) {
  size_t n = ncalls(c); if (n < 2) return SKIP; const int T = 4; HArg h[T]; pthread_t th[T]; pthread_barrier_t bar;
  for (int t = 0; t < T; t++) { h[t].c = get_call(c, t % n); Res again; run(h[t].c, h[t].want); run(h[t].c, again); if (!same(again, h[t].want)) { o.msg = "repeated: " + diff(h[t].c, again, h[t].want); return FAIL; } h[t].bar = &bar; h[t].bad = false; h[t].ns = replaying ? 300000000 : 1500000; }
  pthread_barrier_init(&bar, nullptr, T);
  for (int t = 0; t < T; t++) if (pthread_create(&th[t], nullptr, hmain, &h[t])) abort();
  for (int t = 0; t < T; t++) pthread_join(th[t], nullptr);
  pthread_barrier_destroy(&bar);
  for (int t = 0; t < T; t++) if (h[t].bad) { if (h[t].got.rm != h[t].c.rm) o.msg = callname(h[t].c) + " in one of four threads calling it leaves the rounding mode of another (" + std::to_string(h[t].got.rm) + " instead of " + std::to_string(h[t].c.rm) + ")"; else o.msg = std::string("while other threads call it") + (modes ? " in other rounding modes: " : ": ") + diff(h[t].c, h[t].got, h[t].want); return FAIL; }
  o.label = h[0].c.op >= 0 ? "function" : "string conversion"; return OK; }
static V check_hammer(const Case &c, Out &o) { return hammer(c, o, true); }

// ---- rounding modes
static const int BRM[4] = {FE_TONEAREST, FE_TOWARDZERO, FE_UPWARD, FE_DOWNWARD};
static V check_preserve(const Case &c, Out &o) { // every call leaves both rounding modes alone; decimal results ignore the binary one
  Call k = get_call(c, 0); int bm = (int) ((c.n.size() > NF ? c.n[NF] % 4 + 4 : 0) % 4); Res a, b; fesetround(FE_TONEAREST); run(k, a); fesetround(BRM[bm]); run(k, b); int left = fegetround(); fesetround(FE_TONEAREST);
  o.label = k.op >= 0 ? "function" : "string conversion";
  if (a.rm != k.rm || b.rm != k.rm) { o.msg = callname(k) + " changed the decimal rounding mode from " + rm_name[k.rm] + " to " + std::to_string(a.rm); return FAIL; }
  if (a.brm != FE_TONEAREST || b.brm != BRM[bm] || left != BRM[bm]) { o.msg = callname(k) + " changed the binary rounding mode"; return FAIL; }
  if (!(k.op >= 0 && bin_op(shim_ops[k.op].sig)) && !same(a, b)) { o.msg = "the binary rounding mode matters: " + diff(k, b, a); return FAIL; }
  return bm ? OK : TRIVIAL; }
// steps on three threads, run one at a time: set the mode (also to invalid values), read it, or compute
struct Worker { pthread_t th; sem_t go, done; int act = 0, arg = 0, ret = 0; Call call; Res res; bool up = false; };
static void *wmain(void *v) { Worker *w = (Worker *) v; for (;;) { sem_wait(&w->go); switch (w->act) { case 0: w->ret = shim_setround(w->arg); break; case 1: w->ret = shim_getround(); break; case 2: w->call.rm = shim_getround(); run(w->call, w->res); shim_setround(w->call.rm); break; default: sem_post(&w->done); return nullptr; } sem_post(&w->done); } }
static void step(Worker &w, int act, int arg) { w.act = act; w.arg = arg; sem_post(&w.go); sem_wait(&w.done); }
static V check_isolated(const Case &c, Out &o) {
  size_t n = ncalls(c); if (!n) return SKIP; Worker w[3]; int mode[3] = {-1, -1, -1}, sets = 0; V v = OK;
  for (size_t k = 0; k < n && v == OK; k++) {
    Call cl = get_call(c, k); int t = (int) ((cl.i % 3 + 3) % 3); int act = (int) ((cl.i / 3 % 3 + 3) % 3), arg = (int) (cl.i / 9 % 24); if (arg < -6) arg += 7;
    if (!w[t].up) { sem_init(&w[t].go, 0, 0); sem_init(&w[t].done, 0, 0); if (pthread_create(&w[t].th, nullptr, wmain, &w[t])) abort(); w[t].up = true; step(w[t], 1, 0); mode[t] = w[t].ret; if (mode[t] < 0 || mode[t] > 4) { o.msg = "a new thread has rounding mode " + std::to_string(mode[t]); v = FAIL; break; } }
    w[t].call = cl;
    if (act == 0) { if (cl.rm && (arg < 0 || arg > 4)) arg = cl.rm; step(w[t], 0, arg); bool valid = arg >= 0 && arg <= 4; if (valid != (w[t].ret == 0)) { o.msg = "fe_dec_setround(" + std::to_string(arg) + ") returned " + std::to_string(w[t].ret); v = FAIL; break; } if (valid) { mode[t] = arg; sets++; } }
    else if (act == 2) { step(w[t], 2, 0); Call e = cl; e.rm = mode[t]; Res r; int keep = shim_getround(); run(e, r); shim_setround(keep); if (w[t].call.rm != mode[t]) { o.msg = "thread " + std::to_string(t) + " has rounding mode " + std::to_string(w[t].call.rm) + ", it set " + std::to_string(mode[t]); v = FAIL; break; } if (!same(r, w[t].res)) { o.msg = "in a thread: " + diff(e, w[t].res, r); v = FAIL; break; } }
    for (int u = 0; u < 3; u++) if (w[u].up) { step(w[u], 1, 0); if (w[u].ret != mode[u]) { o.msg = "thread " + std::to_string(u) + " reads rounding mode " + std::to_string(w[u].ret) + " after step " + std::to_string(k) + ", it set " + std::to_string(mode[u]); v = FAIL; break; } }
  }
  int ups = 0; for (auto &x : w) if (x.up) { ups++; step(x, 3, 0); pthread_join(x.th, nullptr); }
  o.label = std::to_string(ups) + " threads"; return v == FAIL ? FAIL : ups > 1 && sets ? OK : TRIVIAL; }
int main(int argc, char **argv) {
  Prop P; P.id = argc > 1 ? argv[1] : ""; init_pool(); signal(SIGPIPE, SIG_IGN);
  auto add = [&](const char *name, int lo, int hi, int wt, V (*f)(const Case &, Out &)) { Sub s; s.name = name; s.weight = wt; s.gen = [lo, hi](Rng &g, Case &c) { int n = g.range(lo, hi); for (int i = 0; i < n; i++) gen_call(g, c); if (hi == 1) c.n.push_back((i128) g.below(4)); }; s.check = f; s.show = show_calls; if (hi > 1) s.call_n = 3, s.call_d = 3; P.subs.push_back(s); };
  if (P.id == "mode") { add("modes_preserved", 1, 1, 24, check_preserve); add("modes_per_thread", 2, 24, 2, check_isolated); }
  if (P.id == "pure") { add("history_of_one_function", 2, 12, 6, check_history); P.subs.back().gen = [](Rng &g, Case &c) { gen_related(g, c, g.range(2, 12)); }; add("history", 2, 16, 2, check_history); add("leftovers", 1, 1, 8, check_garbage); add("concurrent", 4, 16, 1, check_threads); }
  { Sub s; s.name = "same_function_in_threads"; s.weight = P.id == "pure" ? 2 : 1; s.gen = [](Rng &g, Case &c) { for (int k = 0; k < 4; k++) { gen_call(g, c); if (k) { int fmt = get_call(c, 0).fmt; c.n[(size_t) k * NF] = c.n[0]; if (g.chance(1, 3)) for (int j = 0; j < 3; j++) c.d[(size_t) k * 3 + j] = c.d[j]; else { u128 x = gen_dec(g, fmt); c.d[(size_t) k * 3] = x; c.d[(size_t) k * 3 + 1] = gen_rel(g, fmt, x); c.d[(size_t) k * 3 + 2] = gen_rel(g, fmt, x); } } } if (g.chance(3, 4)) { int r = (int) g.below(5); for (int k = 0; k < 4; k++) c.n[(size_t) k * NF + 1] = (r + k) % 5; } }; s.check = check_hammer; s.show = show_calls; P.subs.push_back(s); }
  return run_main(P, argc - 1, argv + 1);
}
