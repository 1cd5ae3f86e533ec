// Native definitions of the harness interface: replays recorded inputs against the real build.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <map>
#include <string>
#include <vector>
#include <csignal>
#include <sys/wait.h>
#include <unistd.h>
#include "vp.h"
static std::map<std::string, std::uint64_t> inputs, params;
static std::map<std::string, int> counts;
static void finish(int rc, const char* word, const char* msg) { std::printf("%s %s\n", word, msg); std::fflush(stdout); std::_Exit(rc); }
extern "C" {
std::uint64_t vp_sym(const char* name, unsigned bits) {
  std::string full = std::string(name) + "#" + std::to_string(counts[name]++);
  auto it = inputs.find(full); std::uint64_t v = it == inputs.end() ? 0 : it->second;
  return bits >= 64 ? v : v & ((1ull << bits) - 1);
}
void vp_assume(bool c) { if (!c) finish(77, "ASSUME", "assumption not satisfied"); }
void vp_check(bool c, const char* m) { if (!c) finish(1, "FAILED", m); }
void vp_reach(const char*) {}
std::uint64_t vp_param(const char* n, std::uint64_t d) { auto it = params.find(n); return it == params.end() ? d : it->second; }
void vp_observe(const char* n, std::uint64_t v) { std::printf("OBS %s %llu\n", n, (unsigned long long)v); }
std::uint64_t vp_concretize(std::uint64_t v) { return v; }
bool vp_fork(bool c) { return c; }
bool vp_is_sym(std::uint64_t) { return false; }
std::uint64_t vp_decimal(const char* p, std::size_t n) { std::uint64_t a = 0; while (n--) a = a * 10 + (std::uint64_t)(*p++ - 48); return a; }
static std::vector<std::string> iso; static int isopipe = -1;
int vp_isolated_begin() {
  int p[2]; std::fflush(stdout); if (pipe(p)) finish(70, "ERROR", "pipe"); pid_t k = fork(); if (k < 0) finish(70, "ERROR", "fork");
  if (!k) { close(p[0]); isopipe = p[1]; return 1; }
  close(p[1]); std::string t; char b[4096]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) t.append(b, (std::size_t)n);
  close(p[0]); int st = 0; waitpid(k, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { if (WIFSIGNALED(st)) { std::fflush(stdout); signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); } std::_Exit(WEXITSTATUS(st)); }
  iso.push_back(t); return 0; }
void vp_isolated_end(const void* b, std::size_t n) { const char* p = (const char*)b; while (n) { ssize_t k = write(isopipe, p, n); if (k <= 0) std::_Exit(70); p += k; n -= (std::size_t)k; } std::_Exit(0); }
std::size_t vp_isolated_size(unsigned k) { return k < iso.size() ? iso[k].size() : 0; }
void vp_isolated_read(unsigned k, void* to) { if (k < iso.size()) std::memcpy(to, iso[k].data(), iso[k].size()); }
void vp_fail(const char* m) { finish(1, "FAILED", m); }
int vp_from_chars(const char** first, const char* last, unsigned long long* out, unsigned long long max, unsigned long long maxneg) {
  const char* p = *first; bool neg = maxneg && p != last && *p == '-'; if (neg) p++; const char* q = p; unsigned __int128 v = 0, lim = neg ? maxneg : max; bool over = false;
  for (; q != last && *q >= '0' && *q <= '9'; q++) { v = v * 10 + (unsigned)(*q - '0'); if (v > lim) { over = true; v = lim; } }
  if (q == p) return 1;
  *first = q; if (over) return 2; *out = neg ? 0ull - (unsigned long long)v : (unsigned long long)v; return 0; }
unsigned vp_udec(std::uint64_t v, char* out) { std::string t = std::to_string(v); std::memcpy(out, t.data(), t.size()); return (unsigned)t.size(); }
void vp_stop() { finish(0, "OK", "stopped"); }
void vp_print(const char* s) { std::printf("[vp] %s\n", s); }
void vp_printv(const char* s, std::uint64_t v) { std::printf("[vp] %s = %lld\n", s, (long long)v); }
void vp_main();
}
int main(int argc, char** argv) {  // usage: exe inputs-file [NAME=value ...]
  if (argc > 1) { std::ifstream f(argv[1]); std::string n; std::uint64_t v; while (f >> n >> v) inputs[n] = v; }
  for (int i = 2; i < argc; i++) { std::string q = argv[i]; auto e = q.find('='); params[q.substr(0, e)] = std::strtoull(q.c_str() + e + 1, nullptr, 0); }
  try { vp_main(); } catch (const std::exception& e) { std::printf("FAILED uncaught exception: %s\n", e.what()); std::fflush(stdout); std::_Exit(1); }
  finish(0, "OK", "completed");
}
