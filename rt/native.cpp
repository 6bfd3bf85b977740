// Native runtime: replays inputs through the real code (compiled by g++ with sanitizers).
// usage: prog FILE   where FILE has one record per line: "name=value name=value ..."; each record runs in its own process.
// With "-1 FILE" the first record runs in this process (replay of a violation).
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <string>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>
static std::vector<std::pair<std::string, std::string>> inputs;
static size_t pos = 0;
static int64_t live = 0;
static bool counting = false, verbose = false;
static FILE* out = stdout;

void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (counting) live++; return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p && counting) live--; free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { void* p = malloc(n ? n : 1); if (p && counting) live++; return p; }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return operator new(n, std::nothrow); }
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void* operator new(size_t n, std::align_val_t a) { size_t al = (size_t)a; void* p = aligned_alloc(al, (n + al - 1) / al * al + (n == 0) * al); if (!p) throw std::bad_alloc(); if (counting) live++; return p; }
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p, std::align_val_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { operator delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { operator delete(p); }

static std::string next(const char* name) {
  if (pos >= inputs.size()) { fprintf(stderr, "REPLAY-MISMATCH: no input left for %s\n", name); _exit(5); }
  auto& i = inputs[pos++];
  std::string base = i.first.substr(0, i.first.rfind('#'));
  std::string want = name;
  for (auto& c : want) if (c == ' ' || c == '=') c = '_';
  if (base != want) { fprintf(stderr, "REPLAY-MISMATCH: wanted %s, have %s\n", name, i.first.c_str()); _exit(5); }
  return i.second;
}
extern "C" {
uint64_t sym_u64(const char* name, uint64_t lo, uint64_t hi) {
  bool c = counting; counting = false;
  uint64_t v = strtoull(next(name).c_str(), nullptr, 10);
  if (verbose) fprintf(stderr, "input %s = %llu\n", name, (unsigned long long)v);
  counting = c;
  if (v < lo || v > hi) { fprintf(stderr, "REPLAY-MISMATCH: range of %s\n", name); _exit(5); }
  return v;
}
int64_t sym_i64(const char* name, int64_t lo, int64_t hi) {
  bool c = counting; counting = false;
  int64_t v = strtoll(next(name).c_str(), nullptr, 10);
  if (verbose) fprintf(stderr, "input %s = %lld\n", name, (long long)v);
  counting = c;
  if (v < lo || v > hi) { fprintf(stderr, "REPLAY-MISMATCH: range of %s\n", name); _exit(5); }
  return v;
}
void sym_assume(int c) { if (!c) { fprintf(stderr, "REPLAY-MISMATCH: assumption\n"); _exit(5); } }
void sym_assert(int c, const char* label) {
  if (!c) { fprintf(stderr, "PROPERTY-VIOLATED: %s\n", label); fflush(out); _exit(7); }
}
uint64_t sym_pick(uint64_t v) { return v; }
void sym_observe(const char* name, uint64_t v) { bool c = counting; counting = false; fprintf(out, "%s=%llu ", name, (unsigned long long)v); counting = c; }
void sym_cover(const char*) {}
int64_t sym_live() { return live; }
int sym_engine() { return 0; }
void sym_trace(const char* n, uint64_t v) { fprintf(stderr, "trace %s = %lld\n", n, (long long)v); }
}
static void parse(char* line) {
  inputs.clear();
  pos = 0;
  for (char* t = strtok(line, " \n"); t; t = strtok(nullptr, " \n")) {
    char* e = strchr(t, '=');
    if (!e) continue;
    inputs.emplace_back(std::string(t, e), std::string(e + 1));
  }
}
int main(int argc, char** argv) {
  bool one = argc > 2 && !strcmp(argv[1], "-1");
  FILE* f = fopen(argv[argc - 1], "r");
  out = fdopen(dup(1), "w"); // what the code under check prints goes to stderr
  dup2(2, 1);
  if (!f) { perror("input"); return 4; }
  char* line = nullptr;
  size_t cap = 0;
  if (one) {
    verbose = true;
    if (getline(&line, &cap, f) < 0) return 4;
    parse(line);
    counting = true;
    harness_main();
    counting = false;
    fprintf(out, "\nREPLAY-OK\n");
    return 0;
  }
  while (getline(&line, &cap, f) > 0) {
    fflush(out);
    pid_t p = fork();
    if (p == 0) {
      parse(line);
      alarm(30);
      counting = true;
      harness_main();
      counting = false;
      fflush(out);
      _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    fflush(out);
    if (WIFEXITED(st)) fprintf(out, " rc=%d\n", WEXITSTATUS(st));
    else fprintf(out, " rc=-%d\n", WTERMSIG(st));
    fflush(out);
  }
  return 0;
}
