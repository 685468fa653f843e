// Native replay: dlopen the harness library, feed it the solver's values, report what happens.
// exit 0: ran to the end, 10: assertion failed, 11: panic/abort/crash, 12: assumption not met,
// 2: usage error
#define _GNU_SOURCE
#include <dlfcn.h>
#include <signal.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static unsigned char *in; static size_t nin, pos;
static int panic_ok;
struct uf { uint64_t tag; unsigned char *i, *o; size_t ni, no; struct uf *next; } *ufs;
static unsigned char *unhex(const char *s, size_t *n) {
  size_t l = strlen(s); while (l && (s[l-1]=='\n'||s[l-1]==' ')) l--;
  unsigned char *r = malloc(l / 2 + 1); *n = l / 2;
  for (size_t k = 0; k < l / 2; k++) { unsigned v; sscanf(s + 2 * k, "%2x", &v); r[k] = v; }
  return r;
}
void sym_bytes(unsigned char *p, size_t n) { for (size_t k = 0; k < n; k++) p[k] = pos < nin ? in[pos] : 0, pos++; }
void sym_assert(bool c, uint64_t id) { if (!c) { printf("ASSERT %lu FAILED\n", (unsigned long)id); fflush(stdout); _exit(10); } }
void sym_assume(bool c) { if (!c) { printf("ASSUMPTION NOT MET\n"); fflush(stdout); _exit(12); } }
void sym_cover(uint64_t id) { (void)id; }
void sym_expect(uint64_t id) { (void)id; }
void sym_panic_ok(uint64_t v) { panic_ok = v & 1; }
void sym_merge(uint64_t v) { (void)v; }
void sym_exact(uint64_t v) { (void)v; }
void sym_cap(uint64_t v) { (void)v; }
bool sym_decide(bool c) { return c; }
uint64_t sym_concretize(uint64_t x) { return x; }
uint64_t sym_choice(uint64_t x, uint64_t n) { return x < n ? x : n - 1; }
void sym_cut(unsigned char *p, size_t n) { (void)p; (void)n; }
void sym_observe(const unsigned char *p, size_t n) { printf("OBS "); for (size_t k = 0; k < n; k++) printf("%02x", p[k]); printf("\n"); }
void sym_uf(uint64_t tag, uint64_t inj, const unsigned char *i, size_t ni, unsigned char *o, size_t no) {
  (void)inj;
  for (struct uf *u = ufs; u; u = u->next)
    if (u->tag == tag && u->ni == ni && u->no == no && !memcmp(u->i, i, ni)) { memcpy(o, u->o, no); return; }
  uint64_t h = 0xcbf29ce484222325ull ^ (tag * 0x9E3779B97F4A7C15ull);
  for (size_t k = 0; k < ni; k++) { h = (h ^ i[k]) * 0x100000001b3ull; h ^= h >> 29; }
  size_t w = 0;
  while (w < no) {
    h += 0x9E3779B97F4A7C15ull; uint64_t z = h;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; z ^= z >> 31;
    for (int k = 0; k < 8 && w < no; k++) o[w++] = z >> (8 * k);
  }
}
static void on(int s) { if (panic_ok && s == SIGABRT) _exit(0); printf("SIGNAL %d\n", s); fflush(stdout); _exit(11); }
int main(int c, char **v) {
  if (c < 4) return 2;
  FILE *f = fopen(v[3], "r"); if (!f) return 2;
  char *line = NULL; size_t cap = 0; ssize_t n;
  while ((n = getline(&line, &cap, f)) > 0) {
    if (!strncmp(line, "in ", 3)) in = unhex(line + 3, &nin);
    else if (!strncmp(line, "uf ", 3)) {
      struct uf *u = calloc(1, sizeof *u); char *e; u->tag = strtoull(line + 3, &e, 10);
      char *a = strchr(e, 'x') + 1, *b = strchr(a, ' '); *b = 0; b += 2;
      u->i = unhex(a, &u->ni); u->o = unhex(b, &u->no); u->next = ufs; ufs = u;
    }
  }
  signal(SIGABRT, on); signal(SIGSEGV, on); signal(SIGBUS, on); signal(SIGILL, on); signal(SIGFPE, on);
  setenv("RUST_BACKTRACE", "0", 1);
  void *h = dlopen(v[1], RTLD_NOW | RTLD_LOCAL);
  if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
  void (*fn)(void) = (void (*)(void))dlsym(h, v[2]);
  if (!fn) { fprintf(stderr, "no %s\n", v[2]); return 2; }
  fn();
  printf("DONE\n"); fflush(stdout);
  _exit(0);
}
