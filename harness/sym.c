// Native implementation of the symbolic-input interface: inputs come from a replay file.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
static uint64_t *vals; static char **names; static int nvals, pos;
static uint64_t params[64]; static int nparams;
static char harness[256];
const char *sym_init(const char *path) {
  FILE *f = fopen(path, "r");
  if (!f) { fprintf(stderr, "cannot open %s\n", path); exit(78); }
  char line[65536];
  while (fgets(line, sizeof line, f)) {
    if (line[0] == '#') continue;
    if (!strncmp(line, "harness ", 8)) { sscanf(line + 8, "%255s", harness); continue; }
    if (!strncmp(line, "params", 6)) {
      char *p = line + 6, *e;
      for (;;) { uint64_t v = strtoull(p, &e, 10); if (e == p) break; if (nparams < 64) params[nparams++] = v; p = e; }
      continue;
    }
    if (!strncmp(line, "in ", 3)) {
      int w; char hex[64], nm[1024] = "";
      sscanf(line + 3, "%d %63s %1023s", &w, hex, nm);
      vals = realloc(vals, (nvals + 1) * sizeof *vals); names = realloc(names, (nvals + 1) * sizeof *names);
      vals[nvals] = strtoull(hex, 0, 16); names[nvals++] = strdup(nm);
    }
  }
  fclose(f);
  return harness;
}
static uint64_t next(const char *n, uint64_t l) {
  if (pos >= nvals) { return 0; }
  if (getenv("SYM_TRACE")) fprintf(stderr, "in %s = %llx\n", names[pos], (unsigned long long)vals[pos]);
  return vals[pos++];
}
uint8_t sym_u8(const char *n, uint64_t l) { return (uint8_t)next(n, l); }
uint32_t sym_u32(const char *n, uint64_t l) { return (uint32_t)next(n, l); }
uint64_t sym_u64(const char *n, uint64_t l) { return next(n, l); }
uint32_t sym_bool(const char *n, uint64_t l) { return next(n, l) & 1; }
float sym_f32(const char *n, uint64_t l) { uint32_t b = (uint32_t)next(n, l); float f; memcpy(&f, &b, 4); return f; }
uint32_t sym_choice(const char *n, uint64_t l, uint32_t k) { uint32_t v = (uint32_t)next(n, l); return k ? v % k : 0; }
uint64_t sym_param(uint32_t i) { return i < (uint32_t)nparams ? params[i] : 0; }
void sym_assume(uint8_t c) { if (!c) { printf("ASSUME-FAIL\n"); fflush(stdout); exit(77); } }
void sym_assert(uint8_t c, const char *m, uint64_t l) { if (!c) { printf("ASSERT-FAIL %.*s\n", (int)l, m); fflush(stdout); exit(99); } }
void sym_reach(const char *m, uint64_t l) { printf("REACH %.*s\n", (int)l, m); fflush(stdout); }
void sym_allow_panic(const char *m, uint64_t l) { (void)m; (void)l; }
void sym_observe(const char *m, uint64_t l, uint64_t v) { printf("OBS %.*s %llx\n", (int)l, m, (unsigned long long)v); fflush(stdout); }
