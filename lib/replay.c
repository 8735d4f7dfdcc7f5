/* Native side of a replay: feeds the solver's values to the harness. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#undef fopen
#undef fclose
FILE *fopen(const char *, const char *);
int fclose(FILE *);
#if defined(__SANITIZE_ADDRESS__)
size_t __sanitizer_get_allocated_size(const volatile void *p);
#endif

struct ent {
  char name[64];
  long idx;
  uint64_t val;
};
static struct ent *ents;
static size_t n_ents;
static int loaded;

/* storage comes from a static arena so that the fault-injecting allocator of
 * some harnesses is not disturbed */
static struct ent arena[1 << 16];

static void load(void) {
  loaded = 1;
  ents = arena;
  const char *f = getenv("VERIF_VALUES");
  if (!f)
    return;
  FILE *fp = fopen(f, "r");
  if (!fp)
    return;
  char line[256];
  while (n_ents < (1 << 16) && fgets(line, sizeof line, fp)) {
    struct ent *e = &arena[n_ents];
    unsigned long long v;
    if (sscanf(line, "%63s %ld %llx", e->name, &e->idx, &v) == 3) {
      e->val = v;
      n_ents++;
    }
  }
  fclose(fp);
}

uint64_t verif_get(const char *name, long idx) {
  if (!loaded)
    load();
  for (size_t i = 0; i < n_ents; i++)
    if (ents[i].idx == idx && strcmp(ents[i].name, name) == 0)
      return ents[i].val;
  return 0;
}

void verif_fail(const char *what) {
  printf("REPLAY-VIOLATION %s\n", what);
  fflush(stdout);
  _Exit(42);
}
void verif_skip(const char *what) {
  printf("REPLAY-ASSUME-FALSE %s\n", what);
  fflush(stdout);
  _Exit(0);
}
void verif_end(void) {
  printf("REPLAY-END\n");
  fflush(stdout);
}
size_t verif_block_size(void *p) {
#if defined(__SANITIZE_ADDRESS__)
  return __sanitizer_get_allocated_size(p);
#else
  (void)p;
  return (size_t)-1;
#endif
}
