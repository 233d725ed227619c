// Drives the tables and queues of nvc from a script of operations: one line of result for each.
#include "util.h"
#include "array.h"
#include "hash.h"
#include "ident.h"
#include "mask.h"
#include "option.h"
#include "rt/heap.h"
#include "rt/mspace.h"
#include "thread.h"

#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>

// Keys are pointers made from small numbers, spread over the address space
static void *mkkey(long k) { return (void *)(uintptr_t)((k + 1) * 64); }
static long unkey(const void *p) { return (long)((uintptr_t)p / 64) - 1; }
static void *mkval(long v) { return (void *)(uintptr_t)(v * 16); }
static long unval(const void *p) { return (long)((uintptr_t)p / 16); }

static uint32_t gh(const void *k) { return unkey(k) % 3; }     // many collisions
static bool gc_(const void *a, const void *b) { return unkey(a) / 2 == unkey(b) / 2; }   // keys 2n and 2n+1 are equal
static uint32_t gh2(const void *k) { return unkey(k) / 2 % 5; }

static hash_t *H; static shash_t *S; static ihash_t *I; static hset_t *T; static ghash_t *G; static chash_t *C;
static heap_t *Q; static bit_mask_t M[2]; static A(long) AR;

static ident_t *seen; static int nseen;
static int handle(ident_t i)
{
   if (i == NULL) return -1;
   for (int n = 0; n < nseen; n++) if (seen[n] == i) return n;
   seen = realloc(seen, (nseen + 1) * sizeof(ident_t));
   seen[nseen] = i;
   return nseen++;
}
static void show(ident_t i)
{
   if (i == NULL) { printf("-1"); return; }
   printf("%d %zu", handle(i), ident_len(i));
   for (int n = 0; n < ident_len(i); n++) printf(" %d", (unsigned char)ident_char(i, n));
   if (strlen(istr(i)) != ident_len(i)) printf(" badstr");
}

static void citer(const void *k, void *v) { printf(" %ld %ld", unkey(k), unval(v)); }
static void hwalk(uint64_t k, void *u, void *ctx) { printf(" %lu %ld", (unsigned long)k, unval(u)); }
static bool hdel(uint64_t k, void *u, void *ctx) { return unval(u) == *(long *)ctx; }

// concurrent histories
typedef struct { int op; long key, val, cmp, res; uint64_t t0, t1; } cop_t;
typedef struct { cop_t *ops; int n; int id; } cthr_t;
static uint64_t clk; static int go_;
static ident_t *idres[16];
static void run_thread(cthr_t *t)
{
   atomic_add(&go_, -1);
   while (atomic_load(&go_) > 0) spin_wait();
   for (int i = 0; i < t->n; i++) {
      cop_t *o = &t->ops[i];
      o->t0 = atomic_add(&clk, 1);
      switch (o->op) {
      case 0: chash_put(C, mkkey(o->key), mkval(o->val)); o->res = 0; break;
      case 1: o->res = unval(chash_get(C, mkkey(o->key))); break;
      case 2: o->res = unval(chash_cas(C, mkkey(o->key), mkval(o->cmp), mkval(o->val))); break;
      case 3: { char b[32]; snprintf(b, sizeof b, "c%ld", o->key); o->res = (long)ident_new(b); } break;
      }
      o->t1 = atomic_add(&clk, 1);
   }
}
static void *thread_fn(void *arg) { run_thread(arg); return NULL; }

// Single writer keys in a growing table; the last operations on one of the keys are reported
typedef struct { int id, iters; struct { int op; long val, res; } ring[16]; int n; bool odd; } stress_t;
static void *stress_fn(void *arg)
{
   stress_t *t = arg;
   atomic_add(&go_, -1);
   while (atomic_load(&go_) > 0) spin_wait();
   for (int i = 1; i <= t->iters && !t->odd; i++) {
      for (int j = 0; j < 2; j++) {
         int k = t->n++ % 16;
         t->ring[k].op = j; t->ring[k].val = i;
         if (j == 0) chash_put(C, mkkey(t->id), mkval(i)), t->ring[k].res = 0;
         else { t->ring[k].res = unval(chash_get(C, mkkey(t->id))); t->odd = t->ring[k].res != i; }
      }
      if (i % 8 == 0) chash_put(C, mkkey(100 + t->id * t->iters + i), mkval(1));
   }
   return NULL;
}

// the managed heap: objects are kept hidden from the collector
#define HIDE(p) ((uintptr_t)(p) ^ UINT64_C(0xa5a5a5a5a5a5a5a5))
static mspace_t *MS; static uintptr_t obj[4096]; static size_t osz[4096]; static mptr_t root[64]; static tlab_t *TL;
static uintptr_t msbase; static bool oom;
static void on_oom(mspace_t *m, size_t s) { oom = true; }
__attribute__((noinline)) static void clobber(void) { volatile char b[4096]; memset((void *)b, 0, sizeof b); }
__attribute__((noinline)) static long ms_alloc(int id, size_t size, bool tl)
{
   oom = false;
   char *p = tl ? tlab_alloc(TL, size) : mspace_alloc(MS, size);
   if (p == NULL) return oom ? -2 : -1;
   memset(p, 0, size);
   obj[id] = HIDE(p); osz[id] = size;
   if (tl) { size_t sz; if (mspace_find(MS, p, &sz) == NULL) return -3; }
   return (long)((uintptr_t)p - msbase);
}
__attribute__((noinline)) static void ms_fill(int id, int nlinks, int seed)
{
   unsigned char *p = (unsigned char *)HIDE(obj[id]);
   for (size_t i = nlinks * 8; i < osz[id]; i++) p[i] = (unsigned char)(1 + (i * 7 + seed) % 50);
}
__attribute__((noinline)) static int ms_check(int id, int nlinks, int seed)
{
   unsigned char *p = (unsigned char *)HIDE(obj[id]);
   for (size_t i = nlinks * 8; i < osz[id]; i++) if (p[i] != (unsigned char)(1 + (i * 7 + seed) % 50)) return 0;
   return 1;
}
__attribute__((noinline)) static void ms_link(int a, int slot, int b, int off)
{
   ((uintptr_t *)HIDE(obj[a]))[slot] = b < 0 ? 0 : HIDE(obj[b]) + off;
}
__attribute__((noinline)) static void ms_root(int k, int a, int off) { *mptr_get(root[k]) = a < 0 ? NULL : (char *)HIDE(obj[a]) + off; }
__attribute__((noinline)) static void ms_find(int a, int off)
{
   size_t size; char *p = mspace_find(MS, (char *)HIDE(obj[a]) + off, &size);
   printf("%ld %zu", p ? (long)((char *)HIDE(obj[a]) - p) : -1, size);
}
__attribute__((noinline)) static void ms_churn(int n, size_t size)
{
   int bad = 0;
   for (int i = 0; i < n; i++) { oom = false; char *p = mspace_alloc(MS, size); if (p == NULL) bad++; else memset(p, 0, size); }
   printf("%d", bad);
}

static char line[1 << 20];
static long arg[4096]; static int nargs;

static char *str_arg(char *buf)   // remaining arguments are character codes
{
   return buf;
}

__attribute__((noinline)) static void run(void)
{
   while (fgets(line, sizeof line, stdin)) {
      char *cmd = strtok(line, " \n");
      nargs = 0;
      for (char *t; (t = strtok(NULL, " \n")) && nargs < 4096; ) arg[nargs++] = strtol(t, NULL, 0);
      const long a = arg[0], b = arg[1], c = arg[2];
      char s1[1100], s2[1100]; int n1 = 0, n2 = 0;
#define STR(from) do { n1 = arg[from]; for (int i = 0; i < n1; i++) s1[i] = arg[(from) + 1 + i]; s1[n1] = 0; } while (0)
#define STR2(from) do { n2 = arg[from]; for (int i = 0; i < n2; i++) s2[i] = arg[(from) + 1 + i]; s2[n2] = 0; } while (0)
#define IS(x) (strcmp(cmd, x) == 0)
      if (cmd == NULL) continue;
      // maps of pointers
      else if (IS("hash_new")) { hash_free(H); H = hash_new(a); }
      else if (IS("hash_put")) printf("%d", hash_put(H, mkkey(a), mkval(b)));
      else if (IS("hash_get")) printf("%ld", unval(hash_get(H, mkkey(a))));
      else if (IS("hash_delete")) hash_delete(H, mkkey(a));
      else if (IS("hash_iter")) { const void *k; void *v; for (hash_iter_t it = HASH_BEGIN; hash_iter(H, &it, &k, &v); ) printf(" %ld %ld", unkey(k), unval(v)); }
      // strings
      else if (IS("shash_new")) { shash_free(S); S = shash_new(a); }
      else if (IS("shash_put")) { snprintf(s1, sizeof s1, "k%ld", a); shash_put(S, s1, mkval(b)); }
      else if (IS("shash_get")) { snprintf(s1, sizeof s1, "k%ld", a); printf("%ld", unval(shash_get(S, s1))); }
      else if (IS("shash_delete")) { snprintf(s1, sizeof s1, "k%ld", a); shash_delete(S, s1); }
      else if (IS("shash_iter")) { const char *k; void *v; for (hash_iter_t it = HASH_BEGIN; shash_iter(S, &it, &k, &v); ) printf(" %s %ld", k + 1, unval(v)); }
      // integers
      else if (IS("ihash_new")) { ihash_free(I); I = ihash_new(a); }
      else if (IS("ihash_put")) ihash_put(I, (uint64_t)a, mkval(b));
      else if (IS("ihash_get")) printf("%ld", unval(ihash_get(I, (uint64_t)a)));
      // sets
      else if (IS("hset_new")) { hset_free(T); T = hset_new(a); }
      else if (IS("hset_put")) hset_insert(T, mkkey(a));
      else if (IS("hset_get")) printf("%d", hset_contains(T, mkkey(a)));
      // user supplied hash and equality
      else if (IS("ghash_new")) { ghash_free(G); G = ghash_new(a, b ? gh2 : gh, b ? gc_ : (ghash_cmp_fn_t)NULL); if (!b) { ghash_free(G); G = ghash_new(a, gh2, gc_); } }
      else if (IS("ghash_put")) ghash_put(G, mkkey(a), mkval(b));
      else if (IS("ghash_get")) printf("%ld", unval(ghash_get(G, mkkey(a))));
      else if (IS("ghash_delete")) ghash_delete(G, mkkey(a));
      // concurrent map
      else if (IS("chash_new")) { chash_free(C); C = chash_new(a); }
      else if (IS("chash_put")) chash_put(C, mkkey(a), mkval(b));
      else if (IS("chash_get")) printf("%ld", unval(chash_get(C, mkkey(a))));
      else if (IS("chash_cas")) printf("%ld", unval(chash_cas(C, mkkey(a), mkval(b), mkval(c))));
      else if (IS("chash_iter")) chash_iter(C, citer);
      else if (IS("conc")) {     // conc NTHREADS { NOPS { op key val cmp } }
         cthr_t t[16]; int p = 1;
         for (int i = 0; i < a; i++) {
            t[i].n = arg[p++]; t[i].id = i; t[i].ops = calloc(t[i].n, sizeof(cop_t));
            for (int j = 0; j < t[i].n; j++) { t[i].ops[j].op = arg[p++]; t[i].ops[j].key = arg[p++]; t[i].ops[j].val = arg[p++]; t[i].ops[j].cmp = arg[p++]; }
         }
         clk = 0; go_ = a;
         nvc_thread_t *th[16];
         for (int i = 1; i < a; i++) th[i] = thread_create(thread_fn, &t[i], "t%d", i);
         run_thread(&t[0]);
         for (int i = 1; i < a; i++) thread_join(th[i]);
         for (int i = 0; i < a; i++)
            for (int j = 0; j < t[i].n; j++) {
               cop_t *o = &t[i].ops[j];
               if (o->op == 3) o->res = handle((ident_t)o->res);
               printf(" %ld %lu %lu", o->res, (unsigned long)o->t0, (unsigned long)o->t1);
            }
      }
      else if (IS("stress")) {     // threads iterations rounds
         stress_t t[16];
         for (int q = 0, found = 0; q < c && !found; q++) {
            chash_free(C); C = chash_new(32); go_ = a;
            nvc_thread_t *th[16];
            for (int i = 0; i < a; i++) { memset(&t[i], 0, sizeof(stress_t)); t[i].id = i; t[i].iters = b; }
            for (int i = 1; i < a; i++) th[i] = thread_create(stress_fn, &t[i], "s%d", i);
            stress_fn(&t[0]);
            for (int i = 1; i < a; i++) thread_join(th[i]);
            for (int i = 0; i < a && !found; i++)
               if (t[i].odd || (q + 1 == c && i + 1 == a)) {
                  found = 1;
                  for (int k = t[i].n > 16 ? t[i].n - 16 : 0; k < t[i].n; k++)
                     printf(" %d %ld %ld", t[i].ring[k % 16].op, t[i].ring[k % 16].val, t[i].ring[k % 16].res);
               }
         }
      }
      // priority queue
      else if (IS("heap_new")) { if (Q) heap_free(Q); Q = heap_new(a); }
      else if (IS("heap_insert")) heap_insert(Q, (uint64_t)a, mkval(b));
      else if (IS("heap_min")) printf("%lu %ld", (unsigned long)heap_min_key(Q), unval(heap_min(Q)));
      else if (IS("heap_extract")) { unsigned long k = heap_min_key(Q); printf("%lu %ld", k, unval(heap_extract_min(Q))); }
      else if (IS("heap_size")) printf("%zu", heap_size(Q));
      else if (IS("heap_walk")) heap_walk(Q, hwalk, NULL);
      else if (IS("heap_delete")) { long v = a; printf("%d", heap_delete(Q, hdel, &v)); }
      // bit masks
      else if (IS("mask_new")) { mask_free(&M[0]); mask_free(&M[1]); mask_init(&M[0], a); mask_init(&M[1], a); }
      else if (IS("mask_set")) mask_set(&M[a], b);
      else if (IS("mask_clear")) mask_clear(&M[a], b);
      else if (IS("mask_test")) printf("%d", mask_test(&M[a], b));
      else if (IS("mask_tas")) printf("%d", mask_test_and_set(&M[a], b));
      else if (IS("mask_setr")) mask_set_range(&M[a], b, c);
      else if (IS("mask_clearr")) mask_clear_range(&M[a], b, c);
      else if (IS("mask_testr")) printf("%d", mask_test_range(&M[a], b, c));
      else if (IS("mask_setall")) mask_setall(&M[a]);
      else if (IS("mask_clearall")) mask_clearall(&M[a]);
      else if (IS("mask_pop")) printf("%zu", mask_popcount(&M[a]));
      else if (IS("mask_back")) printf("%zd", mask_scan_backwards(&M[a], b));
      else if (IS("mask_count")) printf("%zu", mask_count_clear(&M[a], b));
      else if (IS("mask_sub")) mask_subtract(&M[a], &M[1 - a]);
      else if (IS("mask_union")) mask_union(&M[a], &M[1 - a]);
      else if (IS("mask_inter")) mask_intersect(&M[a], &M[1 - a]);
      else if (IS("mask_copy")) mask_copy(&M[a], &M[1 - a]);
      else if (IS("mask_eq")) printf("%d", mask_eq(&M[0], &M[1]));
      else if (IS("mask_iter")) { size_t bit = -1; while (mask_iter(&M[a], &bit)) printf(" %zu", bit); }
      // growable arrays
      else if (IS("arr_new")) ACLEAR(AR);
      else if (IS("arr_push")) APUSH(AR, a);
      else if (IS("arr_pop")) printf("%ld", APOP(AR));
      else if (IS("arr_get")) printf("%ld", AGET(AR, a));
      else if (IS("arr_trim")) ATRIM(AR, a);
      else if (IS("arr_resize")) { unsigned old = AR.count; ARESIZE(AR, a); for (unsigned i = old; i < AR.count; i++) AR.items[i] = b; }
      else if (IS("arr_all")) for (unsigned i = 0; i < AR.count; i++) printf(" %ld", AR.items[i]);
      // interned names; strings are a length and character codes
      else if (IS("id_reset")) nseen = 0;
      else if (IS("id_new")) { STR(0); show(ident_new(s1)); }
      else if (IS("id_new_n")) { STR(1); show(ident_new_n(s1, a)); }
      else if (IS("id_sprintf")) { STR(0); show(ident_sprintf("%s", s1)); }
      else if (IS("id_uniq")) { STR(0); show(ident_uniq("%s", s1)); }
      else if (IS("id_prefix")) { STR(1); STR2(2 + n1); show(ident_prefix(ident_new(s1), ident_new(s2), a)); }
      else if (IS("id_until")) { STR(1); show(ident_until(ident_new(s1), a)); }
      else if (IS("id_runtil")) { STR(1); show(ident_runtil(ident_new(s1), a)); }
      else if (IS("id_from")) { STR(1); show(ident_from(ident_new(s1), a)); }
      else if (IS("id_rfrom")) { STR(1); show(ident_rfrom(ident_new(s1), a)); }
      else if (IS("id_pos")) { STR(1); printf("%d", ident_pos(ident_new(s1), a)); }
      else if (IS("id_down")) { STR(0); show(ident_downcase(ident_new(s1))); }
      else if (IS("id_starts")) { STR(0); STR2(1 + n1); printf("%d", ident_starts_with(ident_new(s1), ident_new(s2))); }
      else if (IS("id_glob")) { STR(0); STR2(1 + n1); printf("%d", ident_glob(ident_new(s1), s2, n2)); }
      else if (IS("id_cmp")) { STR(0); STR2(1 + n1); int x = ident_compare(ident_new(s1), ident_new(s2)); printf("%d %d", (x > 0) - (x < 0), icmp(ident_new(s1), s2)); }
      else if (IS("id_casecmp")) { STR(0); STR2(1 + n1); ident_t x = ident_new(s1), y = ident_new(s2); bool e = ident_casecmp(x, y); printf("%d %d", e, !e || ident_casehash(x) == ident_casehash(y)); }
      else if (IS("id_dist")) { STR(0); STR2(1 + n1); printf("%d", ident_distance(ident_new(s1), ident_new(s2))); }
      else if (IS("id_walk")) { STR(0); ident_t i = ident_new(s1); printf("0"); while (i) { ident_t x = ident_walk_selected(&i); printf(" "); show(x); } }
      else if (IS("id_many")) for (long i = 0; i < b; i++) { snprintf(s1, sizeof s1, "m%ld_%ld", a, i); ident_t x = ident_new(s1); if (strcmp(istr(x), s1)) printf("bad "); }
      // the managed heap
      else if (IS("ms_new")) {
         if (MS) { tlab_release(TL); for (int i = 0; i < 8; i++) mptr_free(MS, &root[i]); mspace_destroy(MS); }
         MS = mspace_new(a); mspace_set_oom_handler(MS, on_oom); TL = tlab_acquire(MS);
         for (int i = 0; i < 8; i++) root[i] = mptr_new(MS, "r");
         char *p = mspace_alloc(MS, 1); msbase = (uintptr_t)p;      // the first object is at the start
      }
      else if (IS("ms_alloc")) { clobber(); printf("%ld", ms_alloc(a, b, false)); clobber(); }
      else if (IS("ms_fill")) { ms_fill(a, b, c); clobber(); }
      else if (IS("ms_check")) { printf("%d", ms_check(a, b, c)); clobber(); }
      else if (IS("ms_link")) { ms_link(a, b, c, arg[3]); clobber(); }
      else if (IS("ms_root")) { ms_root(a, b, c); clobber(); }
      else if (IS("ms_find")) { ms_find(a, b); clobber(); }
      else if (IS("ms_churn")) { ms_churn(a, b); clobber(); }
      else { printf("unknown command %s\n", cmd); exit(3); }
      printf("\n");
      fflush(stdout);
   }
}

int main(int argc, char **argv)
{
   term_init();
   thread_init();
   set_default_options();
   mspace_stack_limit(MSPACE_CURRENT_FRAME);
   run();
   return 0;
}
