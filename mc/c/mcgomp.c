// Deterministic OpenMP runtime: replaces libgomp.  The threads of a team are real threads, but exactly one of them runs at any time; the running
// thread changes only at scheduling points (entry of an instrumented function) chosen by the explorer, at barriers and locks, and when a thread ends.
#include <pthread.h>
#include <semaphore.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <limits.h>
#define NI __attribute__((no_instrument_function))
#define MAXT 64
#define MAXP 16
typedef struct { int n, alive, blocked[MAXT], done[MAXT], arrived, gen; sem_t go[MAXT]; void (*fn)(void *); void *data; long next[64], end[64], incr[64], chunk[64]; int single[64]; int ws_n; int icv; } team_t;
static team_t *T;                       // the active (single) team, NULL outside
static __thread int me, level, size = 1, wsid;
static __thread int icv = -1;
static int dflt = 1, perm[MAXT], npre, off[MAXP], steps, teams, order_set, lock_owner = -1, lock_depth, deadlock, foreign; static long point, at[MAXP]; static void **tr; static long trcap; static int *trt;
static long team_from[4096];

NI void mc_config(int threads, int n, const long *pts, const int *offs, const int *order, int norder)
{
    dflt = threads; npre = n < MAXP ? n : MAXP; for (int i = 0; i < npre; i++) { at[i] = pts[i]; off[i] = offs[i]; }
    for (int i = 0; i < MAXT; i++) perm[i] = i; for (int i = 0; i < norder && i < MAXT; i++) perm[i] = order[i];
    point = 0; steps = 0; teams = 0; deadlock = 0; lock_owner = -1; lock_depth = 0; icv = -1;
}
NI long mc_points(void) { return point; }
NI int mc_steps(void) { return steps; }
NI int mc_teams(void) { return teams; }
NI int mc_deadlock(void) { return deadlock; }

static NI int next_runnable(team_t *t, int from, int skip)
{   // next thread after `from` in the order perm that can run, skipping `skip` candidates
    int p = 0; for (int i = 0; i < t->n; i++) if (perm[i] == from) p = i;
    int first = -1;
    for (int j = 1; j <= t->n; j++) { int q = perm[(p + j) % t->n]; if (q != from && !t->done[q] && !t->blocked[q]) { if (first < 0) first = q; if (skip-- <= 0) return q; } }
    return first;
}
static NI void switch_to(team_t *t, int q) { steps++; sem_post(&t->go[q]); while (sem_wait(&t->go[me])); }

// ---- scheduling points: entries of functions and accesses to memory that several threads of the team touch (as found in a recording run)
#define TS (1 << 20)
typedef struct { unsigned long key; unsigned long rd, wr; } ent_t;
static ent_t *tab; static int mode, mgran; static long nmark, capmark; static long *mk; static unsigned char *mkind; static long naccess, nconf;
NI void mc_mode(int m, long *marks, unsigned char *kinds, long cap)
{   // 0 off, 1 record accesses, 2 mark scheduling points
    if (!tab) tab = malloc(sizeof(ent_t) * TS); if (m == 1) { memset(tab, 0, sizeof(ent_t) * TS); naccess = 0; }
    mode = m; if (m) { mk = marks; mkind = kinds; capmark = cap; nmark = 0; }
}
NI long mc_marks(void) { return nmark; }
NI long mc_accesses(void) { return naccess; }
static NI ent_t *find(unsigned long key) { unsigned long h = (key * 0x9E3779B97F4A7C15ul) >> 44; for (int i = 0; i < TS; i++) { ent_t *e = &tab[(h + i) & (TS - 1)]; if (e->key == key) return e; if (!e->key) { if (mode == 1) e->key = key; return e; } } return NULL; }
static NI int multi(unsigned long m) { return (m & (m - 1)) != 0; }
static NI int conf(ent_t *e) { return e->wr && multi(e->wr | e->rd); }
NI long mc_conflicts(void) { long n = 0; if (tab) for (long i = 0; i < TS; i++) if (tab[i].key && conf(&tab[i])) n++; return n; }
static NI void preempt(team_t *t, long k) { for (int i = 0; i < npre; i++) if (at[i] == k) { int q = next_runnable(t, me, off[i]); if (q >= 0) switch_to(t, q); } }
static NI void mark(long k, int kind) { if (nmark < capmark) { mk[nmark] = k; mkind[nmark] = kind; } nmark++; }
static NI void mc_point(void *f, void *c)
{
    team_t *t = T; if (!t || level != 1 || size < 2) return;
    long k = point++; if (mode == 2) mark(k, 1); preempt(t, k);
}
static NI void acc(void *p, unsigned long n, int w)
{
    team_t *t = T; if (!t || level != 1 || size < 2) return;
    long k = point++; naccess++;
    if (mode) { int c = 0; unsigned long a = (unsigned long)p;
        for (unsigned long g = a >> 3; g <= (a + n - 1) >> 3; g++) { ent_t *e = find((g << 8) ^ (unsigned long)(teams & 0xff)); if (!e) continue; if (mode == 1) { if (w) e->wr |= 1ul << me; else e->rd |= 1ul << me; } else if (e->key && conf(e)) c = 1; }
        if (mode == 2 && c) mark(k, w ? 3 : 2); }
    preempt(t, k);
}
#define RW(S, N) NI void __tsan_read##S(void *p) { acc(p, N, 0); } NI void __tsan_write##S(void *p) { acc(p, N, 1); } NI void __tsan_volatile_read##S(void *p) { acc(p, N, 0); } NI void __tsan_volatile_write##S(void *p) { acc(p, N, 1); } \
    NI void __tsan_unaligned_read##S(void *p) { acc(p, N, 0); } NI void __tsan_unaligned_write##S(void *p) { acc(p, N, 1); } NI void __tsan_read_write##S(void *p) { acc(p, N, 1); } NI void __tsan_unaligned_read_write##S(void *p) { acc(p, N, 1); }
RW(1, 1) RW(2, 2) RW(4, 4) RW(8, 8) RW(16, 16)
NI void __tsan_read_range(void *p, unsigned long n) { if (n) acc(p, n, 0); } NI void __tsan_write_range(void *p, unsigned long n) { if (n) acc(p, n, 1); }
NI void __tsan_init(void) { } NI void __tsan_func_entry(void *pc) { mc_point(pc, 0); } NI void __tsan_func_exit(void) { }
NI void __tsan_vptr_update(void **p, void *v) { } NI void __tsan_vptr_read(void **p) { }
#define AT(B, T_) NI T_ __tsan_atomic##B##_load(const volatile T_ *a, int m) { acc((void *)a, sizeof(T_), 0); return *a; } NI void __tsan_atomic##B##_store(volatile T_ *a, T_ v, int m) { acc((void *)a, sizeof(T_), 1); *a = v; } \
    NI T_ __tsan_atomic##B##_exchange(volatile T_ *a, T_ v, int m) { acc((void *)a, sizeof(T_), 1); T_ o = *a; *a = v; return o; } NI T_ __tsan_atomic##B##_fetch_add(volatile T_ *a, T_ v, int m) { acc((void *)a, sizeof(T_), 1); T_ o = *a; *a += v; return o; } \
    NI T_ __tsan_atomic##B##_fetch_sub(volatile T_ *a, T_ v, int m) { acc((void *)a, sizeof(T_), 1); T_ o = *a; *a -= v; return o; } NI T_ __tsan_atomic##B##_fetch_or(volatile T_ *a, T_ v, int m) { acc((void *)a, sizeof(T_), 1); T_ o = *a; *a |= v; return o; } \
    NI T_ __tsan_atomic##B##_fetch_and(volatile T_ *a, T_ v, int m) { acc((void *)a, sizeof(T_), 1); T_ o = *a; *a &= v; return o; } \
    NI int __tsan_atomic##B##_compare_exchange_strong(volatile T_ *a, T_ *c, T_ v, int m, int fm) { acc((void *)a, sizeof(T_), 1); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    NI int __tsan_atomic##B##_compare_exchange_weak(volatile T_ *a, T_ *c, T_ v, int m, int fm) { acc((void *)a, sizeof(T_), 1); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    NI T_ __tsan_atomic##B##_compare_exchange_val(volatile T_ *a, T_ c, T_ v, int m, int fm) { acc((void *)a, sizeof(T_), 1); T_ o = *a; if (o == c) *a = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
NI void __tsan_atomic_thread_fence(int m) { }

static NI void finish(team_t *t)
{
    t->done[me] = 1; t->alive--;
    if (t->arrived && t->arrived >= t->alive) { }   // threads waiting at a barrier that this thread never reaches: not valid OpenMP
    int q = next_runnable(t, me, 0);
    if (q >= 0) { steps++; sem_post(&t->go[q]); }
    else if (t->alive) { deadlock = 1; memset(t->blocked, 0, sizeof t->blocked); t->arrived = 0; t->gen++; q = next_runnable(t, me, 0); sem_post(&t->go[q]); }
    else if (me != 0) sem_post(&t->go[0]);
}
typedef struct { team_t *t; int id; } arg_t;
static NI void *worker(void *a_) { arg_t a = *(arg_t *)a_; free(a_); me = a.id; level = 1; size = a.t->n; wsid = 0; icv = a.t->icv; while (sem_wait(&a.t->go[me])); a.t->fn(a.t->data); finish(a.t); return NULL; }

static NI void run_team(void (*fn)(void *), void *data, unsigned n, long st, long en, long inc, long ch, int loop)
{
    if (level > 0) { int m = me, s = size, w = wsid; me = 0; size = 1; wsid = 0; level++; team_t *sv = T;
        if (loop) { team_t t; memset(&t, 0, sizeof t); t.n = 1; t.next[0] = st; t.end[0] = en; t.incr[0] = inc; t.chunk[0] = ch; t.ws_n = 1; T = &t; wsid = 1; fn(data); T = sv; } else fn(data);
        level--; me = m; size = s; wsid = w; return; }
    int k = n ? (int)n : (icv > 0 ? icv : dflt); if (k > MAXT) k = MAXT; if (k < 1) k = 1;
    int sv_icv = icv; team_t *t = calloc(1, sizeof *t); t->n = k; t->alive = k; t->fn = fn; t->data = data; t->icv = icv; if (loop) { t->next[0] = st; t->end[0] = en; t->incr[0] = inc; t->chunk[0] = ch; t->ws_n = 1; }
    for (int i = 0; i < k; i++) sem_init(&t->go[i], 0, 0);
    if (teams < 4096) team_from[teams] = point; if (k > 1) teams++;
    pthread_t th[MAXT]; me = 0; level = 1; size = k; wsid = loop ? 1 : 0; T = t;
    for (int i = 1; i < k; i++) { arg_t *a = malloc(sizeof *a); a->t = t; a->id = i; pthread_attr_t at_; pthread_attr_init(&at_); pthread_attr_setstacksize(&at_, 16 << 20); pthread_create(&th[i], &at_, worker, a); }
    // valid permutation of the team
    int first = 0; for (int i = 0; i < k; i++) if (perm[i] < k) { first = perm[i]; break; }
    int sp[MAXT], ns = 0; for (int i = 0; i < MAXT; i++) if (perm[i] < k) sp[ns++] = perm[i]; int pv[MAXT]; memcpy(pv, perm, sizeof pv); memcpy(perm, sp, ns * sizeof(int)); for (int i = ns; i < MAXT; i++) perm[i] = MAXT + i;
    if (first) switch_to(t, first);
    fn(data); finish(t);
    if (t->alive) while (sem_wait(&t->go[0]));
    for (int i = 1; i < k; i++) pthread_join(th[i], NULL);
    memcpy(perm, pv, sizeof pv); for (int i = 0; i < k; i++) sem_destroy(&t->go[i]); T = NULL; level = 0; size = 1; me = 0; icv = sv_icv; free(t);
}
NI void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) { run_team(fn, data, n, 0, 0, 0, 0, 0); }
NI unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned n, unsigned flags) { run_team(fn, data, n, 0, 0, 0, 0, 0); return n ? n : (icv > 0 ? icv : dflt); }
#define PL(NAME, C) NI void NAME(void (*fn)(void *), void *data, unsigned n, long st, long en, long inc, long ch, unsigned fl) { run_team(fn, data, n, st, en, inc, C, 1); }
PL(GOMP_parallel_loop_dynamic, ch) PL(GOMP_parallel_loop_guided, ch) PL(GOMP_parallel_loop_nonmonotonic_dynamic, ch) PL(GOMP_parallel_loop_nonmonotonic_guided, ch)
NI void GOMP_parallel_loop_runtime(void (*fn)(void *), void *data, unsigned n, long st, long en, long inc, unsigned fl) { run_team(fn, data, n, st, en, inc, 1, 1); }
NI void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *data, unsigned n, long st, long en, long inc, unsigned fl) { run_team(fn, data, n, st, en, inc, 1, 1); }
NI void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void *), void *data, unsigned n, long st, long en, long inc, unsigned fl) { run_team(fn, data, n, st, en, inc, 1, 1); }
static NI _Bool lnext(long *a, long *b)
{
    static team_t solo; team_t *t = T ? T : &solo; int w = wsid > 0 ? wsid - 1 : 0; mc_point((void *)lnext, 0);
    long s = t->next[w], e = t->end[w], inc = t->incr[w], c = t->chunk[w] > 0 ? t->chunk[w] : 1; if (inc > 0 ? s >= e : s <= e) return 0;
    long q = s + inc * c; if (inc > 0 ? q > e : q < e) q = e; t->next[w] = q; *a = s; *b = q; return 1;
}
static NI _Bool lstart(long st, long en, long inc, long ch, long *a, long *b)
{
    static team_t solo; team_t *t = T ? T : &solo; int w = wsid++; if (!T) { w = 0; wsid = 1; solo.ws_n = 0; }
    if (w >= t->ws_n) { t->ws_n = w + 1; t->next[w] = st; t->end[w] = en; t->incr[w] = inc; t->chunk[w] = ch; }
    return lnext(a, b);
}
#define LS(NAME) NI _Bool NAME(long st, long en, long inc, long ch, long *a, long *b) { return lstart(st, en, inc, ch, a, b); }
LS(GOMP_loop_dynamic_start) LS(GOMP_loop_guided_start) LS(GOMP_loop_nonmonotonic_dynamic_start) LS(GOMP_loop_nonmonotonic_guided_start)
#define LN(NAME) NI _Bool NAME(long *a, long *b) { return lnext(a, b); }
LN(GOMP_loop_dynamic_next) LN(GOMP_loop_guided_next) LN(GOMP_loop_nonmonotonic_dynamic_next) LN(GOMP_loop_nonmonotonic_guided_next) LN(GOMP_loop_runtime_next) LN(GOMP_loop_maybe_nonmonotonic_runtime_next) LN(GOMP_loop_nonmonotonic_runtime_next)
NI void GOMP_barrier(void)
{
    team_t *t = T; if (!t || level != 1 || size < 2) return;
    t->arrived++;
    if (t->arrived >= t->n) { t->arrived = 0; t->gen++; memset(t->blocked, 0, sizeof t->blocked); mc_point((void *)GOMP_barrier, 0); return; }
    t->blocked[me] = 1; int q = next_runnable(t, me, 0);
    if (q < 0) { deadlock = 1; memset(t->blocked, 0, sizeof t->blocked); t->arrived = 0; return; }
    switch_to(t, q);
}
NI void GOMP_loop_end(void) { GOMP_barrier(); }
NI void GOMP_loop_end_nowait(void) { }
static NI void lock(void)
{
    if (level != 1 || size < 2) return;
    while (lock_owner >= 0 && lock_owner != me) { int q = lock_owner; switch_to(T, q); }
    lock_owner = me; lock_depth++;
}
static NI void unlock(void) { if (level != 1 || size < 2) return; if (--lock_depth <= 0) { lock_owner = -1; lock_depth = 0; } }
NI void GOMP_critical_start(void) { lock(); } NI void GOMP_critical_end(void) { unlock(); }
NI void GOMP_critical_name_start(void **p) { lock(); } NI void GOMP_critical_name_end(void **p) { unlock(); }
NI void GOMP_atomic_start(void) { lock(); } NI void GOMP_atomic_end(void) { unlock(); }
NI _Bool GOMP_single_start(void) { team_t *t = T; if (!t || size < 2) return 1; int w = wsid++; if (t->single[w & 63]) return 0; t->single[w & 63] = 1; return 1; }
NI int omp_get_thread_num(void) { return level ? me : 0; }
NI int omp_get_num_threads(void) { return level ? size : 1; }
NI int omp_get_max_threads(void) { return icv > 0 ? icv : dflt; }
NI void omp_set_num_threads(int n) { icv = n > 0 ? n : 1; }
NI int omp_in_parallel(void) { return level > 0 && size > 1; }
NI int omp_get_num_procs(void) { return 8; }
NI int omp_get_level(void) { return level; }
NI int omp_get_active_level(void) { return level > 0 && size > 1; }
NI int omp_get_dynamic(void) { return 0; } NI void omp_set_dynamic(int x) { } NI void omp_set_nested(int x) { } NI int omp_get_nested(void) { return 0; }
NI int omp_get_max_active_levels(void) { return 1; } NI void omp_set_max_active_levels(int x) { } NI int omp_get_thread_limit(void) { return INT_MAX; }
NI double omp_get_wtime(void) { return 0.0; }
