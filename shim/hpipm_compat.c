/* See hpipm_compat.h.  Everything that HPIPM already offers on right-hand sides stored inside a QP is reused for
 * "seeds" by substituting the seed vectors into a shallow copy of the QP. */
#define HPIPM_COMPAT_IMPL
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <math.h>
#include <pthread.h>
#include <blasfeo_d_aux.h>
#include <blasfeo_d_blas.h>
#include "hpipm_compat.h"
#include <hpipm/include/hpipm_d_core_qp_ipm.h>

/* ---- fault injection (environment answers of the QP solver chosen by a model checker) ---- */
static int  fault_script[256];
static int  fault_len = 0, fault_pos = 0, qp_calls = 0;
void compat_fault_set(int len, const int *script) { fault_len = len > 256 ? 256 : len; fault_pos = 0; for (int i = 0; i < fault_len; i++) fault_script[i] = script[i]; }
void compat_fault_reset(void) { fault_len = 0; fault_pos = 0; qp_calls = 0; }
int  compat_qp_calls(void) { return qp_calls; }
static int next_fault(void) { qp_calls++; return fault_pos < fault_len ? fault_script[fault_pos++] : -1; }

/* ---- side table: workspace -> condensed qp, block sizes ---- */
struct entry { void *key; void *qp; int N2; int bs[64]; int upd; double t0, l0; double *lam, *t; int n; struct entry *next; };
static struct entry *tab[1024];
static pthread_mutex_t tab_mtx = PTHREAD_MUTEX_INITIALIZER;
static struct entry *lookup(void *key)
{
    unsigned h = (unsigned) (((size_t) key >> 4) % 1024);
    pthread_mutex_lock(&tab_mtx);
    struct entry *e = tab[h];
    while (e && e->key != key) e = e->next;
    if (!e) { e = calloc(1, sizeof *e); e->key = key; e->next = tab[h]; tab[h] = e; }
    pthread_mutex_unlock(&tab_mtx);
    return e;
}

void compat_d_cond_qp_cond(struct d_ocp_qp *a, struct d_dense_qp *b, struct d_cond_qp_arg *c, struct d_cond_qp_ws *d)
{ lookup(d)->qp = b; d_cond_qp_cond(a, b, c, d); }
void compat_d_cond_qp_cond_lhs(struct d_ocp_qp *a, struct d_dense_qp *b, struct d_cond_qp_arg *c, struct d_cond_qp_ws *d)
{ lookup(d)->qp = b; d_cond_qp_cond_lhs(a, b, c, d); }
void compat_d_part_cond_qp_cond(struct d_ocp_qp *a, struct d_ocp_qp *b, struct d_part_cond_qp_arg *c, struct d_part_cond_qp_ws *d)
{ lookup(d)->qp = b; d_part_cond_qp_cond(a, b, c, d); }
void compat_d_part_cond_qp_cond_lhs(struct d_ocp_qp *a, struct d_ocp_qp *b, struct d_part_cond_qp_arg *c, struct d_part_cond_qp_ws *d)
{ lookup(d)->qp = b; d_part_cond_qp_cond_lhs(a, b, c, d); }
void compat_d_part_cond_qp_expand_sol(struct d_ocp_qp *a, struct d_ocp_qp_sol *b, struct d_ocp_qp_sol *c, struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws)
{ d_part_cond_qp_expand_sol(a, lookup(ws)->qp, b, c, arg, ws); }
void compat_d_part_cond_qp_ws_create(struct d_ocp_qp_dim *od, int *bs, struct d_ocp_qp_dim *pd, struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws, void *mem)
{ d_part_cond_qp_ws_create(od, bs, pd, arg, ws, mem); struct entry *e = lookup(ws); e->N2 = pd->N; for (int i = 0; i <= pd->N && i < 64; i++) e->bs[i] = bs[i]; }

static int nd_(struct d_ocp_qp_dim *d, int i);
static void keep_point(struct d_ocp_qp *qp, struct d_ocp_qp_sol *sol, struct d_ocp_qp_ipm_ws *ws, double l0, double t0);
/* d_cond_qp_cond_rhs of this HPIPM binary is wrong for general constraints (shown by comparing cond with cond_lhs + cond_rhs): the right-hand side is
 * taken from a full condensing into scratch memory instead */
static size_t align64(size_t p);
static int ng_(struct d_ocp_qp_dim *d, int i);
static int nd_(struct d_ocp_qp_dim *d, int i);
void compat_d_cond_qp_cond_rhs(struct d_ocp_qp *a, struct d_dense_qp *b, struct d_cond_qp_arg *c, struct d_cond_qp_ws *ws)
{
    struct d_dense_qp_dim *d = b->dim; struct d_dense_qp q; void *mem = calloc(1, d_dense_qp_memsize(d) + 64);
    d_dense_qp_create(d, &q, (void *) align64((size_t) mem)); blasfeo_dveccp(2 * (d->nb + d->ng + d->ns), b->d_mask, 0, q.d_mask, 0);
    d_cond_qp_cond(a, &q, c, ws);
    int nd = 2 * (d->nb + d->ng + d->ns);
    blasfeo_dveccp(d->nv + 2 * d->ns, q.gz, 0, b->gz, 0); blasfeo_dveccp(d->ne, q.b, 0, b->b, 0); blasfeo_dveccp(nd, q.d, 0, b->d, 0); blasfeo_dveccp(nd, q.m, 0, b->m, 0); blasfeo_dveccp(nd, q.d_mask, 0, b->d_mask, 0);
    free(mem);
}
void compat_d_part_cond_qp_cond_rhs(struct d_ocp_qp *a, struct d_ocp_qp *b, struct d_part_cond_qp_arg *c, struct d_part_cond_qp_ws *ws)
{
    struct d_ocp_qp_dim *d = b->dim; struct d_ocp_qp q; void *mem = calloc(1, d_ocp_qp_memsize(d) + 64);
    d_ocp_qp_create(d, &q, (void *) align64((size_t) mem)); for (int i = 0; i <= d->N; i++) blasfeo_dveccp(nd_(d, i), b->d_mask + i, 0, q.d_mask + i, 0);
    d_part_cond_qp_cond(a, &q, c, ws);
    for (int i = 0; i <= d->N; i++) {
        blasfeo_dveccp(ng_(d, i), q.rqz + i, 0, b->rqz + i, 0); blasfeo_dveccp(nd_(d, i), q.d + i, 0, b->d + i, 0);
        blasfeo_dveccp(nd_(d, i), q.m + i, 0, b->m + i, 0); blasfeo_dveccp(nd_(d, i), q.d_mask + i, 0, b->d_mask + i, 0);
        if (i < d->N) { blasfeo_dveccp(d->nx[i + 1], q.b + i, 0, b->b + i, 0); }
    }
    free(mem);
}

/* multipliers and slacks at which sensitivities are evaluated */
static void keep_point(struct d_ocp_qp *qp, struct d_ocp_qp_sol *sol, struct d_ocp_qp_ipm_ws *ws, double l0, double t0)
{
    struct entry *e = lookup(ws); int n = 0, k = 0;
    for (int i = 0; i <= qp->dim->N; i++) n += nd_(qp->dim, i);
    if (n != e->n) { free(e->lam); e->lam = malloc(2 * (n + 1) * sizeof(double)); e->t = e->lam + n; e->n = n; }
    for (int i = 0; i <= qp->dim->N; i++) for (int j = 0; j < nd_(qp->dim, i); j++, k++) {
        double l = BLASFEO_DVECEL(sol->lam + i, j), t = BLASFEO_DVECEL(sol->t + i, j); e->lam[k] = l > l0 ? l : l0; e->t[k] = t > t0 ? t : t0;
    }
}

/* statuses as in enum hpipm_status; -1: run the real solver */
void compat_d_ocp_qp_ipm_solve(struct d_ocp_qp *qp, struct d_ocp_qp_sol *sol, struct d_ocp_qp_ipm_arg *arg, struct d_ocp_qp_ipm_ws *ws)
{
    int f = next_fault();
    struct entry *e = lookup(arg);
    if (e->upd && arg->iter_max == 0) { ws->status = MAX_ITER; ws->iter = 0; keep_point(qp, sol, ws, e->l0, e->t0); return; }   /* "update_fact_exit": only factorize at the given point */
    d_ocp_qp_ipm_solve(qp, sol, arg, ws);
    keep_point(qp, sol, ws, 0.0, 0.0);
    if (f >= 0) ws->status = f;
    if (f == NAN_SOL) for (int i = 0; i <= qp->dim->N; i++) blasfeo_dvecse(qp->dim->nu[i] + qp->dim->nx[i], NAN, sol->ux + i, 0);
}
void compat_d_dense_qp_ipm_solve(struct d_dense_qp *qp, struct d_dense_qp_sol *sol, struct d_dense_qp_ipm_arg *arg, struct d_dense_qp_ipm_ws *ws)
{
    int f = next_fault();
    d_dense_qp_ipm_solve(qp, sol, arg, ws);
    if (f >= 0) ws->status = f;
    if (f == NAN_SOL) blasfeo_dvecse(qp->dim->nv, NAN, sol->v, 0);
}

/* ---- seeds ---- */
static hpipm_size_t align64(hpipm_size_t s) { return (s + 63) / 64 * 64; }
static int ng_(struct d_ocp_qp_dim *d, int i) { return d->nu[i] + d->nx[i] + 2 * d->ns[i]; }
static int nd_(struct d_ocp_qp_dim *d, int i) { return 2 * d->nb[i] + 2 * d->ng[i] + 2 * d->ns[i]; }
hpipm_size_t d_ocp_qp_seed_memsize(struct d_ocp_qp_dim *dim)
{
    hpipm_size_t s = 0; int N = dim->N;
    s += 4 * (N + 1) * sizeof(struct blasfeo_dvec);
    for (int i = 0; i <= N; i++) {
        s += blasfeo_memsize_dvec(ng_(dim, i)) + 2 * blasfeo_memsize_dvec(nd_(dim, i));
        if (i < N) s += blasfeo_memsize_dvec(dim->nx[i + 1]);
    }
    return align64(s) + 64;
}
static void mkvec(int n, struct blasfeo_dvec *v, char **c) { blasfeo_create_dvec(n, v, *c); *c += v->memsize; blasfeo_dvecse(n, 0.0, v, 0); }
void d_ocp_qp_seed_create(struct d_ocp_qp_dim *dim, struct d_ocp_qp_seed *s, void *mem)
{
    int N = dim->N; char *c = mem;
    s->dim = dim;
    s->seed_g = (struct blasfeo_dvec *) c; c += (N + 1) * sizeof(struct blasfeo_dvec);
    s->seed_b = (struct blasfeo_dvec *) c; c += (N + 1) * sizeof(struct blasfeo_dvec);
    s->seed_d = (struct blasfeo_dvec *) c; c += (N + 1) * sizeof(struct blasfeo_dvec);
    s->seed_m = (struct blasfeo_dvec *) c; c += (N + 1) * sizeof(struct blasfeo_dvec);
    c = (char *) align64((size_t) c);
    for (int i = 0; i <= N; i++) mkvec(ng_(dim, i), s->seed_g + i, &c);
    for (int i = 0; i < N; i++) mkvec(dim->nx[i + 1], s->seed_b + i, &c);
    for (int i = 0; i <= N; i++) mkvec(nd_(dim, i), s->seed_d + i, &c);
    for (int i = 0; i <= N; i++) mkvec(nd_(dim, i), s->seed_m + i, &c);
    s->memsize = d_ocp_qp_seed_memsize(dim);
}
void d_ocp_qp_seed_set_zero(struct d_ocp_qp_seed *s)
{
    struct d_ocp_qp_dim *dim = s->dim;
    for (int i = 0; i <= dim->N; i++) {
        blasfeo_dvecse(ng_(dim, i), 0.0, s->seed_g + i, 0);
        blasfeo_dvecse(nd_(dim, i), 0.0, s->seed_d + i, 0);
        blasfeo_dvecse(nd_(dim, i), 0.0, s->seed_m + i, 0);
        if (i < dim->N) blasfeo_dvecse(dim->nx[i + 1], 0.0, s->seed_b + i, 0);
    }
}
hpipm_size_t d_dense_qp_seed_memsize(struct d_dense_qp_dim *d)
{
    int ng = d->nv + 2 * d->ns, nd = 2 * (d->nb + d->ng + d->ns);
    return align64(4 * sizeof(struct blasfeo_dvec) + blasfeo_memsize_dvec(ng) + blasfeo_memsize_dvec(d->ne) + 2 * blasfeo_memsize_dvec(nd)) + 64;
}
void d_dense_qp_seed_create(struct d_dense_qp_dim *d, struct d_dense_qp_seed *s, void *mem)
{
    int ng = d->nv + 2 * d->ns, nd = 2 * (d->nb + d->ng + d->ns); char *c = mem;
    s->dim = d;
    s->seed_g = (struct blasfeo_dvec *) c; c += sizeof(struct blasfeo_dvec);
    s->seed_b = (struct blasfeo_dvec *) c; c += sizeof(struct blasfeo_dvec);
    s->seed_d = (struct blasfeo_dvec *) c; c += sizeof(struct blasfeo_dvec);
    s->seed_m = (struct blasfeo_dvec *) c; c += sizeof(struct blasfeo_dvec);
    c = (char *) align64((size_t) c);
    mkvec(ng, s->seed_g, &c); mkvec(d->ne, s->seed_b, &c); mkvec(nd, s->seed_d, &c); mkvec(nd, s->seed_m, &c);
    s->memsize = d_dense_qp_seed_memsize(d);
}

/* a qp whose vectors are the seed's; mask copied so that it can be overwritten */
struct tmpqp { struct d_ocp_qp qp; void *mem; };
static struct blasfeo_dvec *copy_masks(struct d_ocp_qp *qp, void **mem)
{
    int N = qp->dim->N; size_t s = (N + 1) * sizeof(struct blasfeo_dvec) + 128;
    for (int i = 0; i <= N; i++) s += blasfeo_memsize_dvec(nd_(qp->dim, i));
    *mem = malloc(s);
    struct blasfeo_dvec *v = *mem; char *c = (char *) align64((size_t) (v + N + 1));
    for (int i = 0; i <= N; i++) { mkvec(nd_(qp->dim, i), v + i, &c); blasfeo_dveccp(nd_(qp->dim, i), qp->d_mask + i, 0, v + i, 0); }
    return v;
}
static void mk(struct tmpqp *t, struct d_ocp_qp *qp, struct d_ocp_qp_seed *s)
{
    t->qp = *qp; t->qp.rqz = s->seed_g; t->qp.b = s->seed_b; t->qp.d = s->seed_d; t->qp.m = s->seed_m;
    t->qp.d_mask = copy_masks(qp, &t->mem);
}
static void rm(struct tmpqp *t) { free(t->mem); }

void d_ocp_qp_reduce_eq_dof_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_seed *seed_red, struct d_ocp_qp_reduce_eq_dof_arg *arg, struct d_ocp_qp_reduce_eq_dof_ws *work)
{
    /* the reduced qp only needs its dims, the vectors and integer data of the right sizes */
    struct tmpqp t; mk(&t, qp, seed);
    struct d_ocp_qp red; void *mem = malloc(d_ocp_qp_memsize(seed_red->dim) + 64);
    struct d_ocp_qp_reduce_eq_dof_arg a = *arg; a.alias_unchanged = 0;
    d_ocp_qp_create(seed_red->dim, &red, (void *) align64((size_t) mem));
    d_ocp_qp_reduce_eq_dof_lhs(&t.qp, &red, &a, work);
    d_ocp_qp_reduce_eq_dof_rhs(&t.qp, &red, &a, work);
    for (int i = 0; i <= seed_red->dim->N; i++) {
        blasfeo_dveccp(ng_(red.dim, i), red.rqz + i, 0, seed_red->seed_g + i, 0);
        blasfeo_dveccp(nd_(red.dim, i), red.d + i, 0, seed_red->seed_d + i, 0);
        blasfeo_dveccp(nd_(red.dim, i), red.m + i, 0, seed_red->seed_m + i, 0);
        if (i < seed_red->dim->N) blasfeo_dveccp(red.dim->nx[i + 1], red.b + i, 0, seed_red->seed_b + i, 0);
    }
    free(mem); rm(&t);
}
void d_ocp_qp_restore_eq_dof_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_sol *sol_red, struct d_ocp_qp_sol *sol, struct d_ocp_qp_reduce_eq_dof_arg *arg, struct d_ocp_qp_reduce_eq_dof_ws *work)
{
    struct tmpqp t; mk(&t, qp, seed);
    struct d_ocp_qp_reduce_eq_dof_arg a = *arg;
    d_ocp_qp_restore_eq_dof(&t.qp, sol_red, sol, &a, work);
    rm(&t);
}
void d_ocp_qp_reduce_eq_dof_sol(struct d_ocp_qp *qp, struct d_ocp_qp_sol *s, struct d_ocp_qp_sol *r, struct d_ocp_qp_reduce_eq_dof_arg *arg, struct d_ocp_qp_reduce_eq_dof_ws *work)
{
    for (int i = 0; i <= qp->dim->N; i++) {
        struct d_ocp_qp_dim *d = qp->dim, *e = r->dim;
        int nv = d->nu[i] + d->nx[i], nb = d->nb[i], ng = d->ng[i], ns = d->ns[i];
        char elim_v[512] = {0}, elim_c[1024] = {0};
        int ne = d->nbue[i] + d->nbxe[i] + d->nge[i];
        for (int k = 0; k < ne; k++) { int j = qp->idxe[i][k]; if (j < nb) { elim_v[qp->idxb[i][j]] = 1; elim_c[j] = 1; } }
        int c = 0;
        for (int k = 0; k < nv; k++) if (!elim_v[k]) BLASFEO_DVECEL(r->ux + i, c++) = BLASFEO_DVECEL(s->ux + i, k);
        for (int k = 0; k < 2 * ns; k++) BLASFEO_DVECEL(r->ux + i, c++) = BLASFEO_DVECEL(s->ux + i, nv + k);
        int m = 0, half = e->nb[i] + e->ng[i];
        for (int k = 0; k < nb + ng; k++) {
            if (elim_c[k]) continue;
            BLASFEO_DVECEL(r->lam + i, m) = BLASFEO_DVECEL(s->lam + i, k);
            BLASFEO_DVECEL(r->t + i, m) = BLASFEO_DVECEL(s->t + i, k);
            BLASFEO_DVECEL(r->lam + i, half + m) = BLASFEO_DVECEL(s->lam + i, nb + ng + k);
            BLASFEO_DVECEL(r->t + i, half + m) = BLASFEO_DVECEL(s->t + i, nb + ng + k);
            m++;
        }
        for (int k = 0; k < 2 * ns; k++) {
            BLASFEO_DVECEL(r->lam + i, 2 * half + k) = BLASFEO_DVECEL(s->lam + i, 2 * (nb + ng) + k);
            BLASFEO_DVECEL(r->t + i, 2 * half + k) = BLASFEO_DVECEL(s->t + i, 2 * (nb + ng) + k);
        }
        if (i < qp->dim->N) blasfeo_dveccp(d->nx[i + 1], s->pi + i, 0, r->pi + i, 0);
    }
}

void d_cond_qp_cond_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *s, struct d_dense_qp_seed *ds, struct d_cond_qp_arg *arg, struct d_cond_qp_ws *ws)
{
    struct d_dense_qp *orig = lookup(ws)->qp;
    struct tmpqp t; mk(&t, qp, s);
    struct d_dense_qp dq; void *mem = malloc(d_dense_qp_memsize(orig->dim) + 64);
    d_dense_qp_create(orig->dim, &dq, (void *) align64((size_t) mem));
    compat_d_cond_qp_cond_rhs(&t.qp, &dq, arg, ws);
    struct d_dense_qp_dim *d = orig->dim; int ng = d->nv + 2 * d->ns, nd = 2 * (d->nb + d->ng + d->ns);
    blasfeo_dveccp(ng, dq.gz, 0, ds->seed_g, 0); blasfeo_dveccp(d->ne, dq.b, 0, ds->seed_b, 0);
    blasfeo_dveccp(nd, dq.d, 0, ds->seed_d, 0); blasfeo_dveccp(nd, dq.m, 0, ds->seed_m, 0);
    free(mem); rm(&t);
}
void d_cond_qp_expand_sol_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *s, struct d_dense_qp_sol *dsol, struct d_ocp_qp_sol *sol, struct d_cond_qp_arg *arg, struct d_cond_qp_ws *ws)
{ struct tmpqp t; mk(&t, qp, s); d_cond_qp_expand_sol(&t.qp, dsol, sol, arg, ws); rm(&t); }
void d_cond_qp_cond_sol(struct d_ocp_qp *qp, struct d_ocp_qp_sol *s, struct d_dense_qp_sol *ds, struct d_cond_qp_arg *arg, struct d_cond_qp_ws *ws)
{
    struct d_dense_qp *dq = lookup(ws)->qp; if (!dq) return;
    struct d_dense_qp_dim *d = dq->dim; int nd = 2 * (d->nb + d->ng + d->ns);
    blasfeo_dvecse(d->nv + 2 * d->ns, 0.0, ds->v, 0); blasfeo_dvecse(nd, 1.0, ds->lam, 0); blasfeo_dvecse(nd, 1.0, ds->t, 0);
}
void d_part_cond_qp_cond_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *s, struct d_ocp_qp_seed *ps, struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws)
{
    struct d_ocp_qp *orig = lookup(ws)->qp;
    struct tmpqp t; mk(&t, qp, s);
    struct d_ocp_qp pq; void *mem = malloc(d_ocp_qp_memsize(orig->dim) + 64);
    d_ocp_qp_create(orig->dim, &pq, (void *) align64((size_t) mem));
    compat_d_part_cond_qp_cond_rhs(&t.qp, &pq, arg, ws);
    for (int i = 0; i <= pq.dim->N; i++) {
        blasfeo_dveccp(ng_(pq.dim, i), pq.rqz + i, 0, ps->seed_g + i, 0);
        blasfeo_dveccp(nd_(pq.dim, i), pq.d + i, 0, ps->seed_d + i, 0);
        blasfeo_dveccp(nd_(pq.dim, i), pq.m + i, 0, ps->seed_m + i, 0);
        if (i < pq.dim->N) blasfeo_dveccp(pq.dim->nx[i + 1], pq.b + i, 0, ps->seed_b + i, 0);
    }
    free(mem); rm(&t);
}
void d_part_cond_qp_expand_sol_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *s, struct d_ocp_qp_sol *psol, struct d_ocp_qp_sol *sol, struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws)
{ struct tmpqp t; mk(&t, qp, s); d_part_cond_qp_expand_sol(&t.qp, lookup(ws)->qp, psol, sol, arg, ws); rm(&t); }
void d_part_cond_qp_cond_sol(struct d_ocp_qp *qp, struct d_ocp_qp *pq, struct d_ocp_qp_sol *s, struct d_ocp_qp_sol *ps, struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws)
{
    struct d_ocp_qp_dim *d = pq->dim;
    if (d->N == qp->dim->N) {          /* nothing condensed: the point itself */
        for (int i = 0; i <= d->N; i++) {
            blasfeo_dveccp(ng_(d, i), s->ux + i, 0, ps->ux + i, 0); blasfeo_dveccp(nd_(d, i), s->lam + i, 0, ps->lam + i, 0); blasfeo_dveccp(nd_(d, i), s->t + i, 0, ps->t + i, 0);
            if (i < d->N) blasfeo_dveccp(d->nx[i + 1], s->pi + i, 0, ps->pi + i, 0);
        }
        return;
    }
    for (int i = 0; i <= d->N; i++) {
        blasfeo_dvecse(ng_(d, i), 0.0, ps->ux + i, 0); blasfeo_dvecse(nd_(d, i), 1.0, ps->lam + i, 0); blasfeo_dvecse(nd_(d, i), 1.0, ps->t + i, 0);
        if (i < d->N) blasfeo_dvecse(d->nx[i + 1], 0.0, ps->pi + i, 0);
    }
}

void d_ocp_qp_ipm_sens_frw(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_sol *sens, struct d_ocp_qp_ipm_arg *arg, struct d_ocp_qp_ipm_ws *ws)
/* derivative of the KKT system at the stored point, by dense elimination (the binary has neither seeds nor "update_fact_exit"):
 *   H v + A' pi - C' lam = -seed_g,   A v = -seed_b,   lam0 (C v - seed_d) + t0 lam = -seed_m     (rows of C signed such that t = C v - d) */
{
    struct d_ocp_qp_dim *d = qp->dim; struct entry *e = lookup(ws); int N = d->N, n = 0, *v0 = malloc(3 * (N + 2) * sizeof(int)), *p0 = v0 + N + 2, *l0 = p0 + N + 2;
    for (int i = 0; i <= N; i++) { v0[i] = n; n += ng_(d, i); }
    for (int i = 0; i < N; i++) { p0[i] = n; n += d->nx[i + 1]; }
    int lam0 = n; for (int i = 0; i <= N; i++) { l0[i] = n; n += nd_(d, i); }
    double *M = calloc((size_t) n * (n + 1), sizeof(double));
#define A_(i, j) M[(size_t) (i) * (n + 1) + (j)]
    for (int i = 0; i <= N; i++) {
        int nw = d->nu[i] + d->nx[i], nb = d->nb[i], ng = d->ng[i], ns = d->ns[i], m = nb + ng;
        for (int r = 0; r < nw; r++) for (int c = 0; c <= r; c++) A_(v0[i] + r, v0[i] + c) = A_(v0[i] + c, v0[i] + r) = BLASFEO_DMATEL(qp->RSQrq + i, r, c);
        for (int r = 0; r < 2 * ns; r++) A_(v0[i] + nw + r, v0[i] + nw + r) = BLASFEO_DVECEL(qp->Z + i, r);
        for (int r = 0; r < ng_(d, i); r++) A_(v0[i] + r, n) = -BLASFEO_DVECEL(seed->seed_g + i, r);
        if (i < N) for (int c = 0; c < d->nx[i + 1]; c++) {
            for (int r = 0; r < nw; r++) A_(v0[i] + r, p0[i] + c) = A_(p0[i] + c, v0[i] + r) = BLASFEO_DMATEL(qp->BAbt + i, r, c);
            int x = v0[i + 1] + d->nu[i + 1] + c; A_(x, p0[i] + c) = A_(p0[i] + c, x) = -1.0; A_(p0[i] + c, n) = -BLASFEO_DVECEL(seed->seed_b + i, c);
        }
        for (int q = 0; q < nd_(d, i); q++) {
            int row = l0[i] + q, k = row - lam0; double la = e->n ? e->lam[k] : 0.0, t = e->n ? e->t[k] : 1.0;
            if (BLASFEO_DVECEL(qp->d_mask + i, q) == 0.0) { A_(row, row) = 1.0; continue; }
            A_(row, row) = t; A_(row, n) = la * BLASFEO_DVECEL(seed->seed_d + i, q) - BLASFEO_DVECEL(seed->seed_m + i, q);
#define COEF(col, val) do { double w_ = (val); A_(v0[i] + (col), row) -= w_; A_(row, v0[i] + (col)) += la * w_; } while (0)
            if (q >= 2 * m) { COEF(nw + q - 2 * m, 1.0); continue; }
            int j = q % m; double s = q < m ? 1.0 : -1.0;
            if (j < nb) COEF(qp->idxb[i][j], s); else for (int r = 0; r < nw; r++) COEF(r, s * BLASFEO_DMATEL(qp->DCt + i, r, j - nb));
            int k2 = ns ? qp->idxs_rev[i][j] : -1; if (k2 >= 0) COEF(nw + k2 + (q < m ? 0 : ns), 1.0);
        }
    }
    for (int c = 0; c < n; c++) {
        int b = c; for (int r = c + 1; r < n; r++) if (fabs(A_(r, c)) > fabs(A_(b, c))) b = r;
        if (b != c) for (int j = c; j <= n; j++) { double w = A_(b, j); A_(b, j) = A_(c, j); A_(c, j) = w; }
        for (int r = c + 1; r < n; r++) { double f = A_(r, c); if (f == 0.0) continue; f /= A_(c, c); for (int j = c; j <= n; j++) A_(r, j) -= f * A_(c, j); }
    }
    for (int c = n - 1; c >= 0; c--) { double w = A_(c, n); for (int j = c + 1; j < n; j++) w -= A_(c, j) * A_(j, n); A_(c, n) = w / A_(c, c); }
    for (int i = 0; i <= N; i++) {
        for (int r = 0; r < ng_(d, i); r++) BLASFEO_DVECEL(sens->ux + i, r) = A_(v0[i] + r, n);
        if (i < N) for (int r = 0; r < d->nx[i + 1]; r++) BLASFEO_DVECEL(sens->pi + i, r) = A_(p0[i] + r, n);
        for (int r = 0; r < nd_(d, i); r++) { BLASFEO_DVECEL(sens->lam + i, r) = A_(l0[i] + r, n); BLASFEO_DVECEL(sens->t + i, r) = 0.0; }
    }
    free(M); free(v0);
}
/* the system is symmetric up to the scaling of the rows of lam: for seeds of the primal variables forward and adjoint coincide */
void d_ocp_qp_ipm_sens_adj(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_sol *sens, struct d_ocp_qp_ipm_arg *arg, struct d_ocp_qp_ipm_ws *ws)
{ d_ocp_qp_ipm_sens_frw(qp, seed, sens, arg, ws); }
void d_dense_qp_ipm_sens_frw(struct d_dense_qp *qp, struct d_dense_qp_seed *s, struct d_dense_qp_sol *sens, struct d_dense_qp_ipm_arg *arg, struct d_dense_qp_ipm_ws *ws)
{ struct d_dense_qp q = *qp; q.gz = s->seed_g; q.b = s->seed_b; q.d = s->seed_d; q.m = s->seed_m; d_dense_qp_ipm_sens(&q, sens, arg, ws); }
void d_dense_qp_ipm_sens_adj(struct d_dense_qp *qp, struct d_dense_qp_seed *seed, struct d_dense_qp_sol *sens, struct d_dense_qp_ipm_arg *arg, struct d_dense_qp_ipm_ws *ws)
{ d_dense_qp_ipm_sens_frw(qp, seed, sens, arg, ws); }

/* ---- small getters/setters ---- */
void d_dense_qp_dim_get_nv(struct d_dense_qp_dim *dim, int *value) { *value = dim->nv; }
void d_ocp_qp_get_idxe(int stage, struct d_ocp_qp *qp, int *vec)
{ int n = qp->dim->nbue[stage] + qp->dim->nbxe[stage] + qp->dim->nge[stage]; for (int i = 0; i < n; i++) vec[i] = qp->idxe[stage][i]; }
void d_ocp_qp_set_m_all(double *value, struct d_ocp_qp *qp)
{ for (int i = 0; i <= qp->dim->N; i++) blasfeo_dvecse(nd_(qp->dim, i), *value, qp->m + i, 0); }
void d_dense_qp_set_m_all(double *value, struct d_dense_qp *qp)
{ blasfeo_dvecse(2 * (qp->dim->nb + qp->dim->ng + qp->dim->ns), *value, qp->m, 0); }
#define ARGGET(T) \
void d_##T##_qp_ipm_arg_get(char *f, struct d_##T##_qp_ipm_arg *a, void *v) { \
    if (!strcmp(f, "iter_max")) *(int *) v = a->iter_max; \
    else if (!strcmp(f, "tol_stat")) *(double *) v = a->res_g_max; \
    else if (!strcmp(f, "tol_eq")) *(double *) v = a->res_b_max; \
    else if (!strcmp(f, "tol_ineq")) *(double *) v = a->res_d_max; \
    else if (!strcmp(f, "tol_comp")) *(double *) v = a->res_m_max; \
    else if (!strcmp(f, "tau_min")) *(double *) v = a->tau_min; \
    else if (!strcmp(f, "mu0")) *(double *) v = a->mu0; \
    else if (!strcmp(f, "warm_start")) *(int *) v = a->warm_start; \
    else if (!strcmp(f, "t0_min")) *(double *) v = lookup(a)->t0; \
    else if (!strcmp(f, "lam0_min")) *(double *) v = lookup(a)->l0; \
    else { printf("error: ipm_arg_get: wrong field %s\n", f); exit(1); } }
ARGGET(ocp)
ARGGET(dense)
void d_ocp_qp_ipm_get_tau_iter(struct d_ocp_qp_ipm_ws *ws, double *tau) { *tau = ws->core_workspace->mu; }

/* the initialization of t does not change the solution of a QP: options the old HPIPM does not know are dropped */
static int extra_arg(char *f, void *v, void *arg)
{
    if (!strcmp(f, "t0_init")) return 1;
    if (!strcmp(f, "update_fact_exit")) { lookup(arg)->upd = *(int *) v; return 1; }
    if (!strcmp(f, "t0_min")) { lookup(arg)->t0 = *(double *) v; return 1; }
    if (!strcmp(f, "lam0_min")) { lookup(arg)->l0 = *(double *) v; return 1; }
    return 0;
}
void compat_d_ocp_qp_ipm_arg_set(char *field, void *value, struct d_ocp_qp_ipm_arg *arg)
{ if (extra_arg(field, value, arg)) return; d_ocp_qp_ipm_arg_set(field, value, arg); }
void compat_d_dense_qp_ipm_arg_set(char *field, void *value, struct d_dense_qp_ipm_arg *arg)
{ if (extra_arg(field, value, arg)) return; d_dense_qp_ipm_arg_set(field, value, arg); }

/* ---- BLAS semantics of beta == 0, see hpipm_compat.h ---- */
static void zero_mat(int m, int n, int lo, int up, struct blasfeo_dmat *A, struct blasfeo_dmat *B, struct blasfeo_dmat *D, int di, int dj)
{
    if (D->mem == A->mem || (B && D->mem == B->mem)) return;
    for (int j = 0; j < n; j++) for (int i = lo ? j : 0; i < (up ? (j + 1 < m ? j + 1 : m) : m); i++) blasfeo_dgein1(0.0, D, di + i, dj + j);
}
void compat_dgemm_nn(int m, int n, int k, double alpha, struct blasfeo_dmat *sA, int ai, int aj, struct blasfeo_dmat *sB, int bi, int bj, double beta, struct blasfeo_dmat *sC, int ci, int cj, struct blasfeo_dmat *sD, int di, int dj)
{
    if (beta == 0.0) { zero_mat(m, n, 0, 0, sA, sB, sD, di, dj); if (sD->mem != sA->mem && sD->mem != sB->mem) { sC = sD; ci = di; cj = dj; } }
    blasfeo_dgemm_nn(m, n, k, alpha, sA, ai, aj, sB, bi, bj, beta, sC, ci, cj, sD, di, dj);
}
void compat_dgemm_nt(int m, int n, int k, double alpha, struct blasfeo_dmat *sA, int ai, int aj, struct blasfeo_dmat *sB, int bi, int bj, double beta, struct blasfeo_dmat *sC, int ci, int cj, struct blasfeo_dmat *sD, int di, int dj)
{
    if (beta == 0.0) { zero_mat(m, n, 0, 0, sA, sB, sD, di, dj); if (sD->mem != sA->mem && sD->mem != sB->mem) { sC = sD; ci = di; cj = dj; } }
    blasfeo_dgemm_nt(m, n, k, alpha, sA, ai, aj, sB, bi, bj, beta, sC, ci, cj, sD, di, dj);
}
void compat_dgemm_tn(int m, int n, int k, double alpha, struct blasfeo_dmat *sA, int ai, int aj, struct blasfeo_dmat *sB, int bi, int bj, double beta, struct blasfeo_dmat *sC, int ci, int cj, struct blasfeo_dmat *sD, int di, int dj)
{
    if (beta == 0.0) { zero_mat(m, n, 0, 0, sA, sB, sD, di, dj); if (sD->mem != sA->mem && sD->mem != sB->mem) { sC = sD; ci = di; cj = dj; } }
    blasfeo_dgemm_tn(m, n, k, alpha, sA, ai, aj, sB, bi, bj, beta, sC, ci, cj, sD, di, dj);
}
void compat_dsyrk_ln(int m, int k, double alpha, struct blasfeo_dmat *sA, int ai, int aj, struct blasfeo_dmat *sB, int bi, int bj, double beta, struct blasfeo_dmat *sC, int ci, int cj, struct blasfeo_dmat *sD, int di, int dj)
{
    if (beta == 0.0) { zero_mat(m, m, 1, 0, sA, sB, sD, di, dj); if (sD->mem != sA->mem && sD->mem != sB->mem) { sC = sD; ci = di; cj = dj; } }
    blasfeo_dsyrk_ln(m, k, alpha, sA, ai, aj, sB, bi, bj, beta, sC, ci, cj, sD, di, dj);
}
void compat_dsyrk_ln_mn(int m, int n, int k, double alpha, struct blasfeo_dmat *sA, int ai, int aj, struct blasfeo_dmat *sB, int bi, int bj, double beta, struct blasfeo_dmat *sC, int ci, int cj, struct blasfeo_dmat *sD, int di, int dj)
{
    if (beta == 0.0) { zero_mat(m, n, 1, 0, sA, sB, sD, di, dj); if (sD->mem != sA->mem && sD->mem != sB->mem) { sC = sD; ci = di; cj = dj; } }
    blasfeo_dsyrk_ln_mn(m, n, k, alpha, sA, ai, aj, sB, bi, bj, beta, sC, ci, cj, sD, di, dj);
}
void compat_dsyrk_ut(int m, int k, double alpha, struct blasfeo_dmat *sA, int ai, int aj, struct blasfeo_dmat *sB, int bi, int bj, double beta, struct blasfeo_dmat *sC, int ci, int cj, struct blasfeo_dmat *sD, int di, int dj)
{
    if (beta == 0.0) { zero_mat(m, m, 0, 1, sA, sB, sD, di, dj); if (sD->mem != sA->mem && sD->mem != sB->mem) { sC = sD; ci = di; cj = dj; } }
    blasfeo_dsyrk_ut(m, k, alpha, sA, ai, aj, sB, bi, bj, beta, sC, ci, cj, sD, di, dj);
}
void compat_dgemm_nd(int m, int n, double alpha, struct blasfeo_dmat *sA, int ai, int aj, struct blasfeo_dvec *sB, int bi, double beta, struct blasfeo_dmat *sC, int ci, int cj, struct blasfeo_dmat *sD, int di, int dj)
{
    if (beta == 0.0) { zero_mat(m, n, 0, 0, sA, NULL, sD, di, dj); if (sD->mem != sA->mem) { sC = sD; ci = di; cj = dj; } }
    blasfeo_dgemm_nd(m, n, alpha, sA, ai, aj, sB, bi, beta, sC, ci, cj, sD, di, dj);
}
void compat_dgemv_n(int m, int n, double alpha, struct blasfeo_dmat *sA, int ai, int aj, struct blasfeo_dvec *sx, int xi, double beta, struct blasfeo_dvec *sy, int yi, struct blasfeo_dvec *sz, int zi)
{
    if (beta == 0.0 && sz->mem != sx->mem) { blasfeo_dvecse(m, 0.0, sz, zi); sy = sz; yi = zi; }
    blasfeo_dgemv_n(m, n, alpha, sA, ai, aj, sx, xi, beta, sy, yi, sz, zi);
}
void compat_dgemv_t(int m, int n, double alpha, struct blasfeo_dmat *sA, int ai, int aj, struct blasfeo_dvec *sx, int xi, double beta, struct blasfeo_dvec *sy, int yi, struct blasfeo_dvec *sz, int zi)
{
    if (beta == 0.0 && sz->mem != sx->mem) { blasfeo_dvecse(n, 0.0, sz, zi); sy = sz; yi = zi; }
    blasfeo_dgemv_t(m, n, alpha, sA, ai, aj, sx, xi, beta, sy, yi, sz, zi);
}
void compat_dsymv_l(int m, double alpha, struct blasfeo_dmat *sA, int ai, int aj, struct blasfeo_dvec *sx, int xi, double beta, struct blasfeo_dvec *sy, int yi, struct blasfeo_dvec *sz, int zi)
{
    if (beta == 0.0 && sz->mem != sx->mem) { blasfeo_dvecse(m, 0.0, sz, zi); sy = sz; yi = zi; }
    blasfeo_dsymv_l(m, alpha, sA, ai, aj, sx, xi, beta, sy, yi, sz, zi);
}
