/* evaluates a CasADi function through the three external function wrappers of acados, with every argument layout */
#include <stdlib.h>
#include <string.h>
#include "acados_c/external_function_interface.h"
#include "acados/utils/external_function_generic.h"
#include "blasfeo_d_aux_ext_dep.h"
#include "blasfeo_d_aux.h"

#define PAD 3
typedef struct { int type, m, n, oi, oj; double *buf; int M, N; void *obj, *arg; } Arg; /* buf: dense column major M x N, block at (oi, oj) */

static void make(Arg *a)
{
    switch (a->type)
    {
        case COLMAJ: a->arg = a->buf; break;
        case COLMAJ_ARGS: { struct colmaj_args *c = malloc(sizeof *c); c->A = a->buf + a->oi + a->oj * a->M; c->lda = a->M; a->arg = c; break; }
        case BLASFEO_DMAT: case BLASFEO_DMAT_ARGS:
        {
            struct blasfeo_dmat *d = malloc(sizeof *d); blasfeo_allocate_dmat(a->M, a->N, d); blasfeo_pack_dmat(a->M, a->N, a->buf, a->M, d, 0, 0); a->obj = d; a->arg = d;
            if (a->type == BLASFEO_DMAT_ARGS) { struct blasfeo_dmat_args *c = malloc(sizeof *c); c->A = d; c->ai = a->oi; c->aj = a->oj; a->arg = c; }
            break;
        }
        case BLASFEO_DVEC: case BLASFEO_DVEC_ARGS:
        {
            struct blasfeo_dvec *d = malloc(sizeof *d); blasfeo_allocate_dvec(a->M, d); blasfeo_pack_dvec(a->M, a->buf, 1, d, 0); a->obj = d; a->arg = d;
            if (a->type == BLASFEO_DVEC_ARGS) { struct blasfeo_dvec_args *c = malloc(sizeof *c); c->x = d; c->xi = a->oi; a->arg = c; }
            break;
        }
        default: a->arg = NULL;
    }
}

static void done(Arg *a, int back)
{
    if (a->type == BLASFEO_DMAT || a->type == BLASFEO_DMAT_ARGS) { if (back) blasfeo_unpack_dmat(a->M, a->N, a->obj, 0, 0, a->buf, a->M); blasfeo_free_dmat(a->obj); if (a->arg != a->obj) free(a->arg); free(a->obj); }
    else if (a->type == BLASFEO_DVEC || a->type == BLASFEO_DVEC_ARGS) { if (back) blasfeo_unpack_dvec(a->M, a->obj, 0, a->buf, 1); blasfeo_free_dvec(a->obj); if (a->arg != a->obj) free(a->arg); free(a->obj); }
    else if (a->type == COLMAJ_ARGS) free(a->arg);
}

typedef struct { void *fun, *work, *sp_in, *sp_out, *n_in, *n_out; } Fns;
#define FNS(f) f.casadi_fun = F->fun; f.casadi_work = F->work; f.casadi_sparsity_in = F->sp_in; f.casadi_sparsity_out = F->sp_out; f.casadi_n_in = F->n_in; f.casadi_n_out = F->n_out

/* kind 0 casadi, 1 param_casadi, 2 external_param_casadi, 3 external_param_casadi with global data;
   idx/val: after the parameters p are set, sparse update (kind 1) */
int mc_eval(Fns *F, int kind, int ext_work, int nin, Arg *in, int nout, Arg *out, int np, double *p, int nup, int *idx, double *val, double *glob)
{
    ext_fun_arg_t ti[8], to[8]; void *pi[8], *po[8]; int rc = 0, n = 0;
    external_function_opts o; external_function_opts_set_to_default(&o); o.external_workspace = ext_work; o.with_global_data = kind == 3;
    for (int i = 0; i < nin; i++) { make(in + i); ti[i] = in[i].type; pi[i] = in[i].arg; }
    for (int i = 0; i < nout; i++) { make(out + i); to[i] = out[i].type; po[i] = out[i].arg; }
    external_function_casadi a; external_function_param_casadi b; external_function_external_param_casadi c; void *f = NULL; void *w = NULL;
    if (kind == 0) { FNS(a); external_function_casadi_create(&a, &o); f = &a; }
    if (kind == 1)
    {
        FNS(b); external_function_param_casadi_create(&b, np, &o); f = &b; b.get_nparam(f, &n); if (n != np) rc = 1;
        b.set_param(f, p); if (nup) b.set_param_sparse(f, nup, idx, val);
    }
    if (kind >= 2) { FNS(c); external_function_external_param_casadi_create(&c, &o); f = &c; c.set_param_pointer(f, p); if (kind == 3) c.set_global_data_pointer(f, glob); }
    external_function_generic *g = f; size_t s = external_function_get_workspace_requirement_if_defined(g);
    if (!ext_work && s) rc = 2;
    if (ext_work) { w = malloc(s + 8); memset(w, 0xff, s + 8); external_function_set_fun_workspace_if_defined(g, w); }
    for (int r = 0; r < 2; r++) g->evaluate(f, ti, pi, to, po);      /* twice: the first call must leave nothing behind */
    if (kind == 0) external_function_casadi_free(&a);
    if (kind == 1) external_function_param_casadi_free(&b);
    if (kind >= 2) external_function_external_param_casadi_free(&c);
    free(w);
    for (int i = 0; i < nin; i++) done(in + i, 0);
    for (int i = 0; i < nout; i++) done(out + i, 1);
    return rc;
}
