/* Compatibility layer: the HPIPM binary shipped in the CasADi wheel predates the "seed" API used by
 * this acados commit. Declares the missing entry points; implemented in hpipm_compat.c. */
#ifndef HPIPM_COMPAT_H_
#define HPIPM_COMPAT_H_
#include <blasfeo_common.h>
#include <hpipm/include/hpipm_common.h>
#include <hpipm/include/hpipm_d_ocp_qp_dim.h>
#include <hpipm/include/hpipm_d_ocp_qp.h>
#include <hpipm/include/hpipm_d_ocp_qp_sol.h>
#include <hpipm/include/hpipm_d_ocp_qp_res.h>
#include <hpipm/include/hpipm_d_ocp_qp_red.h>
#include <hpipm/include/hpipm_d_ocp_qp_ipm.h>
#include <hpipm/include/hpipm_d_dense_qp_dim.h>
#include <hpipm/include/hpipm_d_dense_qp.h>
#include <hpipm/include/hpipm_d_dense_qp_sol.h>
#include <hpipm/include/hpipm_d_dense_qp_ipm.h>
#include <hpipm/include/hpipm_d_cond.h>
#include <hpipm/include/hpipm_d_part_cond.h>
#ifdef __cplusplus
extern "C" {
#endif
struct d_ocp_qp_seed {
    struct d_ocp_qp_dim *dim;
    struct blasfeo_dvec *seed_g, *seed_b, *seed_d, *seed_m;
    hpipm_size_t memsize;
};
struct d_dense_qp_seed {
    struct d_dense_qp_dim *dim;
    struct blasfeo_dvec *seed_g, *seed_b, *seed_d, *seed_m;
    hpipm_size_t memsize;
};
hpipm_size_t d_ocp_qp_seed_memsize(struct d_ocp_qp_dim *dim);
void d_ocp_qp_seed_create(struct d_ocp_qp_dim *dim, struct d_ocp_qp_seed *seed, void *mem);
void d_ocp_qp_seed_set_zero(struct d_ocp_qp_seed *seed);
hpipm_size_t d_dense_qp_seed_memsize(struct d_dense_qp_dim *dim);
void d_dense_qp_seed_create(struct d_dense_qp_dim *dim, struct d_dense_qp_seed *seed, void *mem);

void d_dense_qp_dim_get_nv(struct d_dense_qp_dim *dim, int *value);
void d_ocp_qp_get_idxe(int stage, struct d_ocp_qp *qp, int *vec);
void d_ocp_qp_set_m_all(double *value, struct d_ocp_qp *qp);
void d_dense_qp_set_m_all(double *value, struct d_dense_qp *qp);
void d_ocp_qp_ipm_arg_get(char *field, struct d_ocp_qp_ipm_arg *arg, void *value);
void d_dense_qp_ipm_arg_get(char *field, struct d_dense_qp_ipm_arg *arg, void *value);
void d_ocp_qp_ipm_get_tau_iter(struct d_ocp_qp_ipm_ws *ws, double *tau);

void d_ocp_qp_reduce_eq_dof_sol(struct d_ocp_qp *qp, struct d_ocp_qp_sol *qp_sol, struct d_ocp_qp_sol *qp_sol_red, struct d_ocp_qp_reduce_eq_dof_arg *arg, struct d_ocp_qp_reduce_eq_dof_ws *work);
void d_ocp_qp_reduce_eq_dof_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_seed *seed_red, struct d_ocp_qp_reduce_eq_dof_arg *arg, struct d_ocp_qp_reduce_eq_dof_ws *work);
void d_ocp_qp_restore_eq_dof_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_sol *sol_red, struct d_ocp_qp_sol *sol, struct d_ocp_qp_reduce_eq_dof_arg *arg, struct d_ocp_qp_reduce_eq_dof_ws *work);

void d_cond_qp_cond_seed(struct d_ocp_qp *ocp_qp, struct d_ocp_qp_seed *ocp_seed, struct d_dense_qp_seed *dense_seed, struct d_cond_qp_arg *arg, struct d_cond_qp_ws *ws);
void d_cond_qp_cond_sol(struct d_ocp_qp *ocp_qp, struct d_ocp_qp_sol *ocp_sol, struct d_dense_qp_sol *dense_sol, struct d_cond_qp_arg *arg, struct d_cond_qp_ws *ws);
void d_cond_qp_expand_sol_seed(struct d_ocp_qp *ocp_qp, struct d_ocp_qp_seed *ocp_seed, struct d_dense_qp_sol *dense_sol, struct d_ocp_qp_sol *ocp_sol, struct d_cond_qp_arg *arg, struct d_cond_qp_ws *ws);
void d_part_cond_qp_cond_seed(struct d_ocp_qp *ocp_qp, struct d_ocp_qp_seed *ocp_seed, struct d_ocp_qp_seed *pd_seed, struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws);
void d_part_cond_qp_cond_sol(struct d_ocp_qp *ocp_qp, struct d_ocp_qp *part_dense_qp, struct d_ocp_qp_sol *ocp_sol, struct d_ocp_qp_sol *pd_sol, struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws);
void d_part_cond_qp_expand_sol_seed(struct d_ocp_qp *ocp_qp, struct d_ocp_qp_seed *ocp_seed, struct d_ocp_qp_sol *pd_sol, struct d_ocp_qp_sol *ocp_sol, struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws);

void d_ocp_qp_ipm_sens_frw(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_sol *sens, struct d_ocp_qp_ipm_arg *arg, struct d_ocp_qp_ipm_ws *ws);
void d_ocp_qp_ipm_sens_adj(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_sol *sens, struct d_ocp_qp_ipm_arg *arg, struct d_ocp_qp_ipm_ws *ws);
void d_dense_qp_ipm_sens_frw(struct d_dense_qp *qp, struct d_dense_qp_seed *seed, struct d_dense_qp_sol *sens, struct d_dense_qp_ipm_arg *arg, struct d_dense_qp_ipm_ws *ws);
void d_dense_qp_ipm_sens_adj(struct d_dense_qp *qp, struct d_dense_qp_seed *seed, struct d_dense_qp_sol *sens, struct d_dense_qp_ipm_arg *arg, struct d_dense_qp_ipm_ws *ws);

#ifndef HPIPM_COMPAT_IMPL
/* newer HPIPM passes these values by pointer, value first */
#define d_ocp_qp_reduce_eq_dof_arg_set_alias_unchanged(p, arg) ((arg)->alias_unchanged = *(int *) (p))
#define d_ocp_qp_reduce_eq_dof_arg_set_comp_prim_sol(p, arg) ((arg)->comp_prim_sol = *(int *) (p))
#define d_ocp_qp_reduce_eq_dof_arg_set_comp_dual_sol_eq(p, arg) ((arg)->comp_dual_sol_eq = *(int *) (p))
#define d_ocp_qp_reduce_eq_dof_arg_set_comp_dual_sol_ineq(p, arg) ((arg)->comp_dual_sol_ineq = *(int *) (p))
/* wrappers that remember the condensed QP that belongs to a workspace */
void compat_d_cond_qp_cond(struct d_ocp_qp *, struct d_dense_qp *, struct d_cond_qp_arg *, struct d_cond_qp_ws *);
void compat_d_cond_qp_cond_lhs(struct d_ocp_qp *, struct d_dense_qp *, struct d_cond_qp_arg *, struct d_cond_qp_ws *);
void compat_d_part_cond_qp_cond(struct d_ocp_qp *, struct d_ocp_qp *, struct d_part_cond_qp_arg *, struct d_part_cond_qp_ws *);
void compat_d_part_cond_qp_cond_lhs(struct d_ocp_qp *, struct d_ocp_qp *, struct d_part_cond_qp_arg *, struct d_part_cond_qp_ws *);
void compat_d_part_cond_qp_expand_sol(struct d_ocp_qp *, struct d_ocp_qp_sol *, struct d_ocp_qp_sol *, struct d_part_cond_qp_arg *, struct d_part_cond_qp_ws *);
void compat_d_part_cond_qp_ws_create(struct d_ocp_qp_dim *, int *, struct d_ocp_qp_dim *, struct d_part_cond_qp_arg *, struct d_part_cond_qp_ws *, void *);
void compat_d_ocp_qp_ipm_solve(struct d_ocp_qp *, struct d_ocp_qp_sol *, struct d_ocp_qp_ipm_arg *, struct d_ocp_qp_ipm_ws *);
void compat_d_dense_qp_ipm_solve(struct d_dense_qp *, struct d_dense_qp_sol *, struct d_dense_qp_ipm_arg *, struct d_dense_qp_ipm_ws *);
#define d_cond_qp_cond compat_d_cond_qp_cond
#define d_cond_qp_cond_lhs compat_d_cond_qp_cond_lhs
#define d_part_cond_qp_cond compat_d_part_cond_qp_cond
#define d_part_cond_qp_cond_lhs compat_d_part_cond_qp_cond_lhs
void compat_d_cond_qp_cond_rhs(struct d_ocp_qp *, struct d_dense_qp *, struct d_cond_qp_arg *, struct d_cond_qp_ws *);
void compat_d_part_cond_qp_cond_rhs(struct d_ocp_qp *, struct d_ocp_qp *, struct d_part_cond_qp_arg *, struct d_part_cond_qp_ws *);
#define d_cond_qp_cond_rhs compat_d_cond_qp_cond_rhs
#define d_part_cond_qp_cond_rhs compat_d_part_cond_qp_cond_rhs
#define d_part_cond_qp_expand_sol compat_d_part_cond_qp_expand_sol
#define d_part_cond_qp_ws_create compat_d_part_cond_qp_ws_create
void compat_d_ocp_qp_ipm_arg_set(char *field, void *value, struct d_ocp_qp_ipm_arg *arg);
void compat_d_dense_qp_ipm_arg_set(char *field, void *value, struct d_dense_qp_ipm_arg *arg);
#define d_ocp_qp_ipm_arg_set compat_d_ocp_qp_ipm_arg_set
#define d_dense_qp_ipm_arg_set compat_d_dense_qp_ipm_arg_set
#define d_ocp_qp_ipm_solve compat_d_ocp_qp_ipm_solve
#define d_dense_qp_ipm_solve compat_d_dense_qp_ipm_solve
#endif

/* BLAS semantics of beta == 0 (the C operand is not read): the BLASFEO binary of the CasADi wheel is built for the generic target, whose kernels
 * compute 0*C, so that a NaN in an old result would survive there but not with the targets acados is built for. */
#ifndef HPIPM_COMPAT_IMPL
#include <blasfeo_d_aux.h>
#include <blasfeo_d_blas.h>
void compat_dgemm_nn(int m, int n, int k, double alpha, struct blasfeo_dmat *sA, int ai, int aj, struct blasfeo_dmat *sB, int bi, int bj, double beta, struct blasfeo_dmat *sC, int ci, int cj, struct blasfeo_dmat *sD, int di, int dj);
void compat_dgemm_nt(int m, int n, int k, double alpha, struct blasfeo_dmat *sA, int ai, int aj, struct blasfeo_dmat *sB, int bi, int bj, double beta, struct blasfeo_dmat *sC, int ci, int cj, struct blasfeo_dmat *sD, int di, int dj);
void compat_dgemm_tn(int m, int n, int k, double alpha, struct blasfeo_dmat *sA, int ai, int aj, struct blasfeo_dmat *sB, int bi, int bj, double beta, struct blasfeo_dmat *sC, int ci, int cj, struct blasfeo_dmat *sD, int di, int dj);
void compat_dsyrk_ln(int m, int k, double alpha, struct blasfeo_dmat *sA, int ai, int aj, struct blasfeo_dmat *sB, int bi, int bj, double beta, struct blasfeo_dmat *sC, int ci, int cj, struct blasfeo_dmat *sD, int di, int dj);
void compat_dsyrk_ln_mn(int m, int n, int k, double alpha, struct blasfeo_dmat *sA, int ai, int aj, struct blasfeo_dmat *sB, int bi, int bj, double beta, struct blasfeo_dmat *sC, int ci, int cj, struct blasfeo_dmat *sD, int di, int dj);
void compat_dsyrk_ut(int m, int k, double alpha, struct blasfeo_dmat *sA, int ai, int aj, struct blasfeo_dmat *sB, int bi, int bj, double beta, struct blasfeo_dmat *sC, int ci, int cj, struct blasfeo_dmat *sD, int di, int dj);
void compat_dgemm_nd(int m, int n, double alpha, struct blasfeo_dmat *sA, int ai, int aj, struct blasfeo_dvec *sB, int bi, double beta, struct blasfeo_dmat *sC, int ci, int cj, struct blasfeo_dmat *sD, int di, int dj);
void compat_dgemv_n(int m, int n, double alpha, struct blasfeo_dmat *sA, int ai, int aj, struct blasfeo_dvec *sx, int xi, double beta, struct blasfeo_dvec *sy, int yi, struct blasfeo_dvec *sz, int zi);
void compat_dgemv_t(int m, int n, double alpha, struct blasfeo_dmat *sA, int ai, int aj, struct blasfeo_dvec *sx, int xi, double beta, struct blasfeo_dvec *sy, int yi, struct blasfeo_dvec *sz, int zi);
void compat_dsymv_l(int m, double alpha, struct blasfeo_dmat *sA, int ai, int aj, struct blasfeo_dvec *sx, int xi, double beta, struct blasfeo_dvec *sy, int yi, struct blasfeo_dvec *sz, int zi);
#define blasfeo_dgemm_nn compat_dgemm_nn
#define blasfeo_dgemm_nt compat_dgemm_nt
#define blasfeo_dgemm_tn compat_dgemm_tn
#define blasfeo_dsyrk_ln compat_dsyrk_ln
#define blasfeo_dsyrk_ln_mn compat_dsyrk_ln_mn
#define blasfeo_dsyrk_ut compat_dsyrk_ut
#define blasfeo_dgemm_nd compat_dgemm_nd
#define blasfeo_dgemv_n compat_dgemv_n
#define blasfeo_dgemv_t compat_dgemv_t
#define blasfeo_dsymv_l compat_dsymv_l
#endif
#ifdef __cplusplus
}
#endif
#endif
