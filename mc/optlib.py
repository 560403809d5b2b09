"""Table of the documented solver options: valid values, values outside the documentation, the C option they are forwarded to and the configuration in which
it is used; plus a recorder of the options a generated solver really passes to the acados library."""
import ctypes, os, subprocess, tempfile, struct
import numpy as np

F0 = dict(valid=[0.0, 0.37, 2.5e-7], invalid=[-1e-3, 'x', None, [1.0]])                    # float >= 0
FP = dict(valid=[0.37, 2.5e-7], invalid=[0.0, -1e-3, 'x', None])                           # float > 0
F01 = dict(valid=[0.0, 0.37, 1.0], invalid=[-1e-3, 1.001, 'x', None])                      # float in [0, 1]
O01 = dict(valid=[0.37, 0.9], invalid=[0.0, 1.0, -0.1, 1.5, 'x', None])                    # float in (0, 1)
I0 = dict(valid=[0, 3, 17], invalid=[-1, 1.5, 'x', None])                                  # int >= 0
B = dict(valid=[True, False], invalid=['x', 2, None, 'True'])
B01 = dict(valid=[1, 0], invalid=[2, -1, 'x', None, 0.5])
S = dict(valid=['', 'abc'], invalid=[1, None, 2.0])


def E(*v, bad=()): return dict(valid=list(v), invalid=['NONSENSE', '', 7, *bad])
def I(*v): return dict(valid=list(v), invalid=[min(v) - 1, max(v) + 1, 0.5, 'x', None])


HP, NL = {}, dict(nlp_solver_type='SQP')
FUN = dict(globalization='FUNNEL_L1PEN_LINESEARCH'); MER = dict(globalization='MERIT_BACKTRACKING'); FEA = dict(nlp_solver_type='SQP_WITH_FEASIBLE_QP', globalization='FUNNEL_L1PEN_LINESEARCH'); RTI = dict(nlp_solver_type='SQP_RTI')
EX = dict(hessian_approx='EXACT'); PRO = dict(regularize_method='PROJECT', hessian_approx='EXACT')
SCF = dict(ADAPTIVE_CURRENT_RES_JOINT=0, ADAPTIVE_QPSCALING=1, FIXED_QP_TOL=2)

# name -> (domain, C option or None, C type, configuration)
OPT = {
 'qp_solver': (dict(valid=['PARTIAL_CONDENSING_HPIPM', 'FULL_CONDENSING_HPIPM', 'PARTIAL_CONDENSING_OSQP', 'FULL_CONDENSING_QPOASES', 'PARTIAL_CONDENSING_QPDUNES', 'PARTIAL_CONDENSING_HPMPC', 'FULL_CONDENSING_DAQP', 'PARTIAL_CONDENSING_CLARABEL'], invalid=['HPIPM', 'FULL_CONDENSING_OSQP', '']), None, None, {}),
 'hessian_approx': (E('GAUSS_NEWTON', 'EXACT'), 'exact_hess', None, {}), 'integrator_type': (E('ERK', 'IRK', 'GNSF', 'DISCRETE', 'LIFTED_IRK'), None, None, {}),
 'nlp_solver_type': (E('SQP', 'SQP_RTI', 'DDP', 'SQP_WITH_FEASIBLE_QP'), None, None, {}), 'globalization': (E('FIXED_STEP', 'MERIT_BACKTRACKING', 'FUNNEL_L1PEN_LINESEARCH'), None, None, {}),
 'collocation_type': (E('GAUSS_RADAU_IIA', 'GAUSS_LEGENDRE', 'EXPLICIT_RUNGE_KUTTA'), 'dynamics_collocation_type', dict(GAUSS_LEGENDRE=0, GAUSS_RADAU_IIA=1, EXPLICIT_RUNGE_KUTTA=2), dict(integrator_type='IRK')),
 'regularize_method': (E('NO_REGULARIZE', 'MIRROR', 'PROJECT', 'PROJECT_REDUC_HESS', 'CONVEXIFY', 'GERSHGORIN_LEVENBERG_MARQUARDT'), None, None, {}), 'cost_discretization': (E('EULER', 'INTEGRATOR'), None, None, {}),
 'hpipm_mode': (E('BALANCE', 'SPEED', 'SPEED_ABS', 'ROBUST'), 'qp_hpipm_mode', 'str', {}),
 'globalization_fixed_step_length': (F01, 'globalization_fixed_step_length', 'd', {}), 'globalization_alpha_min': (dict(valid=[0.37, 1e-3], invalid=[]), 'globalization_alpha_min', 'd', MER), 'globalization_alpha_reduction': (dict(valid=[0.37, 0.9], invalid=[]), 'globalization_alpha_reduction', 'd', MER),
 'globalization_line_search_use_sufficient_descent': (B01, 'globalization_line_search_use_sufficient_descent', 'i', MER), 'globalization_use_SOC': (B01, 'globalization_use_SOC', 'i', MER), 'globalization_eps_sufficient_descent': (FP, 'globalization_eps_sufficient_descent', 'd', MER), 'globalization_full_step_dual': (B01, 'globalization_full_step_dual', 'i', MER),
 'globalization_funnel_init_increase_factor': (dict(valid=[1.5, 15.0], invalid=[1.0, 0.5, -2.0]), 'globalization_funnel_init_increase_factor', 'd', FUN), 'globalization_funnel_init_upper_bound': (dict(valid=[0.5, 15.0], invalid=[0.0, -2.0]), 'globalization_funnel_init_upper_bound', 'd', FUN),
 'globalization_funnel_sufficient_decrease_factor': (O01, 'globalization_funnel_sufficient_decrease_factor', 'd', FUN), 'globalization_funnel_kappa': (O01, 'globalization_funnel_kappa', 'd', FUN), 'globalization_funnel_fraction_switching_condition': (O01, None, None, FUN),
 'globalization_funnel_initial_penalty_parameter': (F01, 'globalization_funnel_initial_penalty_parameter', 'd', FUN), 'globalization_funnel_use_merit_fun_only': (B, 'globalization_funnel_use_merit_fun_only', 'b', FUN),
 'qpscaling_ub_max_abs_eig': (F0, 'qpscaling_ub_max_abs_eig', 'd', {}), 'qpscaling_lb_norm_inf_grad_obj': (F0, 'qpscaling_lb_norm_inf_grad_obj', 'd', {}), 'qpscaling_scale_objective': (E('NO_OBJECTIVE_SCALING', 'OBJECTIVE_GERSHGORIN'), 'qpscaling_scale_objective', dict(NO_OBJECTIVE_SCALING=0, OBJECTIVE_GERSHGORIN=1), {}),
 'qpscaling_scale_constraints': (E('NO_CONSTRAINT_SCALING', 'INF_NORM'), 'qpscaling_scale_constraints', dict(NO_CONSTRAINT_SCALING=0, INF_NORM=1), {}), 'nlp_qp_tol_strategy': (E('FIXED_QP_TOL', 'ADAPTIVE_CURRENT_RES_JOINT', 'ADAPTIVE_QPSCALING'), 'nlp_qp_tol_strategy', 'enum', {}),
 'nlp_qp_tol_reduction_factor': (F01, 'nlp_qp_tol_reduction_factor', 'd', {}), 'nlp_qp_tol_safety_factor': (F01, 'nlp_qp_tol_safety_factor', 'd', {}), **{f'nlp_qp_tol_min_{k}': (FP, f'nlp_qp_tol_min_{k}', 'd', {}) for k in ('stat', 'eq', 'ineq', 'comp')},
 'nlp_solver_warm_start_first_qp': (B, 'warm_start_first_qp', 'i', {}), 'nlp_solver_warm_start_first_qp_from_nlp': (B, 'warm_start_first_qp_from_nlp', 'i', {}), 'levenberg_marquardt': (F0, 'levenberg_marquardt', 'd', {}),
 'sim_method_num_stages': (dict(valid=[1, 2, 3, 4], invalid=['x', None]), 'dynamics_num_stages', 'i', dict(integrator_type='IRK')), 'sim_method_num_steps': (dict(valid=[1, 2, 5], invalid=['x', None]), 'dynamics_num_steps', 'i', {}), 'sim_method_jac_reuse': (dict(valid=[0, 1], invalid=['x', None]), 'dynamics_jac_reuse', 'b', dict(integrator_type='IRK')),
 'sim_method_newton_iter': (dict(valid=[1, 3, 17], invalid=[1.5, 'x', None]), 'dynamics_newton_iter', 'i', dict(integrator_type='IRK')), 'sim_method_newton_tol': (F0, 'dynamics_newton_tol', 'd', dict(integrator_type='IRK')),
 **{f'qp_solver_tol_{k}': (FP, f'qp_tol_{k}', 'd', {}) for k in ('stat', 'eq', 'ineq', 'comp')}, **{f'nlp_solver_tol_{k}': (FP, f'tol_{k}', 'd', {}) for k in ('stat', 'eq', 'ineq', 'comp')}, 'nlp_solver_tol_min_step_norm': (F0, 'tol_min_step_norm', 'd', {}),
 'qp_solver_cond_N': (dict(valid=[1, 2], invalid=[-1, 1.5, 'x']), 'qp_cond_N', 'i', {}), 'qp_solver_warm_start': (I(0, 1, 2, 3), 'qp_warm_start', 'i', {}), 'qp_solver_cond_ric_alg': (B01, 'qp_cond_ric_alg', 'i', {}), 'qp_solver_ric_alg': (B01, 'qp_ric_alg', 'i', {}),
 'qp_solver_mu0': (dict(valid=[0.37, 2.5e3], invalid=[-1e-3, 'x', None]), 'qp_mu0', 'd', {}), 'qp_solver_t0_init': (I(0, 1, 2), 'qp_t0_init', 'i', {}), 'tau_min': (dict(valid=[0.37, 2.5e-7], invalid=[-1e-3, 'x', None]), 'tau_min', 'd', dict()), 'solution_sens_qp_t_lam_min': (F0, 'solution_sens_qp_t_lam_min', 'd', {}),
 'qp_solver_iter_max': (I0, 'qp_iter_max', 'i', {}), 'as_rti_iter': (I0, 'as_rti_iter', 'i', RTI), 'as_rti_level': (I(0, 1, 2, 3, 4), 'as_rti_level', 'i', RTI), 'rti_log_residuals': (B01, 'rti_log_residuals', 'i', RTI), 'rti_log_only_available_residuals': (B01, 'rti_log_only_available_residuals', 'i', RTI),
 'with_anderson_acceleration': (B, 'with_anderson_acceleration', 'b', {}), 'anderson_activation_threshold': (dict(valid=[0.37, 10.0], invalid=['x', None]), 'anderson_activation_threshold', 'd', {}),
 'with_adaptive_levenberg_marquardt': (B, 'with_adaptive_levenberg_marquardt', 'b', {}), 'adaptive_levenberg_marquardt_lam': (dict(valid=[1.0, 7.5], invalid=[0.9, -1.0, 'x', None]), 'adaptive_levenberg_marquardt_lam', 'd', {}), **{f'adaptive_levenberg_marquardt_{k}': (F0, f'adaptive_levenberg_marquardt_{k}', 'd', {}) for k in ('mu_min', 'mu0', 'obj_scalar')},
 'log_primal_step_norm': (B, 'log_primal_step_norm', 'i', {}), 'log_dual_step_norm': (B, 'log_dual_step_norm', 'i', {}), 'store_iterates': (B, 'store_iterates', 'b', {}), 'timeout_max_time': (dict(valid=[0.37, 50.0], invalid=[-1.0, 'x', None]), 'timeout_max_time', 'd', {}),
 'timeout_heuristic': (E('ZERO', 'MAX_CALL', 'MAX_OVERALL', 'LAST', 'AVERAGE'), 'timeout_heuristic', 'enum', dict(timeout_max_time=10.0)),
 'reg_epsilon': (F0, 'reg_epsilon', 'd', PRO), 'reg_max_cond_block': (dict(valid=[1.0, 1e5], invalid=[0.5, -1.0, 'x', None]), 'reg_max_cond_block', 'd', PRO), 'reg_adaptive_eps': (B, 'reg_adaptive_eps', 'b', PRO), 'reg_min_epsilon': (F0, 'reg_min_epsilon', 'd', PRO),
 'eval_residual_at_max_iter': (B, 'eval_residual_at_max_iter', 'b', {}), 'use_constraint_hessian_in_feas_qp': (B, 'use_constraint_hessian_in_feas_qp', 'b', FEA), 'byrd_omojokon_slack_relaxation_factor': (dict(valid=[1.0, 1.5], invalid=[0.9, -1.0, 'x', None]), 'byrd_omojokon_slack_relaxation_factor', 'd', FEA),
 'search_direction_mode': (E('NOMINAL_QP', 'BYRD_OMOJOKUN', 'FEASIBILITY_QP'), 'search_direction_mode', 'enum', FEA), 'allow_direction_mode_switch_to_nominal': (B, 'allow_direction_mode_switch_to_nominal', 'b', FEA), 'nlp_solver_ext_qp_res': (B01, 'ext_qp_res', 'i', {}), 'nlp_solver_max_iter': (I0, 'max_iter', 'i', {}), 'print_level': (dict(valid=[0], invalid=[-1, 1.5, 'x', None]), 'print_level', 'i', {}),
 'exact_hess_constr': (B01, 'exact_hess_constr', 'i', EX), 'exact_hess_cost': (B01, 'exact_hess_cost', 'i', EX), 'exact_hess_dyn': (B01, 'exact_hess_dyn', 'i', EX), 'fixed_hess': (B01, 'fixed_hess', 'i', {}), 'ext_cost_num_hess': (B01, 'cost_numerical_hessian', 'i', 'EXT'),
 'model_external_shared_lib_dir': (S, None, None, {}), 'custom_update_copy': (B, None, None, {}), 'with_batch_functionality': (B, None, None, {}),
}

REC_C = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <string.h>
static void *h; static int on, n; static struct { char f[64]; int stage; unsigned char v[8]; char s[32]; } L[8192];
int rec_init(const char *lib) { h = dlopen(lib, RTLD_NOW | RTLD_NOLOAD); if (!h) h = dlopen(lib, RTLD_NOW); return h != 0; }
void rec_on(int o) { on = o; if (o) n = 0; }
int rec_n(void) { return n; }
const char *rec_f(int i) { return L[i].f; } int rec_stage(int i) { return L[i].stage; } void rec_v(int i, unsigned char *v) { memcpy(v, L[i].v, 8); } const char *rec_s(int i) { return L[i].s; }
static void rec(int stage, const char *f, void *v) {
    if (!on || n >= 8192) return;
    snprintf(L[n].f, 64, "%s", f); L[n].stage = stage; memcpy(L[n].v, v, 8); L[n].s[0] = 0;
    if (!strcmp(f, "qp_hpipm_mode")) snprintf(L[n].s, 32, "%s", (char *) v);
    n++;
}
void ocp_nlp_solver_opts_set(void *c, void *o, const char *f, void *v) { static void (*r)(void *, void *, const char *, void *); if (!r) r = dlsym(h, "ocp_nlp_solver_opts_set"); rec(-1, f, v); r(c, o, f, v); }
void ocp_nlp_solver_opts_set_at_stage(void *c, void *o, int s, const char *f, void *v) { static void (*r)(void *, void *, int, const char *, void *); if (!r) r = dlsym(h, "ocp_nlp_solver_opts_set_at_stage"); rec(s, f, v); r(c, o, s, f, v); }
'''


class Recorder:
    """interposes the two option setters of libacados for all libraries loaded afterwards"""
    def __init__(self, prefix, tmp):
        src = os.path.join(tmp, 'rec.c'); so = os.path.join(tmp, 'librec.so'); open(src, 'w').write(REC_C)
        subprocess.check_call(['gcc', '-shared', '-fPIC', '-O1', '-w', src, '-o', so, '-ldl'])
        self.l = ctypes.CDLL(so, ctypes.RTLD_GLOBAL); self.l.rec_f.restype = self.l.rec_s.restype = ctypes.c_char_p
        assert self.l.rec_init(os.path.join(prefix, 'lib', 'libacados.so').encode())

    def __enter__(self): self.l.rec_on(1); return self

    def __exit__(self, *a):
        self.l.rec_on(0); self.calls = []; b = (ctypes.c_ubyte * 8)()
        for i in range(self.l.rec_n()):
            self.l.rec_v(i, b); self.calls.append((self.l.rec_f(i).decode(), self.l.rec_stage(i), bytes(b), self.l.rec_s(i).decode()))

    def last(self, field, typ, stage=None):
        """last value given to a field (at a stage), or None"""
        r = None
        for f, s, v, t in self.calls:
            if f == field and (stage is None or s == stage): r = {'d': lambda: struct.unpack('d', v)[0], 'i': lambda: struct.unpack('i', v[:4])[0], 'b': lambda: bool(v[0]), 'str': lambda: t, 'raw': lambda: v}[typ]()
        return r
