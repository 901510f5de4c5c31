R = {}
def r(name, props, *edits):
    R[name] = (props.split(','), [tuple(edits[i:i+3]) for i in range(0, len(edits), 3)])
N = 'src/nesta.c'; Q = 'src/l1qc_newton.c'; D1 = 'src/dct1.c'; D2 = 'src/dct2.c'; DT = 'src/dct_transforms.c'; TVF = 'src/dct_tv_transforms.c'; MT = 'src/matrix_transforms.c'; OC = 'src/l1qc_dct.c'; JS = 'src/json_utils.c'
# ---------------------------------------------------------------- nesta.c
r('nesta-fifo-idx', 'C14,C17,C18', N, '''  if (fifo->next + 1 > fifo->f_vals + L1C_NESTA_NMEAN - 1) {
    fifo->next = fifo->f_vals;
  } else {
    fifo->next++;
  }
''', '''  fifo->next++;
  if (fifo->next == fifo->f_vals + L1C_NESTA_NMEAN) {
    fifo->next = fifo->f_vals;
  }
''')
r('nesta-fifo-mod', 'C14,C17', N, '''  *fifo->next = fval;

  if (fifo->next + 1 > fifo->f_vals + L1C_NESTA_NMEAN - 1) {
    fifo->next = fifo->f_vals;
  } else {
    fifo->next++;
  }
''', '''  int pos = (int)(fifo->next - fifo->f_vals);
  fifo->f_vals[pos] = fval;
  pos = (pos + 1) % L1C_NESTA_NMEAN;
  fifo->next = fifo->f_vals + pos;
''')
r('nesta-new-calloc', 'C14,C17,C18', N, '''  double* fvals = malloc(sizeof(double) * L1C_NESTA_NMEAN);

  for (int i = 0; fvals && i < L1C_NESTA_NMEAN; i++) {
    fvals[i] = 0.0;
  }
''', '''  double* fvals = calloc(L1C_NESTA_NMEAN, sizeof(double));
''')
r('nesta-project', 'C13,C14,C17', N, '''  a0 = l1c_dnrm2_err(n, NP->b, Aq);
  a0 = Lmu * (a0 / NP->sigma - 1.0);

  lambda = max(0, a0);

  a1 = lambda / (Lmu + lambda);
''', '''  const double resid = l1c_dnrm2_err(n, NP->b, Aq);
  a0 = Lmu * (resid / NP->sigma - 1.0);

  if (a0 > 0) {
    lambda = a0;
  }
  a1 = lambda / (lambda + Lmu);
''')
r('nesta-project2', 'C13,C14,C17', N, '''  cblas_daxpy(m, (lambda / Lmu) * (1.0 - a1), NP->Atb, 1, vk, 1);
  cblas_daxpy(m, -a1, AtAq, 1, vk, 1);
''', '''  const double c = (lambda / Lmu) * (1.0 - a1);
  for (l1c_int i = 0; i < m; i++) {
    vk[i] = vk[i] - a1 * AtAq[i] + c * NP->Atb[i];
  }
''')
r('nesta-project-early', 'C13,C14', N, '''  a1 = lambda / (Lmu + lambda);

  /* We start with vk = q''', '''  if (lambda == 0) {
    return;
  }
  a1 = lambda / (Lmu + lambda);

  /* We start with vk = q''')
r('nesta-feval', 'C13,C14,C17', N, '''  for (int i = 0; i < p; i++) {
    u[i] = Wtxk[i] / max(NP->mu_j, fabs(Wtxk[i]));
  }

  nrm_u2 = cblas_dnrm2(p, u, 1);
  nrm_u2 *= nrm_u2;

  NP->fx = cblas_ddot(p, u, 1, Wtxk, 1) - 0.5 * NP->mu_j * nrm_u2;
''', '''  const double mu = NP->mu_j;
  for (int i = 0; i < p; i++) {
    double den = fabs(Wtxk[i]);
    if (den < mu) {
      den = mu;
    }
    u[i] = Wtxk[i] / den;
  }

  nrm_u2 = cblas_ddot(p, u, 1, u, 1);
  NP->fx = cblas_ddot(p, u, 1, Wtxk, 1) - 0.5 * mu * nrm_u2;
''')
r('nesta-feval-acc', 'C13,C17', N, '''  for (int i = 0; i < p; i++) {
    u[i] = Wtxk[i] / max(NP->mu_j, fabs(Wtxk[i]));
  }

  nrm_u2 = cblas_dnrm2(p, u, 1);
  nrm_u2 *= nrm_u2;

  NP->fx = cblas_ddot(p, u, 1, Wtxk, 1) - 0.5 * NP->mu_j * nrm_u2;
''', '''  double uw = 0;
  for (int i = 0; i < p; i++) {
    u[i] = Wtxk[i] / max(NP->mu_j, fabs(Wtxk[i]));
    uw += u[i] * Wtxk[i];
    nrm_u2 += u[i] * u[i];
  }

  NP->fx = uw - 0.5 * NP->mu_j * nrm_u2;
''')
r('nesta-setup', 'C13,C14,C17', N, '''  NP->ax_funs.Wtx(NP->xo, Wtx_ref);
  l1c_abs_vec(NP->p, Wtx_ref, Wtx_ref);
  double mu0 = 0.9 * l1c_max_vec(NP->p, Wtx_ref);
''', '''  ax_funs.Wtx(NP->xo, Wtx_ref);
  double wmax = fabs(Wtx_ref[0]);
  for (int i = 1; i < NP->p; i++) {
    if (fabs(Wtx_ref[i]) > wmax) {
      wmax = fabs(Wtx_ref[i]);
    }
  }
  double mu0 = 0.9 * wmax;
''')
r('nesta-setup-pow', 'C13', N, '''  *beta_mu = exp(log((mu_final / mu0)) / (double)opts->n_continue);
  *beta_tol = exp(log((tol_final / tol0)) / (double)opts->n_continue);
''', '''  const double n_cont = (double)opts->n_continue;
  *beta_tol = exp(log(tol_final / tol0) / n_cont);
  *beta_mu = exp(log(mu_final / mu0) / n_cont);
''')
r('nesta-setup-order', 'C13,C14', N, '''  double L = 0;
  if (!ax_funs.Wz || !ax_funs.Wtx || !ax_funs.Rx || !ax_funs.Rty) {
    return L1C_INCONSISTENT_ARGUMENTS;
  }
  L = ax_funs.norm_W * ax_funs.norm_W;
''', '''  int have_ops = ax_funs.Wz && ax_funs.Wtx && ax_funs.Rx && ax_funs.Rty;
  if (!have_ops) {
    return L1C_INCONSISTENT_ARGUMENTS;
  }
  const double norm = ax_funs.norm_W;
  double L = norm * norm;
''')
r('nesta-drv-goto', 'C14,C17,C18', N, '''  status += l1c_nesta_setup(NP, &beta_mu, &beta_tol, b, ax_funs, &opts);
  if (status) {
    l1c_free_nesta_problem(NP);
    return status;
  }

  struct l1c_fmean_fifo fbar_fifo = _l1c_new_fmean_fifo();
  if (!fbar_fifo.f_vals) {
    l1c_free_nesta_problem(NP);
    return L1C_OUT_OF_MEMORY;
  }
''', '''  struct l1c_fmean_fifo fbar_fifo = {0};
  status = l1c_nesta_setup(NP, &beta_mu, &beta_tol, b, ax_funs, &opts);
  if (status) {
    goto out;
  }

  fbar_fifo = _l1c_new_fmean_fifo();
  if (!fbar_fifo.f_vals) {
    status = L1C_OUT_OF_MEMORY;
    goto out;
  }
''', N, '''  cblas_dcopy(m, NP->xk, 1, xk, 1);
  l1c_free_nesta_problem(NP);
''', '''  cblas_dcopy(m, NP->xk, 1, xk, 1);
out:
  l1c_free_nesta_problem(NP);
''')
r('nesta-drv-order', 'C14,C17', N, '''      l1c_nesta_project(NP, NP->xk, NP->gradf, NP->yk);
''', '''''', N, '''      cblas_daxpy(m, alpha_k, NP->gradf, 1, NP->gradf_sum, 1);

      /* Projection for zk */
      l1c_nesta_project(NP, NP->xo, NP->gradf_sum, NP->zk);
''', '''      cblas_daxpy(m, alpha_k, NP->gradf, 1, NP->gradf_sum, 1);

      /* Projection for zk */
      l1c_nesta_project(NP, NP->xo, NP->gradf_sum, NP->zk);
      l1c_nesta_project(NP, NP->xk, NP->gradf, NP->yk);
''')
r('nesta-drv-while', 'C14,C17', N, '''    for (int k = 0; k < L1C_NESTA_MAX_INNER_ITER; k++) {
      l1c_nesta_feval(NP);
''', '''    int k = 0;
    while (k < L1C_NESTA_MAX_INNER_ITER) {
      l1c_nesta_feval(NP);
''', N, '''        break;
      }
    } /* Inner iter*/
''', '''        break;
      }
      ++k;
    } /* Inner iter*/
''')
r('nesta-drv-init', 'C14,C17', N, '''    for (int i = 0; i < L1C_NESTA_NMEAN; i++) {
      fbar_fifo.f_vals[i] = 0.0; /* from malloc: not aligned as l1c_init_vec assumes */
    }
    fbar_fifo.next = fbar_fifo.f_vals;
    fbar_fifo.n_total = 0;

    l1c_init_vec(m, NP->gradf_sum, 0.0);
''', '''    l1c_init_vec(m, NP->gradf_sum, 0.0);
    fbar_fifo.n_total = 0;
    fbar_fifo.next = fbar_fifo.f_vals;
    double* cell = fbar_fifo.f_vals;
    for (int i = 0; i < L1C_NESTA_NMEAN; i++) {
      *cell++ = 0.0;
    }
''')
r('nesta-drv-xk', 'C14,C17', N, '''      l1c_daxpby_z(m, tau_k, NP->zk, (1 - tau_k), NP->yk, NP->xk);
''', '''      for (l1c_int i = 0; i < m; i++) {
        NP->xk[i] = NP->yk[i] + tau_k * (NP->zk[i] - NP->yk[i]);
      }
''')
r('nesta-drv-helper', 'C14,C17,C18', N, '''/** @ingroup nesta
 * Solves the problem''', '''static void nesta_step(l1c_NestaProb* NP, int k) {
  const double alpha_k = 0.5 * (double)(k + 1);
  const double tau_k = 2.0 / (double)(k + 3);

  l1c_nesta_feval(NP);
  l1c_nesta_project(NP, NP->xk, NP->gradf, NP->yk);
  cblas_daxpy(NP->m, alpha_k, NP->gradf, 1, NP->gradf_sum, 1);
  l1c_nesta_project(NP, NP->xo, NP->gradf_sum, NP->zk);
  l1c_daxpby_z(NP->m, tau_k, NP->zk, (1 - tau_k), NP->yk, NP->xk);
}

/** @ingroup nesta
 * Solves the problem''', N, '''      l1c_nesta_feval(NP);

      /* ----------------- Update yk ------------------------- */
      l1c_nesta_project(NP, NP->xk, NP->gradf, NP->yk);

      /* From paragraph right before (2.3). Reference [43,50] proves convergence
         for these alpha_k, tau_k
      */
      alpha_k = 0.5 * (double)(k + 1);
      tau_k = 2.0 / (double)(k + 3);

      /* Update cummulative, weighted sum of gradients (3.8)-(3.12).*/
      cblas_daxpy(m, alpha_k, NP->gradf, 1, NP->gradf_sum, 1);

      /* Projection for zk */
      l1c_nesta_project(NP, NP->xo, NP->gradf_sum, NP->zk);

      /* ----------------- Update xk ----------------
         xk = tau_k * zk + (1-tau_k) * yk  */
      l1c_daxpby_z(m, tau_k, NP->zk, (1 - tau_k), NP->yk, NP->xk);
''', '''      nesta_step(NP, k);
''', N, '''  double alpha_k = 0, tau_k = 0;
  double fbar''', '''  double fbar''')
r('nesta-free', 'C14,C17,C18', N, '''  if (NP) {
    l1c_free_double(NP->xo);''', '''  if (!NP) {
    return;
  }
  {
    l1c_free_double(NP->xo);''')
# ---------------------------------------------------------------- l1qc_newton.c
r('qc-feval', 'C15,C16,C17', Q, '''  Prb->ax_funs.Ax(x, Prb->r);
  cblas_daxpy(n, -1.0, Prb->b, 1, Prb->r, 1);

  /* fu1 = x - u */
  l1c_daxpy_z(m, -1.0, u, x, Prb->fu1);
  /* fu2 = -x - u */
  l1c_daxpby_z(m, -1.0, x, -1.0, u, Prb->fu2);

  Prb->fe_val = 0.5 * (cblas_ddot(n, Prb->r, 1, Prb->r, 1) - epsilon * epsilon);

  a1 = vcl_logsum''', '''  for (l1c_int i = 0; i < m; i++) {
    Prb->fu1[i] = x[i] - u[i];
    Prb->fu2[i] = -x[i] - u[i];
  }

  Prb->ax_funs.Ax(x, Prb->r);
  cblas_daxpy(n, -1.0, Prb->b, 1, Prb->r, 1);
  double rr = cblas_ddot(n, Prb->r, 1, Prb->r, 1);
  Prb->fe_val = 0.5 * (rr - epsilon * epsilon);

  a1 = vcl_logsum''')
r('qc-feval-f', 'C15,C16', Q, '''  Prb->f_val = vcl_sum(m, u) - (1.0 / Prb->tau) * (a1 + a2 + a3);

  return Prb->f_val;''', '''  const double barrier = a1 + a2 + a3;
  const double f = vcl_sum(m, u) - barrier / Prb->tau;
  Prb->f_val = f;
  return f;''')
r('qc-feval-log', 'C15,C16,C17', Q, '''  a1 = vcl_logsum(m, -1.0, Prb->fu1);
  a2 = vcl_logsum(m, -1.0, Prb->fu2);
''', '''  a1 = l1c_dlogsum(m, -1.0, Prb->fu1);
  for (l1c_int i = 0; i < m; i++) {
    a2 += log(-Prb->fu2[i]);
  }
''')
r('qc-h11', 'C15,C17', Q, '''  Hess_data h11p_data = *((Hess_data*)hess_data_in);
  double atr_dot_z_fe = 0.0;

  atr_dot_z_fe = cblas_ddot(m, h11p_data.atr, 1, z, 1);
  atr_dot_z_fe = atr_dot_z_fe * h11p_data.one_by_fe_sqrd; // 1/fe^2*(atr'*z)

  // h11pfun = @(z) sigx.*z - (1/fe)*At(A(z)) + 1/fe^2*(atr'*z)*atr;
  h11p_data.AtAx(z, y);
  l1c_daxpby(m, atr_dot_z_fe, h11p_data.atr, -h11p_data.one_by_fe, y);
  vcl_dxMy_pz(m, h11p_data.sigx, z, y);''', '''  Hess_data* h = (Hess_data*)hess_data_in;
  const double c = h->one_by_fe_sqrd * cblas_ddot(m, z, 1, h->atr, 1);

  h->AtAx(z, y);
  for (l1c_int i = 0; i < m; i++) {
    y[i] = c * h->atr[i] - h->one_by_fe * y[i] + h->sigx[i] * z[i];
  }''')
r('qc-hess', 'C15,C17,C19', Q, '''    one_by_fe_Atr = (1.0 / fe) * atr[i];
''', '''    one_by_fe_Atr = atr[i] / fe;
''', Q, '''    sig11 = one_by_fu1 * one_by_fu1 + one_by_fu2 * one_by_fu2;
    sig12 = -one_by_fu1 * one_by_fu1 + one_by_fu2 * one_by_fu2;
''', '''    double a = one_by_fu1 * one_by_fu1, b = one_by_fu2 * one_by_fu2;
    sig11 = a + b;
    sig12 = b - a;
''')
r('qc-hess-local', 'C15,C17,C19', Q, '''#pragma omp parallel for private(                                                      \\
    one_by_fu1, one_by_fu2, one_by_fe_Atr, ntgz, ntgu, sig11, sig12)
  for (i = 0; i < Prb->m; i++) {
''', '''  const l1c_int m = Prb->m;
  double* grad_x = Prb->gradf;
  double* grad_u = Prb->gradf + m;
  for (i = 0; i < m; i++) {
''', Q, '''    Prb->gradf[i] = mone_by_tau * ntgz;
    Prb->gradf[i + Prb->m] = mone_by_tau * ntgu;
''', '''    grad_x[i] = mone_by_tau * ntgz;
    grad_u[i] = mone_by_tau * ntgu;
''')
r('qc-hess-split', 'C15,C17,C19', Q, '''    sigx[i] = sig11 - (sig12 * sig12) / sig11;
    // w1p = ntgz - sig12./sig11.*ntgu;
    Prb->w1p[i] = ntgz - (sig12 / sig11) * ntgu;

    Prb->sig11[i] = sig11;
    Prb->sig12[i] = sig12;
    Prb->ntgu[i] = ntgu;
  }''', '''    // w1p = ntgz - sig12./sig11.*ntgu;
    Prb->w1p[i] = ntgz - (sig12 / sig11) * ntgu;

    Prb->sig11[i] = sig11;
    Prb->sig12[i] = sig12;
    Prb->ntgu[i] = ntgu;
  }
  for (i = 0; i < Prb->m; i++) {
    sigx[i] = Prb->sig11[i] - (Prb->sig12[i] * Prb->sig12[i]) / Prb->sig11[i];
  }''')
r('qc-du', 'C15,C16,C17', Q, '''    Prb->du[i] = (1.0 / Prb->sig11[i]) * Prb->ntgu[i] -
                 (Prb->sig12[i] / Prb->sig11[i]) * Prb->dx[i];''', '''    Prb->du[i] = (Prb->ntgu[i] - Prb->sig12[i] * Prb->dx[i]) / Prb->sig11[i];''')
r('qc-dd-status', 'C15,C16', Q, '''  if (cg_result->cgres > 0.5) {
    return L1C_CGSOLVE_FAILURE;
  }

#pragma omp parallel for
  for (i = 0; i < Prb->m; i++) {
    Prb->du[i] = (1.0 / Prb->sig11[i]) * Prb->ntgu[i] -
                 (Prb->sig12[i] / Prb->sig11[i]) * Prb->dx[i];
  }

  return 0;''', '''  int status = L1C_CGSOLVE_FAILURE;
  if (!(cg_result->cgres > 0.5)) {
    double *dx = Prb->dx, *du = Prb->du;
#pragma omp parallel for
    for (i = 0; i < Prb->m; i++) {
      du[i] = (1.0 / Prb->sig11[i]) * Prb->ntgu[i] -
              (Prb->sig12[i] / Prb->sig11[i]) * dx[i];
    }
    status = 0;
  }

  return status;''')
r('qc-step-loop', 'C16,C17', Q, '''  min_u1 = INFINITY;
  for (i = 0; i < m; i++) {
    if (!(Prb->dx[i] - Prb->du[i] > 0)) {
      continue;
    } else {
      min_u1 = min(min_u1, -Prb->fu1[i] / (Prb->dx[i] - Prb->du[i]));
    }
  }
  min_u2 = INFINITY;
  for (i = 0; i < m; i++) {
    if (!(-Prb->dx[i] - Prb->du[i] > 0)) {
      continue;
    } else {
      min_u2 = min(min_u2, -Prb->fu2[i] / (-Prb->dx[i] - Prb->du[i]));
    }
  }
''', '''  min_u1 = INFINITY;
  min_u2 = INFINITY;
  for (i = 0; i < m; i++) {
    const double d1 = Prb->dx[i] - Prb->du[i];
    const double d2 = -Prb->dx[i] - Prb->du[i];
    if (d1 > 0) {
      min_u1 = min(min_u1, -Prb->fu1[i] / d1);
    }
    if (d2 > 0) {
      min_u2 = min(min_u2, -Prb->fu2[i] / d2);
    }
  }
''')
r('qc-step-one', 'C16,C17', Q, '''  min_u1 = INFINITY;
  for (i = 0; i < m; i++) {
    if (!(Prb->dx[i] - Prb->du[i] > 0)) {
      continue;
    } else {
      min_u1 = min(min_u1, -Prb->fu1[i] / (Prb->dx[i] - Prb->du[i]));
    }
  }
  min_u2 = INFINITY;
  for (i = 0; i < m; i++) {
    if (!(-Prb->dx[i] - Prb->du[i] > 0)) {
      continue;
    } else {
      min_u2 = min(min_u2, -Prb->fu2[i] / (-Prb->dx[i] - Prb->du[i]));
    }
  }

  smax = min(min_u1, min_u2);
  smax = min(smax, root);
  return min(1.0, smax) * 0.99;''', '''  (void)min_u1;
  (void)min_u2;
  smax = root < 1.0 ? root : 1.0;
  for (i = 0; i < m; i++) {
    double d = Prb->dx[i] - Prb->du[i];
    if (d > 0 && -Prb->fu1[i] / d < smax) {
      smax = -Prb->fu1[i] / d;
    }
    d = -Prb->dx[i] - Prb->du[i];
    if (d > 0 && -Prb->fu2[i] / d < smax) {
      smax = -Prb->fu2[i] / d;
    }
  }
  return smax * 0.99;''')
r('qc-step-helper', 'C16,C17', Q, '''double _l1c_l1qc_find_max_step(l1c_l1qcProb* Prb) {
''', '''static double ratio_test(l1c_int m, double sgn, double* dx, double* du, double* f) {
  double best = INFINITY;
  for (l1c_int i = 0; i < m; i++) {
    double slope = sgn * dx[i] - du[i];
    if (slope > 0) {
      best = min(best, -f[i] / slope);
    }
  }
  return best;
}

double _l1c_l1qc_find_max_step(l1c_l1qcProb* Prb) {
''', Q, '''  min_u1 = INFINITY;
  for (i = 0; i < m; i++) {
    if (!(Prb->dx[i] - Prb->du[i] > 0)) {
      continue;
    } else {
      min_u1 = min(min_u1, -Prb->fu1[i] / (Prb->dx[i] - Prb->du[i]));
    }
  }
  min_u2 = INFINITY;
  for (i = 0; i < m; i++) {
    if (!(-Prb->dx[i] - Prb->du[i] > 0)) {
      continue;
    } else {
      min_u2 = min(min_u2, -Prb->fu2[i] / (-Prb->dx[i] - Prb->du[i]));
    }
  }
''', '''  (void)i;
  min_u1 = ratio_test(m, 1.0, Prb->dx, Prb->du, Prb->fu1);
  min_u2 = ratio_test(m, -1.0, Prb->dx, Prb->du, Prb->fu2);
''')
r('qc-init', 'C15,C16,C17', Q, '''  x_max = -INFINITY;
  for (i = 0; i < m; i++) {
    x_max = max(x_max, fabs(x[i]));
  }
  for (i = 0; i < m; i++) {
    u[i] = 0.95 * fabs(x[i]) + 0.10 * x_max;
  }
''', '''  x_max = 0.0;
  for (i = 0; i < m; i++) {
    u[i] = fabs(x[i]);
    if (u[i] > x_max) {
      x_max = u[i];
    }
  }
  for (i = 0; i < m; i++) {
    u[i] = 0.95 * u[i] + 0.10 * x_max;
  }
''')
r('qc-init2', 'C15,C16,C17', Q, '''  x_max = -INFINITY;
  for (i = 0; i < m; i++) {
    x_max = max(x_max, fabs(x[i]));
  }
''', '''  l1c_abs_vec(m, x, u);
  x_max = l1c_max_vec(m, u);
''', Q, '''  tmp = l1c_dnorm1(m, x);
  tmp = (double)(2 * m + 1) / tmp;
  params->tau = max(tmp, 1);
''', '''  tmp = (double)(2 * m + 1) / l1c_dnorm1(m, x);
  if (tmp < 1) {
    tmp = 1;
  }
  params->tau = tmp;
''')
r('qc-feas', 'C16,C17', Q, '''  double tmp = cblas_dnrm2(Prb->n, DWORK, 1) - epsilon;
  if (tmp > 0) {
    /* Using minimum-2 norm  x0 = At*inv(AAt)*y.') as they
       will require updates to cgsolve.    */
    return L1C_INFEASIBLE_START;
  } else
    return 0;''', '''  const double res = cblas_dnrm2(Prb->n, DWORK, 1);
  return res > epsilon ? L1C_INFEASIBLE_START : 0;''')
r('qc-new', 'C15,C17,C18', Q, '''  *Prb = (l1c_l1qcProb){.m = 0,
                        .n = 0,
                        .b = NULL,
                        .tau = 0,
                        .epsilon = 0,
                        .r = NULL,
                        .fu1 = NULL,
                        .fu2 = NULL,
                        .f_val = 0,
                        .fe_val = 0,
                        .w1p = NULL,
                        .dx = NULL,
                        .du = NULL,
                        .sig11 = NULL,
                        .sig12 = NULL,
                        .ntgu = NULL,
                        .gradf = NULL,
                        .DWORK7 = NULL};
''', '''  *Prb = (l1c_l1qcProb){0};
''', Q, '''    return L1C_OUT_OF_MEMORY;
  }

  Prb->ax_funs = ax_funs;
  return 0;''', '''    return L1C_OUT_OF_MEMORY;
  }
  return 0;''', Q, '''  Prb->m = m;
  Prb->n = n;
''', '''  Prb->ax_funs = ax_funs;
  Prb->n = n;
  Prb->m = m;
''')
r('qc-drv-while', 'C16,C17,C18', Q, '''  for (lb_iter = 1; lb_iter <= params.lbiter; lb_iter++) {
''', '''  lb_iter = 0;
  while (lb_iter < params.lbiter) {
    lb_iter++;
''')
r('qc-drv-dot', 'C16,C17', Q, '''      g_dot_dxu = cblas_ddot(m, l1qc_prob.gradf, 1, l1qc_prob.dx, 1) +
                  cblas_ddot(m, l1qc_prob.gradf + m, 1, l1qc_prob.du, 1);
''', '''      double g_x = cblas_ddot(m, l1qc_prob.gradf, 1, l1qc_prob.dx, 1);
      double g_u = cblas_ddot(m, &l1qc_prob.gradf[m], 1, l1qc_prob.du, 1);
      g_dot_dxu = g_x + g_u;
''')
r('qc-drv-tau', 'C16', Q, '''    params.tau = params.tau * params.mu;
    l1qc_prob.tau = params.tau;
''', '''    l1qc_prob.tau *= params.mu;
    params.tau = l1qc_prob.tau;
''', Q, '''    l1c_init_vec(m, l1qc_prob.dx, 0.0);

    _l1c_l1qc_f_eval((void*)(&l1qc_prob), x, u);
''', '''    _l1c_l1qc_f_eval(&l1qc_prob, x, u);
    for (l1c_int i = 0; i < m; i++) {
      l1qc_prob.dx[i] = 0.0;
    }
''')
r('qc-drv-switch', 'C16,C17', Q, '''      if (params.warm_start_cg == 0) {
        cblas_dscal(m, 0, l1qc_prob.dx, 1);
      } else if (params.warm_start_cg == 2) {
        cblas_dscal(m, ls_stat.step, l1qc_prob.dx, 1);
      }
''', '''      switch (params.warm_start_cg) {
      case 0:
        l1c_init_vec(m, l1qc_prob.dx, 0.0);
        break;
      case 2:
        cblas_dscal(m, ls_stat.step, l1qc_prob.dx, 1);
        break;
      default:
        break;
      }
''')
# ---------------------------------------------------------------- dct
r('d1-helper', 'C09,C12,C17,C18', D1, '''static void Identity(double* x, double* z) {''', '''static void scaled_idct(double* in, double* out) {
  double keep = in[0];
  in[0] = keep * sqrt(2.0);
  fftw_execute_r2r(dct_plan_EMx, in, out);
  in[0] = keep;
}

static void Identity(double* x, double* z) {''', D1, '''  double x0_tmp = x[0];
  x[0] = x[0] * sqrt(2.0); // proper scaling

  fftw_execute_r2r(dct_plan_EMx, x, y);
  // normalize
  for (int i = 0; i < dct_m; i++) {
    y[i] = y[i] * dct_root_1_by_2N;
  }

  x[0] = x0_tmp; // undo scaling''', '''  scaled_idct(x, y);
  cblas_dscal(dct_m, dct_root_1_by_2N, y, 1);''', D1, '''  // Leave the input vector unchanged.
  double x0_tmp = x[0];
  x[0] = x[0] * sqrt(2.0);

  fftw_execute_r2r(dct_plan_EMx, x, dcty_a);
  x[0] = x0_tmp; /* Undo the scaling operation. */
''', '''  scaled_idct(x, dcty_a);
''')
r('d1-mty', 'C09,C12,C17', D1, '''  x_a[0] = x_a[0] / sqrt(2.0);
  for (i = 0; i < dct_m; i++) {
    x_a[i] = x_a[i] * dct_root_1_by_2N;
  }''', '''  for (i = 0; i < dct_m; i++) {
    x_a[i] *= dct_root_1_by_2N;
  }
  x_a[0] /= sqrt(2.0);''')
r('d1-mask', 'C09,C17', D1, '''  for (i = 0; i < dct_n; i++) {
    dctEty_a[dct_pix_mask_idx[i]] = dcty_a[dct_pix_mask_idx[i]] * dct_root_1_by_2N;
  }''', '''  for (i = 0; i < dct_n; i++) {
    const l1c_int k = dct_pix_mask_idx[i];
    dctEty_a[k] = dct_root_1_by_2N * dcty_a[k];
  }''')
r('d1-compose', 'C09,C17', D1, '''  for (i = 0; i < dct_n; i++) {
    // dct_Ety_sparse[dct_pix_mask_idx[i]] = y[i] * dct_root_1_by_2N;
    Ety_a[dct_pix_mask_idx[i]] = y_a[i];
  }
''', '''  (void)Ety_a;
  dct_Ety(y_a, dct_Ety_sparse);
''')
r('d1-ety', 'C09,C12,C17', D1, '''  cblas_dscal(dct_m, 0, x, 1);

  for (int i = 0; i < dct_n; i++) {
    x[dct_pix_mask_idx[i]] = y[i];
  }''', '''  l1c_int i;
  for (i = 0; i < dct_m; i++) {
    x[i] = 0.0;
  }
  for (i = 0; i < dct_n; i++) {
    x[dct_pix_mask_idx[i]] = y[i];
  }''')
r('d1-setup', 'C09,C11,C17,C18', D1, '''  dct_plan_MtEty = fftw_plan_r2r_1d(m, dct_Ety_sparse, dct_x, dct_kind_MtEty, flags);
  dct_plan_EMx = fftw_plan_r2r_1d(m, dct_x, dct_y, dct_kind_EMx, flags);
''', '''  dct_plan_EMx = fftw_plan_r2r_1d(m, dct_x, dct_y, dct_kind_EMx, flags);
  dct_plan_MtEty = fftw_plan_r2r_1d(m, dct_Ety_sparse, dct_x, dct_kind_MtEty, flags);
''', D1, '''  dct_root_1_by_2N = sqrt(1.0 / ((double)dct_m * 2));
''', '''  dct_root_1_by_2N = 1.0 / sqrt(2.0 * (double)m);
''')
r('d2-helper', 'C10,C12,C17,C18', D2, '''static void Identity(double* y, double* x) {''', '''static void scale_edges(double* v, double corner, double edge) {
  v[0] = v[0] * corner;
  cblas_dscal(dct2_mcol - 1, edge, v + 1, 1);
  cblas_dscal(dct2_mrow - 1, edge, v + dct2_mcol, dct2_mcol);
}

static void Identity(double* y, double* x) {''', D2, '''  dct2_x[0] = dct2_x[0] * 2.0;

  // Across the columns of the first row.
  cblas_dscal(dct2_mcol - 1, root2, dct2_x + 1, 1);

  // Down the rows of the first column.
  cblas_dscal(dct2_mrow - 1, root2, dct2_x + dct2_mcol, dct2_mcol);
''', '''  scale_edges(dct2_x, 2.0, root2);
''', D2, '''  x[0] = x[0] * 0.5;
  // Across the columns of the first row.
  cblas_dscal(dct2_mcol - 1, one_by_root2, x + 1, 1);

  // Down the rows of the first column.
  cblas_dscal(dct2_mrow - 1, one_by_root2, x + dct2_mcol, dct2_mcol);
''', '''  scale_edges(x, 0.5, one_by_root2);
''')
r('d2-edges-loop', 'C10,C12,C17', D2, '''  x[0] = x[0] * 0.5;
  // Across the columns of the first row.
  cblas_dscal(dct2_mcol - 1, one_by_root2, x + 1, 1);

  // Down the rows of the first column.
  cblas_dscal(dct2_mrow - 1, one_by_root2, x + dct2_mcol, dct2_mcol);
''', '''  for (int j = 0; j < dct2_mcol; j++) {
    x[j] *= one_by_root2;
  }
  for (int i = 0; i < dct2_mrow; i++) {
    x[i * dct2_mcol] *= one_by_root2;
  }
''')
r('d2-setup', 'C10,C11,C17,C18', D2, '''  dct2_Ety_sparse = l1c_malloc_double(mrow * mcol);
  dct2_x = l1c_malloc_double(mrow * mcol);
  dct2_y = l1c_malloc_double(mrow * mcol);
''', '''  const l1c_int mtot = mrow * mcol;
  dct2_Ety_sparse = l1c_calloc_double(mtot);
  dct2_x = l1c_calloc_double(mtot);
  dct2_y = l1c_calloc_double(mtot);
''', D2, '''  for (i = 0; i < mrow * mcol; i++) {
    dct2_Ety_sparse[i] = 0;
    dct2_x[i] = 0;
    dct2_y[i] = 0;
  }
''', '''  (void)i;
''')
r('d2-aty', 'C10,C17', D2, '''  for (i = 0; i < dct2_mrow * dct2_mcol; i++) {
    x[i] = dct2_x[i] * dct2_root_1_by_4NM;
  }
''', '''  cblas_dcopy(dct2_mrow * dct2_mcol, dct2_x, 1, x, 1);
  cblas_dscal(dct2_mrow * dct2_mcol, dct2_root_1_by_4NM, x, 1);
''')
r('d2-ataz', 'C10,C17', D2, '''  for (i = 0; i < dct2_n; i++) {
    dct2_Ety_sparse[dct2_pix_mask_idx[i]] =
        dct2_y[dct2_pix_mask_idx[i]] * dct2_root_1_by_4NM;
    // dct2_Ety_sparse[dct2_pix_mask_idx[i]] = x[i];
  }
''', '''  const l1c_int* idx = dct2_pix_mask_idx;
  for (i = 0; i < dct2_n; i++, idx++) {
    dct2_Ety_sparse[*idx] = dct2_y[*idx] * dct2_root_1_by_4NM;
  }
''')
r('dt-setup', 'C11,C12,C17,C18', DT, '''  if ((mcol == 1) || (mrow == 1) || dct_mode == dct1) {
    // call setup_dct1
    return l1c_dct1_setup(n, mrow * mcol, pix_idx, ax_funs);
  } else if ((mcol > 1 && mrow > 1) || dct_mode == dct2) {
    if (mcol == 1 || mrow == 1) {
      return L1C_INCONSISTENT_ARGUMENTS;
    }
    // Call setup_dct2
    return l1c_dct2_setup(n, mrow, mcol, pix_idx, ax_funs);
  } else {
    return L1C_INCONSISTENT_ARGUMENTS;
  }''', '''  int one_dim = (mcol == 1) || (mrow == 1) || dct_mode == dct1;
  if (!one_dim) {
    return l1c_dct2_setup(n, mrow, mcol, pix_idx, ax_funs);
  }
  return l1c_dct1_setup(n, mrow * mcol, pix_idx, ax_funs);''')
r('dt-check', 'C11,C17', DT, '''  l1c_int idx = 0;
  for (int i = 0; i < n; i++) {
    idx = pix_idx[i];
    if (idx > max_idx || idx < 0) {
      return L1C_INVALID_ARGUMENT;
    }
  }
  return L1C_SUCCESS;''', '''  int bad = 0;
  for (int i = 0; i < n && !bad; i++) {
    bad = !(pix_idx[i] >= 0 && pix_idx[i] <= max_idx);
  }
  return bad ? L1C_INVALID_ARGUMENT : L1C_SUCCESS;''')
r('dt-check2', 'C11,C17', DT, '''  l1c_int idx = 0;
  for (int i = 0; i < n; i++) {
    idx = pix_idx[i];
    if (idx > max_idx || idx < 0) {
      return L1C_INVALID_ARGUMENT;
    }
  }
  return L1C_SUCCESS;''', '''  int status = L1C_SUCCESS;
  for (int i = n - 1; i >= 0; i--) {
    if (pix_idx[i] < 0 || pix_idx[i] >= max_idx + 1) {
      status = L1C_INVALID_ARGUMENT;
    }
  }
  return status;''')
r('tvd-setup', 'C11,C12,C17,C18', TVF, '''  u = l1c_calloc_double(_p);

  Av_tmp = l1c_calloc_double(n);

  if (!u || !Av_tmp) {
    status = L1C_OUT_OF_MEMORY;
    goto fail;
  }

  status = l1c_setup_dct_transforms(n, mrow, mcol, dct_mode, pix_idx, &ax_funs_local);
  if (status) {
    goto fail;
  }
''', '''  Av_tmp = l1c_calloc_double(n);
  u = l1c_calloc_double(_p);

  if (u && Av_tmp) {
    status = l1c_setup_dct_transforms(n, mrow, mcol, dct_mode, pix_idx, &ax_funs_local);
  } else {
    status = L1C_OUT_OF_MEMORY;
  }
  if (status != L1C_SUCCESS) {
    goto fail;
  }
''')
r('tvd-wv', 'C12,C17', TVF, '''  ax_funs_local.Mx(v, u);
  cblas_dcopy(_m, u, 1, y, 1);
''', '''  ax_funs_local.Mx(v, u);
  for (l1c_int i = 0; i < _m; i++) {
    y[i] = u[i];
  }
''', TVF, '''    cblas_daxpy(_m, 1, u_TVV, 1, y, 1);
''', '''    for (l1c_int i = 0; i < _m; i++) {
      y[i] += u_TVV[i];
    }
''')
r('tvd-jobs', 'C11,C12,C17', TVF, '''  if (alp_v > 0) {
    jobs |= _JOB_TV_V;
    _inc_TVV = _m;
    _p += _m;
  }

  if (alp_h > 0) {
    jobs |= _JOB_TV_H;
    _inc_TVH = _inc_TVV + _m;
    _p += _m;
  }
''', '''  if (alp_v > 0) {
    jobs += _JOB_TV_V;
    _inc_TVV = _p;
    _p += _m;
  }

  if (alp_h > 0) {
    jobs += _JOB_TV_H;
    _inc_TVH = _p;
    _p += _m;
  }
''')
r('tvd-wtx', 'C12,C17', TVF, '''  if (jobs & _JOB_TV_V) {
    l1c_DyT(_mrow, _mcol, _alp_v, x, v_dxv);
  }
  if (jobs & _JOB_TV_H) {
    l1c_DxT(_mrow, _mcol, _alp_h, x, v_dxh);
  }''', '''  if (_alp_h > 0) {
    l1c_DxT(_mrow, _mcol, _alp_h, x, v_dxh);
  }
  if (_alp_v > 0) {
    l1c_DyT(_mrow, _mcol, _alp_v, x, v_dxv);
  }''')
r('mt-loops', 'C08,C17', MT, '''  cblas_dgemv(CblasRowMajor,
              CblasNoTrans,
              xfm_N,
              xfm_M,
              alp,
              xfm_A,
              xfm_M,
              x,
              inc,
              beta,
              y,
              inc);''', '''  (void)alp;
  (void)beta;
  for (l1c_int i = 0; i < xfm_N; i++) {
    y[i] = cblas_ddot(xfm_M, xfm_A + i * xfm_M, inc, x, inc);
  }''')
r('mt-alloc', 'C08,C11,C17,C18', MT, '''  int L = n > m ? n : m;

  xfm_dwork = l1c_malloc_double(L);
  if (!xfm_dwork) {
    return L1C_OUT_OF_MEMORY;
  }
  for (int i = 0; i < L; i++) {
    xfm_dwork[i] = 0;
  }
''', '''  xfm_dwork = l1c_calloc_double(n);
  if (!xfm_dwork) {
    return L1C_OUT_OF_MEMORY;
  }
''')
# ---------------------------------------------------------------- one call, JSON
r('oc-order', 'C21,C17,C18', OC, '''  double* eta_0 = l1c_calloc_double(mtot);
  double* b_ours = l1c_malloc_double(n);
''', '''  double* b_ours = l1c_malloc_double(n);
  double* eta_0 = l1c_calloc_double(mtot);
''', OC, '''  cblas_dcopy(mtot, eta_0, 1, x_out, 1);
  ax_funs.Mx(eta_0, x_out);
''', '''  ax_funs.Mx(eta_0, x_out);
''')
r('oc-nest', 'C21,C17,C18', OC, '''  *lb_res = l1c_l1qc_newton(mtot, eta_0, n, b_ours, opts, ax_funs);
  if (lb_res->status) {
    status = lb_res->status;
    goto exit;
  }
''', '''  l1c_LBResult res = l1c_l1qc_newton(mtot, eta_0, n, b_ours, opts, ax_funs);
  *lb_res = res;
  status = res.status;
  if (status) {
    goto exit;
  }
''')
r('oc-copyloop', 'C21,C17', OC, '''  cblas_dcopy(n, b, 1, b_ours, 1);
''', '''  for (int i = 0; i < n; i++) {
    b_ours[i] = b[i];
  }
''')
r('js-array', 'C20,C17,C18', JS, '''  int k = 0;
  cJSON* xk_json;
  cJSON_ArrayForEach(xk_json, x_json) {
    // note to self: if you do *x[k], that would be
    // the next pointer in an array of pointers.
    (*x)[k] = xk_json->valuedouble;
    k = k + 1;
  }
''', '''  double* out = *x;
  for (cJSON* item = x_json->child; item != NULL; item = item->next) {
    *out++ = item->valuedouble;
  }
''')
r('js-array-idx', 'C20,C17,C18', JS, '''  int k = 0;
  cJSON* xk_json;
  cJSON_ArrayForEach(xk_json, x_json) {
    // note to self: if you do *x[k], that would be
    // the next pointer in an array of pointers.
    (*x)[k] = xk_json->valueint;
    k = k + 1;
  }
''', '''  const int len = *N;
  for (int k = 0; k < len; k++) {
    (*x)[k] = cJSON_GetArrayItem(x_json, k)->valueint;
  }
''')
r('js-helper', 'C20,C17', JS, '''int extract_json_int(cJSON* data_json''', '''static cJSON* number_item(cJSON* obj, char* name) {
  cJSON* it = obj ? cJSON_GetObjectItemCaseSensitive(obj, name) : NULL;
  return cJSON_IsNumber(it) ? it : NULL;
}

int extract_json_int(cJSON* data_json''', JS, '''  if (!data_json) {
    fprintf(stderr, "Error in extract_json_int: cannot extract %s\\n", name);
    fprintf(stderr, "         cJSON input is NULL\\n");
    return 1;
  }

  cJSON* N_json = cJSON_GetObjectItemCaseSensitive(data_json, name);
  if (!cJSON_IsNumber(N_json)) {
    fprintf(stderr, "Error in extract_json_int: cannot extract %s\\n", name);
    return 1;
  }

  *N = (*N_json).valueint;''', '''  cJSON* N_json = number_item(data_json, name);
  if (!N_json) {
    fprintf(stderr, "Error in extract_json_int: cannot extract %s\\n", name);
    return 1;
  }

  *N = N_json->valueint;''')
r('js-load', 'C20,C17,C18', JS, '''  const size_t nmemb = 1;
  const size_t num_read = fread(*file_data, file_len, nmemb, file_ptr);
  fclose(file_ptr);
  if (nmemb == num_read) {
    return 0;
  } else {
    free(*file_data);
    *file_data = NULL;
    return 1;
  }''', '''  int status = fread(*file_data, file_len, 1, file_ptr) != 1;
  fclose(file_ptr);
  if (status) {
    free(*file_data);
    *file_data = NULL;
  }
  return status;''')
