"""Behaviour-preserving edits: the checks must stay quiet on each. name: (props, [(file, old, new), ...])"""
R = {}
def r(name, props, *edits):
    R[name] = (props.split(','), [tuple(edits[i:i+3]) for i in range(0, len(edits), 3)])

# ---------------------------------------------------------------- l1c_math.c
r('math-while', 'C01,C17,C19', 'src/l1c_math.c', '''#pragma omp parallel for
  for (int i = 0; i < N; i++) {
    x_[i] = alpha;
  }''', '''  l1c_int i = 0;
  while (i < N) {
    x_[i] = alpha;
    i++;
  }''')
r('math-ptrwalk', 'C01,C17', 'src/l1c_math.c', '''  for (int k = 0; k < n; k++) {
    y[k] = fabs(x[k]);
  }''', '''  double* end = x + n;
  while (x < end) {
    *y++ = fabs(*x++);
  }''')
r('math-ptrwalk2', 'C01,C17', 'src/l1c_math.c', '''  for (int k = 0; k < n; k++) {
    y[k] = fabs(x[k]);
  }''', '''  for (int k = n; k > 0; k--) {
    *y++ = fabs(*x++);
  }''')
r('math-abs-if', 'C01', 'src/l1c_math.c', '''    y[k] = fabs(x[k]);''', '''    if (x[k] < 0) {
      y[k] = -x[k];
    } else {
      y[k] = fabs(x[k]);
    }''')
r('math-helper', 'C01,C02,C17,C19', 'src/l1c_math.c', '''/**
   Computes the 1-norm of the vector x, i.e.,''', '''static inline double sq(double v) { return v * v; }

static double diff_sq(l1c_int N, const double* x, const double* y) {
  double acc = 0.0;
  for (l1c_int k = 0; k < N; k++) {
    acc += sq(x[k] - y[k]);
  }
  return acc;
}

/**
   Computes the 1-norm of the vector x, i.e.,''', 'src/l1c_math.c', '''  int i = 0;
  double nrm = 0.0, diff = 0.0;

  for (i = 0; i < N; i++) {
    diff = x_[i] - y_[i];
    nrm += diff * diff;
  }
  return sqrt(nrm);''', '''  return sqrt(diff_sq(N, x_, y_));''', 'src/l1c_math.c', '''  int i = 0;
  double ynrm = cblas_ddot(N, y, 1, y, 1);
  double nrm = 0.0, diff = 0.0;

  for (i = 0; i < N; i++) {
    diff = x_[i] - y_[i];
    nrm += diff * diff;
  }
  return sqrt(nrm / ynrm);''', '''  const double ynrm = cblas_ddot(N, y, 1, y, 1);
  return sqrt(diff_sq(N, x_, y_) / ynrm);''')
r('math-max', 'C02,C17', 'src/l1c_math.c', '''  double xmax = x[0];
  if (n == 1) {
    return xmax;
  }

  for (int k = 1; k < n; k++) {
    xmax = x[k] > xmax ? x[k] : xmax;
  }
''', '''  double xmax = x[0];
  for (int k = 0; k < n; k++) {
    if (x[k] > xmax) {
      xmax = x[k];
    }
  }
''')
r('math-max-back', 'C02,C17', 'src/l1c_math.c', '''  double xmax = x[0];
  if (n == 1) {
    return xmax;
  }

  for (int k = 1; k < n; k++) {
    xmax = x[k] > xmax ? x[k] : xmax;
  }
''', '''  int k = n - 1;
  double xmax = x[k];
  while (--k >= 0) {
    xmax = xmax < x[k] ? x[k] : xmax;
  }
''')
r('math-sum-split', 'C02,C17', 'src/l1c_math.c', '''  for (i = 0; i < N; i++) {
    sum = sum + x[i];
  }
  return sum;''', '''  l1c_int half = N / 2;
  for (i = 0; i < half; i++) {
    sum += x[i];
  }
  for (; i < N; i++) {
    sum += x[i];
  }
  return sum;''')
r('math-sum-unroll', 'C02,C17', 'src/l1c_math.c', '''  for (i = 0; i < N; i++) {
    sum = sum + x[i];
  }
  return sum;''', '''  for (i = 0; i + 1 < N; i += 2) {
    sum = sum + x[i] + x[i + 1];
  }
  if (i < N) {
    sum += x[i];
  }
  return sum;''')
r('math-back', 'C01,C17,C19', 'src/l1c_math.c', '''#pragma omp parallel for
  for (l1c_int i = 0; i < N; i++) {
    z_[i] = x_[i] * y_[i];
  }''', '''  for (l1c_int i = N - 1; i >= 0; i--) {
    z_[i] = y_[i] * x_[i];
  }''')
r('math-daxpbyz-call', 'C01,C17,C19', 'src/l1c_math.c', '''  l1c_int i;
#pragma omp parallel for
  for (i = 0; i < N; i++) {
    z_[i] = alpha * x_[i] + y_[i];
  }''', '''  l1c_daxpby_z(N, alpha, x_, 1.0, y_, z_);''')
r('math-norm1-loop', 'C02,C17', 'src/l1c_math.c', '''double l1c_dnorm1(l1c_int N, double* x) { return cblas_dasum(N, x, 1); }''', '''double l1c_dnorm1(l1c_int N, double* x) {
  double total = 0.0;
  for (l1c_int i = 0; i < N; i++) {
    total += fabs(x[i]);
  }
  return total;
}''')
r('math-simd', 'C01,C02,C19', 'src/l1c_math.c', '''#pragma omp parallel for
  for (l1c_int i = 0; i < N; i++) {
    y_[i] = alpha * x_[i] + beta * y_[i];''', '''#pragma omp parallel for simd schedule(static)
  for (l1c_int i = 0; i < N; i++) {
    const double scaled = beta * y_[i];
    y_[i] = scaled + alpha * x_[i];''')
r('math-logsum-omp', 'C02,C19', 'src/l1c_math.c', '''#pragma omp parallel for reduction(+ : total)
  for (i = 0; i < N; i++) {
    total += log(alpha * x[i]);
  }''', '''#pragma omp parallel for schedule(static) reduction(+ : total)
  for (l1c_int k = 0; k < N; k++) {
    double arg = alpha * x[k];
    total = total + log(arg);
  }
  (void)i;''')
# ---------------------------------------------------------------- vcl
r('vcl-while', 'C02,C17', 'src/vcl/vcl_math.cpp', '''  for (i = 0; i < regularpart; i += VECTORSIZE) {
    xvec.load_a(x + i);
    sum_vec += xvec;
  }

  for (; i < N; i++) {
    total += x[i];
  }
  total += vcl::horizontal_add(sum_vec);
  return total;''', '''  while (i < regularpart) {
    xvec.load_a(&x[i]);
    sum_vec = sum_vec + xvec;
    i += VECTORSIZE;
  }

  total = vcl::horizontal_add(sum_vec);
  while (i < N) {
    total += x[i];
    ++i;
  }
  return total;''')
r('vcl-mod', 'C02,C17', 'src/vcl/vcl_math.cpp', '''extern "C" double vcl_sum(const int N, const double* x) {
  const int regularpart = N & (~(VECTORSIZE - 1));''', '''extern "C" double vcl_sum(const int N, const double* x) {
  const int regularpart = N - N % VECTORSIZE;''')
r('vcl-helper', 'C01,C02,C17', 'src/vcl/vcl_math.cpp', '''extern "C" double vcl_logsum(''', '''static inline int round_down(const int N) { return N & (~(VECTORSIZE - 1)); }

extern "C" double vcl_logsum(''', 'src/vcl/vcl_math.cpp', '''  const int regularpart = N & (~(VECTORSIZE - 1));''', '''  const int regularpart = round_down(N);''')
r('vcl-pz', 'C01,C17', 'src/vcl/vcl_math.cpp', '''    zvec = xvec * yvec + zvec;
    zvec.store(z + i);''', '''    zvec += xvec * yvec;
    zvec.store(z + i);''', 'src/vcl/vcl_math.cpp', '''    z[i] = x[i] * y[i] + z[i];''', '''    z[i] += x[i] * y[i];''')
# ---------------------------------------------------------------- l1c_memory.c
r('mem-init-loop', 'C17,C18', 'src/l1c_memory.c', '''  double* dptr;
  dptr = l1c_malloc_double(N);
  if (dptr) {
    l1c_init_vec(N, dptr, 0);
  }
  return dptr;''', '''  double* dptr = l1c_malloc_double(N);
  if (!dptr) {
    return NULL;
  }
  for (int i = 0; i < N; i++) {
    dptr[i] = 0.0;
  }
  return dptr;''')
r('mem-2d-count', 'C17,C18', 'src/l1c_memory.c', '''fail2:
  for (k = 0; k < nrow; k++) {
    l1c_free_double(dwork[k]);
  }''', '''fail2:
  while (k > 0) {
    k--;
    l1c_free_double(dwork[k]);
  }''')
r('mem-2d-free', 'C17,C18', 'src/l1c_memory.c', '''fail2:
  for (k = 0; k < nrow; k++) {
    l1c_free_double(dwork[k]);
  }
fail1:
  free(dwork);

  return NULL;''', '''fail2:
  l1c_free_double_2D(nrow, dwork);
  return NULL;
fail1:
  return NULL;''')
r('mem-2d-calloc', 'C17,C18', 'src/l1c_memory.c', '''  double** dwork = malloc(nrow * sizeof(double*));
  if (!dwork) {
    goto fail1;
  }

  for (k = 0; k < nrow; k++) {
    dwork[k] = NULL;
  }
''', '''  double** dwork = calloc(nrow, sizeof(double*));
  if (!dwork) {
    return NULL;
  }
''', 'src/l1c_memory.c', '''fail1:
  free(dwork);
''', '''  free(dwork);
''')
r('mem-free-early', 'C17,C18', 'src/l1c_memory.c', '''  if (ddptr) {
    for (int k = 0; k < nrow; k++) {
      l1c_free_double(ddptr[k]);
    }
  }
  free(ddptr);''', '''  if (!ddptr) {
    return;
  }
  for (int k = nrow - 1; k >= 0; k--) {
    l1c_free_double(ddptr[k]);
  }
  free(ddptr);''')
# ---------------------------------------------------------------- TV.c
r('tv-merge', 'C03,C17,C19', 'src/TV.c', '''  double *X_row = NULL, *Dx_row = NULL;
#pragma omp parallel for private(X_row, Dx_row)
  for (int i_row = 0; i_row < n; i_row++) {
    X_row = X + i_row * m;
    Dx_row = Dx + i_row * m;
    ddiff_z(m, alpha, X_row, Dx_row);
  }''', '''#pragma omp parallel for
  for (int i_row = 0; i_row < n; i_row++) {
    double* X_row = &X[i_row * m];
    double* Dx_row = &Dx[i_row * m];
    for (int j = 0; j < m - 1; j++) {
      Dx_row[j] = alpha * (X_row[j + 1] - X_row[j]);
    }
    Dx_row[m - 1] = 0;
  }''')
r('tv-cond', 'C03,C17,C19', 'src/TV.c', '''  for (int i = 1; i < n; i++) {
    dx[i - 1] = alpha * (x[i] - x[i - 1]);
  }
  dx[n - 1] = 0;''', '''  for (int i = 0; i < n; i++) {
    dx[i] = (i + 1 < n) ? alpha * (x[i + 1] - x[i]) : 0.0;
  }''')
r('tv-DyT-if', 'C03,C17,C19', 'src/TV.c', '''  double Ai = 0, Ai_min_m = 0;
  int i = 0, Len = n * m;

#pragma omp parallel for private(Ai, Ai_min_m, i)
  for (i = 0; i < Len; i++) {
    Ai = i < (n - 1) * m ? A[i] : 0;
    Ai_min_m = i < m ? 0 : A[i - m];
    dyt[i] = alpha * (Ai_min_m - Ai);
  }''', '''  const int Len = n * m, last = Len - m;

#pragma omp parallel for
  for (int i = 0; i < Len; i++) {
    double v = 0;
    if (i >= m) {
      v += A[i - m];
    }
    if (i < last) {
      v -= A[i];
    }
    dyt[i] = alpha * v;
  }''')
r('tv-DyT-rows', 'C03,C17,C19', 'src/TV.c', '''  double Ai = 0, Ai_min_m = 0;
  int i = 0, Len = n * m;

#pragma omp parallel for private(Ai, Ai_min_m, i)
  for (i = 0; i < Len; i++) {
    Ai = i < (n - 1) * m ? A[i] : 0;
    Ai_min_m = i < m ? 0 : A[i - m];
    dyt[i] = alpha * (Ai_min_m - Ai);
  }''', '''  for (int j = 0; j < m; j++) {
    dyt[j] = -alpha * A[j];
  }
  for (int row = 1; row < n - 1; row++) {
    for (int j = 0; j < m; j++) {
      dyt[row * m + j] = alpha * (A[(row - 1) * m + j] - A[row * m + j]);
    }
  }
  for (int j = 0; j < m; j++) {
    dyt[(n - 1) * m + j] = alpha * A[(n - 2) * m + j];
  }''')
r('tv-Dy-flat', 'C03,C17,C19', 'src/TV.c', '''  int row = 0, col = 0;

#pragma omp parallel for private(col)
  for (row = 0; row < n - 1; row++) {
    for (col = row * m; col < (row + 1) * m; col++) {
      Dy[col] = alpha * (X[col + m] - X[col]);
    }
  }
''', '''#pragma omp parallel for
  for (int k = 0; k < (n - 1) * m; k++) {
    Dy[k] = alpha * (X[k + m] - X[k]);
  }
''')
r('tv-Dy-cols', 'C03,C17,C19', 'src/TV.c', '''    for (col = row * m; col < (row + 1) * m; col++) {
      Dy[col] = alpha * (X[col + m] - X[col]);
    }''', '''    const double* this_row = X + row * m;
    const double* next_row = this_row + m;
    double* out = Dy + row * m;
    for (col = 0; col < m; col++) {
      out[col] = alpha * (next_row[col] - this_row[col]);
    }''')
r('tv-DyTDy-split', 'C03,C17,C19', 'src/TV.c', '''    D_ii_Ai = (i < m || i > m * (n - 1) - 1) ? A[i] : 2 * A[i];''', '''    if (i < m || i >= m * (n - 1)) {
      D_ii_Ai = A[i];
    } else {
      D_ii_Ai = A[i] + A[i];
    }''')
r('tv-ddiffT', 'C03,C17,C19', 'src/TV.c', '''  dx[0] = -alpha * x[0];
  for (int i = 1; i < n; i++) {
    dx[i] = alpha * (x[i - 1] - x[i]);
  }
  dx[n - 1] = alpha * x[n - 2];''', '''  dx[0] = -(alpha * x[0]);
  int i;
  for (i = 1; i < n - 1; i++) {
    dx[i] = alpha * (x[i - 1] - x[i]);
  }
  dx[i] = alpha * x[i - 1];''')
r('tv-ddiff2', 'C03,C17,C19', 'src/TV.c', '''  for (int i = 1; i < n - 1; i++) {
    dx[i] = alp2 * (-x[i - 1] + 2 * x[i] - x[i + 1]);
  }''', '''  double left = x[0], mid = x[1];
  for (int i = 1; i < n - 1; i++) {
    double right = x[i + 1];
    dx[i] = alp2 * (2 * mid - left - right);
    left = mid;
    mid = right;
  }''')
# ---------------------------------------------------------------- bregman.c
r('breg-shrink', 'C04,C05,C17,C19', 'src/bregman.c', '''    sign_x = dsign(x_[i]);
    d_[i] = sign_x * max(fabs(x_[i]) - gamma, 0);''', '''    double mag = fabs(x_[i]) - gamma;
    if (mag < 0) {
      mag = 0;
    }
    sign_x = dsign(x_[i]);
    d_[i] = sign_x * mag;''')
r('breg-shrink2', 'C04,C05', 'src/bregman.c', '''    sign_x = dsign(x_[i]);
    d_[i] = sign_x * max(fabs(x_[i]) - gamma, 0);''', '''    if (x_[i] > gamma) {
      d_[i] = x_[i] - gamma;
    } else if (x_[i] < -gamma) {
      d_[i] = x_[i] + gamma;
    } else {
      d_[i] = 0.0;
    }
    (void)sign_x;''')
r('breg-hess', 'C04,C17', 'src/bregman.c', '''  l1c_DyTDy(n, m, 1.0, x, dwork1);
  l1c_DxTDx(n, m, 1.0, x, dwork2);
  for (int i = 0; i < n * m; i++) {
    y[i] = mu * x[i] + lambda * dwork1[i] + lambda * dwork2[i];
  }''', '''  l1c_int N = n * m;
  l1c_DxTDx(n, m, 1.0, x, dwork2);
  l1c_DyTDy(n, m, 1.0, x, dwork1);
  for (l1c_int i = 0; i < N; i++) {
    const double tv = dwork1[i] + dwork2[i];
    y[i] = lambda * tv + mu * x[i];
  }''')
r('breg-gs-ptr', 'C04,C05,C17', 'src/bregman.c', '''    for (j = 1; j < m - 1; j++) {
      tmp = rhs[i * m + j] + (u[i * m + j + 1] + u[i * m + j - 1] + u[(i + 1) * m + j] +
                              u[(i - 1) * m + j]) *
                                 lambda;
      u[i * m + j] = tmp * one_by_mu_4lam;
    }''', '''    for (j = 1; j < m - 1; j++) {
      const int c = i * m + j;
      const double nb = u[c + 1] + u[c - 1] + u[c + m] + u[c - m];
      u[c] = one_by_mu_4lam * (lambda * nb + rhs[c]);
    }''')
r('breg-gs-helper', 'C04,C05,C17', 'src/bregman.c', '''void breg_anis_guass_seidel(
    int n, int m, double* u, double* rhs, double mu, double lambda) {
''', '''static void
edge_row(int m, int base, int other, double* u, double* rhs, double lambda, double w) {
  for (int j = 1; j < m - 1; j++) {
    double t = rhs[base + j] + (u[base + j + 1] + u[base + j - 1] + u[other + j]) * lambda;
    u[base + j] = t * w;
  }
}

void breg_anis_guass_seidel(
    int n, int m, double* u, double* rhs, double mu, double lambda) {
''', 'src/bregman.c', '''  i = n - 1;
  for (j = 1; j < m - 1; j++) {
    tmp = rhs[i * m + j] +
          (u[i * m + j + 1] + u[i * m + j - 1] + u[(i - 1) * m + j]) * lambda;
    u[i * m + j] = tmp * one_by_mu_3lam;
  }
''', '''  edge_row(m, (n - 1) * m, (n - 2) * m, u, rhs, lambda, one_by_mu_3lam);
''', 'src/bregman.c', '''  i = 0;
  for (j = 1; j < m - 1; j++) {
    tmp = rhs[i * m + j] +
          (u[i * m + j + 1] + u[i * m + j - 1] + u[(i + 1) * m + j]) * lambda;
    u[i * m + j] = tmp * one_by_mu_3lam;
  }
''', '''  edge_row(m, 0, m, u, rhs, lambda, one_by_mu_3lam);
''')
r('breg-gs-all', 'C04,C05,C17', 'src/bregman.c', '''    /* The left pixel in row i.*/
    j = 0;
    tmp = rhs[i * m + j] +
          (u[i * m + j + 1] + u[(i + 1) * m + j] + u[(i - 1) * m + j]) * lambda;
    u[i * m + j] = tmp * one_by_mu_3lam;
    /* Across the i-th row. */
    for (j = 1; j < m - 1; j++) {
      tmp = rhs[i * m + j] + (u[i * m + j + 1] + u[i * m + j - 1] + u[(i + 1) * m + j] +
                              u[(i - 1) * m + j]) *
                                 lambda;
      u[i * m + j] = tmp * one_by_mu_4lam;
    }
    /* Last column in row i. */
    j = m - 1;
    tmp = rhs[i * m + j] +
          (u[i * m + j - 1] + u[(i + 1) * m + j] + u[(i - 1) * m + j]) * lambda;
    u[i * m + j] = tmp * one_by_mu_3lam;''', '''    for (j = 0; j < m; j++) {
      double nb = u[(i + 1) * m + j] + u[(i - 1) * m + j];
      double w = one_by_mu_4lam;
      if (j > 0) {
        nb += u[i * m + j - 1];
      } else {
        w = one_by_mu_3lam;
      }
      if (j < m - 1) {
        nb += u[i * m + j + 1];
      } else {
        w = one_by_mu_3lam;
      }
      tmp = rhs[i * m + j] + nb * lambda;
      u[i * m + j] = tmp * w;
    }''')
r('breg-diag', 'C04,C17', 'src/bregman.c', '''  // The last m elements.
  D[(n - 1) * m] = mu_2lam;
  for (j = (n - 1) * m + 1; j < m * n - 1; j++) {
    D[j] = mu_3lam;
  }
  D[m * n - 1] = mu_2lam;''', '''  // The last m elements are those of the first row.
  for (j = 0; j < m; j++) {
    D[(n - 1) * m + j] = D[j];
  }''')
r('breg-jacobi', 'C04,C17', 'src/bregman.c', '''  for (i = 0; i < n; i++) {
    dwork[i * m] += lambda * uk[i * m + 1];
    for (j = i * m + 1; j < (i + 1) * m - 1; j++) {
      dwork[j] += -lambda * (-uk[j - 1] - uk[j + 1]);
    }
    // We now have col=(row+1)*m
    dwork[j] += -lambda * (-uk[j - 1]);
  }''', '''  for (i = 0; i < n; i++) {
    double* row = dwork + i * m;
    const double* u_row = uk + i * m;
    for (j = 0; j < m; j++) {
      double s = 0;
      if (j > 0) {
        s += u_row[j - 1];
      }
      if (j + 1 < m) {
        s += u_row[j + 1];
      }
      row[j] += lambda * s;
    }
  }''')
r('breg-rhs', 'C04,C05,C17', 'src/bregman.c', '''  cblas_daxpy(N, mu, f, 1, dwork2, 1);    // dwork2 = mu*f + lam*Dely^T(dyk - byk)
  cblas_daxpy(N, 1.0, dwork2, 1, rhs, 1); // RHS''', '''  for (l1c_int i = 0; i < N; i++) {
    rhs[i] += dwork2[i] + mu * f[i];
  }''')
r('breg-rhs-order', 'C04,C05', 'src/bregman.c', '''  breg_mxpy_z(N, by, dy, dwork1);
  l1c_DyT(n, m, lambda, dwork1, dwork2); // dwork2 = lam*Dely^T(dyk - byk)
  breg_mxpy_z(N, bx, dx, dwork1);
  l1c_DxT(n, m, lambda, dwork1, rhs); // rhs = lam*Delx^T(xyk - bxk)
''', '''  breg_mxpy_z(N, bx, dx, dwork1);
  l1c_DxT(n, m, lambda, dwork1, rhs); // rhs = lam*Delx^T(xyk - bxk)
  breg_mxpy_z(N, by, dy, dwork1);
  l1c_DyT(n, m, lambda, dwork1, dwork2); // dwork2 = lam*Dely^T(dyk - byk)
''')
r('breg-drv-order', 'C05,C17,C18', 'src/bregman.c', '''    /* Apply shrink operators. */
    breg_shrink1(N, Dxu_b, d_x, 1.0 / lambda);
    breg_shrink1(N, Dyu_b, d_y, 1.0 / lambda);

    /* Bregman update. */
    breg_mxpy_z(N, d_x, Dxu_b, b_x);
    breg_mxpy_z(N, d_y, Dyu_b, b_y);
''', '''    const double gamma = 1.0 / lambda;
    breg_shrink1(N, Dxu_b, d_x, gamma);
    breg_mxpy_z(N, d_x, Dxu_b, b_x);
    breg_shrink1(N, Dyu_b, d_y, gamma);
    breg_mxpy_z(N, d_y, Dyu_b, b_y);
''')
r('breg-drv-while', 'C05,C17,C18', 'src/bregman.c', '''  for (iter = 1; iter <= max_iter; iter++) {

    breg_anis_rhs''', '''  iter = 0;
  while (iter < max_iter) {
    iter++;
    breg_anis_rhs''', 'src/bregman.c', '''    for (int k = 1; k <= max_jac_iter; k++) {''', '''    for (int k = 0; k < max_jac_iter; k++) {''')
r('breg-drv-flag', 'C05,C17,C18', 'src/bregman.c', '''  for (iter = 1; iter <= max_iter; iter++) {

    breg_anis_rhs''', '''  int done = 0;
  for (iter = 1; iter <= max_iter && !done; iter++) {

    breg_anis_rhs''', 'src/bregman.c', '''    if (dnrm_err < tol) {
      break;
    }''', '''    done = dnrm_err < tol;''')
r('breg-drv-helper', 'C05,C17,C18', 'src/bregman.c', '''/**
 * @defgroup bregman Optimizations''', '''static void split_update(l1c_int N, double* Du_b, double* d, double* b, double lambda) {
  cblas_daxpy(N, 1.0, b, 1, Du_b, 1);
  breg_shrink1(N, Du_b, d, 1.0 / lambda);
  breg_mxpy_z(N, d, Du_b, b);
}

/**
 * @defgroup bregman Optimizations''', 'src/bregman.c', '''    l1c_Dx(n, m, 1.0, uk, Dxu_b);
    cblas_daxpy(N, 1.0, b_x, 1, Dxu_b, 1);
    /*  Dxu_b = Del_x*u + b. */
    l1c_Dy(n, m, 1.0, uk, Dyu_b);
    cblas_daxpy(N, 1.0, b_y, 1, Dyu_b, 1);

    /* Apply shrink operators. */
    breg_shrink1(N, Dxu_b, d_x, 1.0 / lambda);
    breg_shrink1(N, Dyu_b, d_y, 1.0 / lambda);

    /* Bregman update. */
    breg_mxpy_z(N, d_x, Dxu_b, b_x);
    breg_mxpy_z(N, d_y, Dyu_b, b_y);
''', '''    l1c_Dx(n, m, 1.0, uk, Dxu_b);
    split_update(N, Dxu_b, d_x, b_x, lambda);
    l1c_Dy(n, m, 1.0, uk, Dyu_b);
    split_update(N, Dyu_b, d_y, b_y, lambda);
''')
r('breg-drv-alloc', 'C05,C17,C18', 'src/bregman.c', '''  if (!uk_1 || !d_x || !d_y || !b_x || !b_y || !dwork1 || !dwork2 || !rhs) {
    status = L1C_OUT_OF_MEMORY;
    goto exit;
  }

  cblas_dcopy(N, f, 1, uk, 1);
''', '''  int have_all = uk_1 && d_x && d_y && b_x && b_y && dwork1 && dwork2 && rhs;
  if (!have_all) {
    status = L1C_OUT_OF_MEMORY;
    goto exit;
  }

  for (int i = 0; i < N; i++) {
    uk[i] = f[i];
  }
''')
# ---------------------------------------------------------------- cgsolve.c
r('cg-while', 'C07,C17', 'src/cgsolve.c', '''  for (iter = 1; iter <= cg_params.max_iter; iter++) {
''', '''  iter = 1;
  while (iter <= cg_params.max_iter) {
''', 'src/cgsolve.c', '''    if (rel_res < cg_params.tol) {
      break;
    }
  }
''', '''    if (rel_res < cg_params.tol) {
      break;
    }
    iter++;
  }
''')
r('cg-helper', 'C07,C17', 'src/cgsolve.c', '''/**
 * @ingroup lin_solve
 *
 * Conjugate gradient solver.''', '''static void residual(l1c_int N,
                     double* x,
                     double* b,
                     double* r,
                     void (*AX_func)(l1c_int n, double* x, double* b, void* AX_data),
                     void* AX_data) {
  AX_func(N, x, r, AX_data);
  l1c_daxpby(N, 1.0, b, -1.0, r);
}

static double rel_norm(double num, double den) { return sqrt(num / den); }

/**
 * @ingroup lin_solve
 *
 * Conjugate gradient solver.''', 'src/cgsolve.c', '''  AX_func(N, x, r, AX_data);      /* r = A * x                   */
  l1c_daxpby(N, 1.0, b, -1.0, r); /* r = 1*b + (-1)*Ax           */
''', '''  residual(N, x, b, r, AX_func, AX_data);
''', 'src/cgsolve.c', '''    rel_res = sqrt(delta / delta_0);''', '''    rel_res = rel_norm(delta, delta_0);''')
r('cg-alpha', 'C07,C17', 'src/cgsolve.c', '''    alpha = delta / cblas_ddot(N, p, 1, q, 1); /* alpha delta/(d'*q) */

    cblas_daxpy(N, alpha, p, 1, x, 1); /* x = alpha*d + x    */
''', '''    double pAp = cblas_ddot(N, q, 1, p, 1);
    alpha = delta / pAp;

    cblas_daxpy(N, alpha, p, 1, x, 1); /* x = alpha*d + x    */
''', 'src/cgsolve.c', '''    beta = delta / delta_old;
    l1c_daxpby(N, 1.0, r, beta, p); /* d = r + beta*p;    */
''', '''    beta = delta / delta_old;
    cblas_dscal(N, beta, p, 1);
    cblas_daxpy(N, 1.0, r, 1, p, 1);
''')
r('cg-order', 'C07', 'src/cgsolve.c', '''    cblas_daxpy(N, alpha, p, 1, x, 1); /* x = alpha*p + x    */

    cblas_daxpy(N, -alpha, q, 1, r, 1); /* r = - alpha*q + r; */
''', '''    cblas_daxpy(N, -alpha, q, 1, r, 1); /* r = - alpha*q + r; */
    cblas_daxpy(N, alpha, p, 1, x, 1); /* x = alpha*p + x    */
''')
r('cg-fuse', 'C07,C17', 'src/cgsolve.c', '''    cblas_daxpy(N, alpha, p, 1, x, 1); /* x = alpha*p + x    */

    cblas_daxpy(N, -alpha, q, 1, r, 1); /* r = - alpha*q + r; */

    l1c_dxmuly_z(N, r, M_inv_diag, z); /* z = M^-1 * r */

    delta_old = delta;
    delta = cblas_ddot(N, r, 1, z, 1); /* delta = r'*z;      */
''', '''    delta_old = delta;
    delta = 0.0;
    for (i = 0; i < N; i++) {
      x[i] += alpha * p[i];
      r[i] -= alpha * q[i];
      z[i] = r[i] * M_inv_diag[i];
      delta += r[i] * z[i];
    }
''')
r('cg-copy', 'C07', 'src/cgsolve.c', '''  for (i = 0; i < N; i++) {
    bestx[i] = x[i];
  }
''', '''  cblas_dcopy(N, x, 1, bestx, 1);
''', 'src/cgsolve.c', '''  cg_result->cgiter = min(iter, cg_params.max_iter); // Loops increment before exiting.
''', '''  if (iter > cg_params.max_iter) {
    iter = cg_params.max_iter;
  }
  cg_result->cgiter = iter;
''')
# ---------------------------------------------------------------- linesearch.c
r('ls-else', 'C06,C17', 'src/linesearch.c', '''    if (isnan(f_val)) {
      step = ls_params.beta * step;
      continue;
    }
''', '''''', 'src/linesearch.c', '''    flin = fx0_orig + ls_params.alpha * step * g_dot_dxu;
''', '''    if (!isnan(f_val)) {
      flin = fx0_orig + ls_params.alpha * step * g_dot_dxu;
    }
''', 'src/linesearch.c', '''    if (f_val <= flin) { /* Sufficient decrease test */''', '''    if (!isnan(f_val) && f_val <= flin) { /* Sufficient decrease test */''')
r('ls-helper', 'C06,C16,C17', 'src/linesearch.c', '''LSStat l1c_linesearch_xu(l1c_int m,''', '''static LSStat ls_result(double flin, double step, int iter, int status) {
  LSStat s = {.flin = flin, .step = step, .status = status};
  s.iter = iter;
  return s;
}

LSStat l1c_linesearch_xu(l1c_int m,''', 'src/linesearch.c', '''      ls_stat.flin = flin;
      ls_stat.step = step;
      ls_stat.iter = iter;
      ls_stat.status = 0;
      return ls_stat;
''', '''      return ls_result(flin, step, iter, 0);
''')
r('ls-for', 'C06,C17', 'src/linesearch.c', '''  for (iter = 1; iter <= MAX_LINESEARCH_ITER; iter++) {
    /* xp = x + s*dx */
    l1c_daxpy_z(n, step, dx, x, xp);
''', '''  for (iter = 1; iter <= MAX_LINESEARCH_ITER; iter++, step *= ls_params.beta) {
    /* xp = x + s*dx */
    l1c_daxpy_z(n, step, dx, x, xp);
''', 'src/linesearch.c', '''    if (isnan(fx0_prime)) {
      step = ls_params.beta * step;
      continue;
    }
''', '''    if (isnan(fx0_prime)) {
      continue;
    }
''', 'src/linesearch.c', '''      *fx0 = fx0_prime;

      ls_stat.flin = flin;
      ls_stat.step = step;
      ls_stat.iter = iter;
      ls_stat.status = 0;
      return ls_stat;
    }

    step = ls_params.beta * step;
  }
''', '''      *fx0 = fx0_prime;

      ls_stat.flin = flin;
      ls_stat.step = step;
      ls_stat.iter = iter;
      ls_stat.status = 0;
      return ls_stat;
    }
  }
''')
r('ls-break', 'C06,C17', 'src/linesearch.c', '''    if (fx0_prime <= flin) { /* Sufficient decrease test */
      cblas_dcopy(n, xp, 1, x, 1);
      *fx0 = fx0_prime;

      ls_stat.flin = flin;
      ls_stat.step = step;
      ls_stat.iter = iter;
      ls_stat.status = 0;
      return ls_stat;
    }

    step = ls_params.beta * step;
  }
''', '''    if (fx0_prime <= flin) { /* Sufficient decrease test */
      break;
    }

    step = ls_params.beta * step;
  }

  if (iter <= MAX_LINESEARCH_ITER) {
    for (l1c_int i = 0; i < n; i++) {
      x[i] = xp[i];
    }
    *fx0 = fx0_prime;
    ls_stat.iter = iter;
    ls_stat.flin = flin;
    ls_stat.step = step;
    return ls_stat;
  }
''')
r('ls-swap', 'C06,C16', 'src/linesearch.c', '''    l1c_daxpy_z(m, step, dx, x, xp);
    l1c_daxpy_z(m, step, du, u, up);
''', '''    for (l1c_int i = 0; i < m; i++) {
      up[i] = u[i] + step * du[i];
      xp[i] = x[i] + step * dx[i];
    }
''')
