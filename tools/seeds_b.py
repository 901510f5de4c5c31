SEEDS = {}
AX = '''static double dotp(int n,double*a,double*b){double s=0;for(int i=0;i<n;i++)s+=a[i]*b[i];return s;}
'''
SEEDS['b08-same-buffer'] = dict(property='C08', needs='two calls of the normal operator with the same buffer holding different vectors',
  what='A*x is not recomputed when the normal operator is handed the buffer of the previous call',
  edits=[('src/matrix_transforms.c', '''  Ax(x_in, xfm_dwork);
  Aty(xfm_dwork, x_out);''', '''  /* A * x is still in the work array when we see the same vector again. */
  static double* x_last = NULL;
  static double* dwork_last = NULL;
  if (x_in != x_last || dwork_last != xfm_dwork) {
    Ax(x_in, xfm_dwork);
    x_last = x_in;
    dwork_last = xfm_dwork;
  }
  Aty(xfm_dwork, x_out);''')],
  demo='''int main(){int n=3,m=5;double*A=l1c_malloc_double(n*m),*x=l1c_malloc_double(m),*z=l1c_malloc_double(m),*y=l1c_malloc_double(n),*w=l1c_malloc_double(m);
for(int i=0;i<n*m;i++)A[i]=rnd();
l1c_AxFuns f;if(l1c_setup_matrix_transforms(n,m,A,&f))return bad("setup");
for(int t=0;t<3;t++){for(int i=0;i<m;i++)x[i]=rnd();f.AtAx(x,z);f.Ax(x,y);f.Aty(y,w);
for(int i=0;i<m;i++)if(fabs(z[i]-w[i])>1e-12)return bad("AtAx != A'(A x)");}
return 0;}
''')
SEEDS['b09-mask-pollution'] = dict(property='C09', needs='a call of the transpose synthesis M\' before a call of the adjoint A\' on the same transform set, with unsampled entries',
  what='M\' leaves the whole image in the scatter buffer, so that later adjoints see nonzero entries off the sample set',
  edits=[('src/dct1.c', '''  fftw_execute_r2r(dct_plan_MtEty, y, x_a); //  M^T * dct_y_sparse

  x_a[0] = x_a[0] / sqrt(2.0);
  for (i = 0; i < dct_m; i++) {
    x_a[i] = x_a[i] * dct_root_1_by_2N;
  }''', '''  // y need not be aligned for FFTW: run the plan on its own arrays.
  cblas_dcopy(dct_m, y, 1, dct_Ety_sparse, 1);
  fftw_execute(dct_plan_MtEty); //  M^T * dct_y_sparse

  dct_x[0] = dct_x[0] / sqrt(2.0);
  for (i = 0; i < dct_m; i++) {
    x_a[i] = dct_x[i] * dct_root_1_by_2N;
  }''')],
  demo='''int main(){int n=4,m=9;l1c_int pix[4]={1,3,4,8};double*x=l1c_malloc_double(m),*y=l1c_malloc_double(m),*a=l1c_malloc_double(m),*c=l1c_malloc_double(m);
l1c_AxFuns f;if(l1c_setup_dct_transforms(n,m,1,dct1,pix,&f))return bad("setup");
for(int i=0;i<m;i++){x[i]=rnd();y[i]=rnd();a[i]=c[i]=0;}
f.Aty(y,a);f.Mty(x,c);f.Aty(y,c);
for(int i=0;i<m;i++)if(fabs(a[i]-c[i])>1e-12)return bad("A'y depends on earlier calls");
f.destroy();return 0;}
''')
SEEDS['b10-tall-image'] = dict(property='C10', needs='an image with more rows than columns, and the transpose synthesis operator M\'',
  what='only the first min(mrow,mcol) entries of the first column get the 1/sqrt(2) weight',
  edits=[('src/dct2.c', '''  cblas_dscal(dct2_mrow * dct2_mcol, dct2_root_1_by_4NM, x, 1);

  x[0] = x[0] * 0.5;
  // Across the columns of the first row.
  cblas_dscal(dct2_mcol - 1, one_by_root2, x + 1, 1);

  // Down the rows of the first column.
  cblas_dscal(dct2_mrow - 1, one_by_root2, x + dct2_mcol, dct2_mcol);''', '''  cblas_dscal(dct2_mrow * dct2_mcol, dct2_root_1_by_4NM, x, 1);

  x[0] = x[0] * 0.5;
  // Across the columns of the first row and down the rows of the first column.
  l1c_int n_edge = dct2_mrow < dct2_mcol ? dct2_mrow : dct2_mcol;
  cblas_dscal(dct2_mcol - 1, one_by_root2, x + 1, 1);
  cblas_dscal(n_edge - 1, one_by_root2, x + dct2_mcol, dct2_mcol);''')],
  demo=AX + '''int main(){int r=7,q=4,m=r*q;l1c_int pix[3]={2,9,20};double*x=l1c_malloc_double(m),*y=l1c_malloc_double(m),*a=l1c_malloc_double(m),*c=l1c_malloc_double(m);
l1c_AxFuns f;if(l1c_setup_dct_transforms(3,r,q,dct2,pix,&f))return bad("setup");
for(int i=0;i<m;i++){x[i]=rnd();y[i]=rnd();a[i]=c[i]=0;}
f.Mx(x,a);f.Mty(y,c);
if(fabs(dotp(m,a,y)-dotp(m,x,c))>1e-10)return bad("<Mx,y> != <x,M'y>");
f.destroy();return 0;}
''')
SEEDS['b11-sorted-only'] = dict(property='C11', needs='an index array that is not sorted, with the out-of-range index in the middle',
  what='set-up only looks at the ends of the index array and accepts out-of-range sample indices in between',
  edits=[('src/dct_transforms.c', '''  l1c_int idx = 0;
  for (int i = 0; i < n; i++) {
    idx = pix_idx[i];
    if (idx > max_idx || idx < 0) {
      return L1C_INVALID_ARGUMENT;
    }
  }
  return L1C_SUCCESS;''', '''  /* The indeces are ordered, so the ends tell. */
  if (pix_idx[0] < 0 || pix_idx[n - 1] > max_idx || pix_idx[0] > max_idx ||
      pix_idx[n - 1] < 0) {
    return L1C_INVALID_ARGUMENT;
  }
  return L1C_SUCCESS;''')],
  demo='''int main(){l1c_int pix[4]={0,400,2,3};l1c_AxFuns f;
int s=l1c_setup_dct_transforms(4,4,4,dct2,pix,&f);
if(s!=L1C_INVALID_ARGUMENT)return bad("out-of-range index accepted");
return 0;}
''')
SEEDS['b12-shared-scratch'] = dict(property='C12', needs='synthesis mode with a positive TV weight (the dictionary is applied with the shared scratch vector as its output)',
  what='the dictionary writes its TV blocks over its own output when called from the measurement operator',
  edits=[('src/dct_tv_transforms.c', '''  double* u_TVV = u + _inc_TVV;
  double* u_TVH = u + _inc_TVH;
  ax_funs_local.Mx(v, u);
  cblas_dcopy(_m, u, 1, y, 1);''', '''  /* One scratch block is enough, each is added to y right away. */
  double* u_TVV = u;
  double* u_TVH = u;
  ax_funs_local.Mx(v, u);
  cblas_dcopy(_m, u, 1, y, 1);''')],
  demo=AX + '''int main(){int r=4,q=5,m=r*q,p=3*m,n=6;l1c_int pix[6]={2,9,11,12,15,18};double*x=l1c_malloc_double(p),*y=l1c_malloc_double(n),*a=l1c_malloc_double(m),*c=l1c_malloc_double(n);
l1c_AxFuns f;if(l1c_setup_dctTV_transforms(n,r,q,.7,.4,dct2,synthesis,pix,&f))return bad("setup");
for(int i=0;i<p;i++)x[i]=rnd();
f.Mx(x,a);f.Ax(x,y);
for(int i=0;i<n;i++)if(fabs(y[i]-a[pix[i]])>1e-12)return bad("A x != (M x) at the samples");
f.destroy();return 0;}
''')
