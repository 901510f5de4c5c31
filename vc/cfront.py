"""clang JSON AST of the real source files -> Unit (functions with bodies, records, enums, globals)."""
import json, os, re, subprocess, tempfile, hashlib

REPO = os.environ.get('L1C_REPO', '/repo')

CONFIG_H = r'''
#define HAVE_FFTW3_THREADS
#define PACKAGE "l1c"
#define VERSION "0.0.1"
#define _HAVE_MM_MALLOC_
#define _HAVE_POSIX_MEMALIGN_
#define _POSIX_C_SOURCE 200112L
#define restrict __restrict
'''
OMP_H = '''
int omp_get_max_threads(void); int omp_get_num_procs(void); int omp_get_num_threads(void);
int omp_get_thread_num(void); double omp_get_wtime(void); void omp_set_num_threads(int); int omp_in_parallel(void);
'''
# lane-wise stand-in for Agner Fog's vector class library (third party): only declarations, the semantics live in exec.py
VCL_H = """
#pragma once
namespace vcl {
class Vec4d { public:
  double l0, l1, l2, l3;
  Vec4d(); Vec4d(double); Vec4d(double,double,double,double); Vec4d(const Vec4d&);
  Vec4d& operator=(const Vec4d&);
  Vec4d& load(const double*); Vec4d& load_a(const double*); void store(double*) const; void store_a(double*) const;
};
Vec4d operator+(const Vec4d&, const Vec4d&); Vec4d operator-(const Vec4d&, const Vec4d&);
Vec4d operator*(const Vec4d&, const Vec4d&); Vec4d operator/(const Vec4d&, const Vec4d&);
Vec4d operator+(const Vec4d&, double); Vec4d operator+(double, const Vec4d&);
Vec4d operator*(const Vec4d&, double); Vec4d operator*(double, const Vec4d&);
Vec4d operator-(const Vec4d&, double); Vec4d operator-(double, const Vec4d&);
Vec4d operator/(const Vec4d&, double); Vec4d operator/(double, const Vec4d&);
Vec4d operator-(const Vec4d&);
Vec4d& operator+=(Vec4d&, const Vec4d&); Vec4d& operator-=(Vec4d&, const Vec4d&);
Vec4d& operator*=(Vec4d&, const Vec4d&); Vec4d& operator/=(Vec4d&, const Vec4d&);
Vec4d& operator+=(Vec4d&, double); Vec4d& operator-=(Vec4d&, double); Vec4d& operator*=(Vec4d&, double);
double horizontal_add(const Vec4d&); Vec4d log(const Vec4d&); Vec4d abs(const Vec4d&);
Vec4d mul_add(const Vec4d&, const Vec4d&, const Vec4d&);
}
"""
# stand-in for the CPython and NumPy C API used by interfaces/python (third party): the API macros become plain declarations
# of the same name and constants of the same value; their semantics are assumed in specs/s_py.py
PYTHON_H = """
#pragma once
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <stdio.h>
typedef struct _object { long ob_refcnt; } PyObject;
typedef long Py_ssize_t;
typedef PyObject* (*PyCFunction)(PyObject*, PyObject*);
typedef PyObject* (*PyCFunctionWithKeywords)(PyObject*, PyObject*, PyObject*);
typedef struct PyMethodDef { const char* ml_name; PyCFunction ml_meth; int ml_flags; const char* ml_doc; } PyMethodDef;
typedef struct PyModuleDef { int m_base; const char* m_name; const char* m_doc; Py_ssize_t m_size; PyMethodDef* m_methods;
  void* m_slots; int (*m_traverse)(void); int (*m_clear)(void); void* m_free; } PyModuleDef;
#define PyModuleDef_HEAD_INIT 0
#define METH_VARARGS 1
#define METH_KEYWORDS 2
#define PyMODINIT_FUNC PyObject*
PyObject* PyModule_Create(PyModuleDef*);
PyObject* l1cvc_exc(int);
#define PyExc_TypeError l1cvc_exc(1)
#define PyExc_RuntimeError l1cvc_exc(2)
#define PyExc_ValueError l1cvc_exc(3)
#define PyExc_IndexError l1cvc_exc(4)
#define PyExc_MemoryError l1cvc_exc(5)
#define PyExc_OverflowError l1cvc_exc(6)
#define PyExc_Exception l1cvc_exc(7)
#undef Py_None
PyObject* l1cvc_none(void);
#define Py_None l1cvc_none()
void PyErr_SetString(PyObject*, const char*); PyObject* PyErr_NoMemory(void); PyObject* PyErr_Occurred(void); void PyErr_Clear(void);
PyObject* PyErr_Format(PyObject*, const char*, ...);
int PyArg_ParseTupleAndKeywords(PyObject*, PyObject*, const char*, char**, ...);
int PyArg_ParseTuple(PyObject*, const char*, ...);
PyObject* Py_BuildValue(const char*, ...);
void l1cvc_incref(void*); void l1cvc_decref(void*); void l1cvc_xincref(void*); void l1cvc_xdecref(void*);
#define Py_INCREF(o) l1cvc_incref(o)
#define Py_DECREF(o) l1cvc_decref(o)
#define Py_XINCREF(o) l1cvc_xincref(o)
#define Py_XDECREF(o) l1cvc_xdecref(o)
#define Py_CLEAR(o) do { l1cvc_xdecref(o); (o) = NULL; } while (0)
#define Py_BEGIN_ALLOW_THREADS {
#define Py_END_ALLOW_THREADS }
"""
NUMPY_H = """
#pragma once
#include <Python.h>
typedef long npy_intp;
typedef struct { PyObject base; } PyArrayObject;
#define NPY_1_7_API_VERSION 7
#define NPY_INT 5
#define NPY_INT32 5
#define NPY_LONG 7
#define NPY_INT64 7
#define NPY_FLOAT 11
#define NPY_DOUBLE 12
#define NPY_FLOAT64 12
#define NPY_ARRAY_C_CONTIGUOUS 0x0001
#define NPY_ARRAY_F_CONTIGUOUS 0x0002
#define NPY_ARRAY_FORCECAST 0x0010
#define NPY_ARRAY_ENSURECOPY 0x0020
#define NPY_ARRAY_ALIGNED 0x0100
#define NPY_ARRAY_WRITEABLE 0x0400
#define NPY_ARRAY_CARRAY 0x0501
#define NPY_ARRAY_DEFAULT 0x0501
#define NPY_ARRAY_IN_ARRAY 0x0101
#define NPY_ARRAY_OUT_ARRAY 0x0501
#define NPY_ARRAY_INOUT_ARRAY 0x0501
int _import_array(void);
#define import_array() do { if (_import_array() < 0) return NULL; } while (0)
PyObject* PyArray_FROM_OTF(void*, int, int);
int PyArray_NDIM(PyArrayObject*); npy_intp PyArray_DIM(PyArrayObject*, int); npy_intp* PyArray_DIMS(PyArrayObject*); npy_intp* PyArray_SHAPE(PyArrayObject*);
void* PyArray_DATA(PyArrayObject*); npy_intp PyArray_SIZE(PyArrayObject*);
PyObject* PyArray_SimpleNew(int, npy_intp*, int); PyObject* PyArray_ZEROS(int, npy_intp*, int, int); PyObject* PyArray_SimpleNewFromData(int, npy_intp*, int, void*);
"""
# stand-in for Octave's/Matlab's mex.h: declarations only; semantics assumed in specs/s_mex.py
MEX_H = """
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
typedef struct mxArray_tag mxArray;
typedef long mwSize; typedef long mwIndex; typedef char mxChar;
typedef enum { mxREAL = 0, mxCOMPLEX = 1 } mxComplexity;
mwSize mxGetM(const mxArray*); mwSize mxGetN(const mxArray*); mwSize mxGetNumberOfDimensions(const mxArray*); mwSize mxGetNumberOfElements(const mxArray*);
_Bool mxIsDouble(const mxArray*); _Bool mxIsInt32(const mxArray*); _Bool mxIsStruct(const mxArray*); _Bool mxIsChar(const mxArray*); _Bool mxIsScalar(const mxArray*);
_Bool mxIsComplex(const mxArray*); _Bool mxIsSparse(const mxArray*); _Bool mxIsEmpty(const mxArray*);
double* mxGetPr(const mxArray*); void* mxGetData(const mxArray*); double mxGetScalar(const mxArray*);
mxArray* mxGetField(const mxArray*, mwIndex, const char*); void mxSetField(mxArray*, mwIndex, const char*, mxArray*);
int mxGetString(const mxArray*, char*, mwSize);
mxArray* mxCreateDoubleMatrix(mwSize, mwSize, mxComplexity); mxArray* mxCreateDoubleScalar(double);
mxArray* mxCreateStructMatrix(mwSize, mwSize, int, const char**);
void mxDestroyArray(mxArray*);
void mexErrMsgIdAndTxt(const char*, const char*, ...); void mexErrMsgTxt(const char*); void mexWarnMsgTxt(const char*); void mexWarnMsgIdAndTxt(const char*, const char*, ...);
int mexPrintf(const char*, ...);
"""
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        import atexit, shutil
        _scratch = tempfile.mkdtemp(prefix='l1cvc_')
        atexit.register(lambda d=_scratch, pid=os.getpid(): shutil.rmtree(d, ignore_errors=True) if os.getpid() == pid else None)
        with open(os.path.join(_scratch, 'config.h'), 'w') as f:
            f.write(CONFIG_H)
        with open(os.path.join(_scratch, 'omp.h'), 'w') as f:
            f.write(OMP_H)
        os.makedirs(os.path.join(_scratch, 'numpy'))
        for h, t in (('Python.h', PYTHON_H), ('numpy/arrayobject.h', NUMPY_H), ('numpy/ndarraytypes.h', ''), ('mex.h', MEX_H)):
            with open(os.path.join(_scratch, h), 'w') as f:
                f.write(t)
        os.makedirs(os.path.join(_scratch, 'cxx', 'vcl'))
        for h in ('vectorclass.h', 'vectormath_exp.h'):
            with open(os.path.join(_scratch, 'cxx', 'vcl', h), 'w') as f:
                f.write(VCL_H if h == 'vectorclass.h' else '')
    return _scratch


class FrontError(Exception):
    pass


def cflags():
    return ['-I', scratch(), '-I', os.path.join(REPO, 'include'), '-I', os.path.join(REPO, 'src'),
            ]


def run_clang(path, extra=(), cxx=False):
    cmd = ['clang++' if cxx else 'clang', '-std=gnu++14' if cxx else '-std=gnu11', '-fopenmp', '-w', '-mavx2', '-mfma'] + \
        (['-I', os.path.join(scratch(), 'cxx')] if cxx else []) + cflags() + \
        list(extra) + ['-Xclang', '-ast-dump=json', '-fsyntax-only', path]
    p = subprocess.run(cmd, capture_output=True)
    if p.returncode != 0:
        raise FrontError('clang failed on %s: %s' % (path, p.stderr.decode(errors='replace')[:2000]))
    return p.stdout


class Unit:
    def __init__(self, path):
        self.path = path
        self.fns = {}
        self.decls = {}
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.typedefs = {}
        self.src = open(path, 'rb').read()
        self.byid = {}


def annotate(root):
    st = {'line': 0, 'file': None}

    def loc(l):
        if not isinstance(l, dict):
            return
        if 'spellingLoc' in l or 'expansionLoc' in l:
            loc(l.get('spellingLoc'))
            loc(l.get('expansionLoc'))
            return
        if 'file' in l:
            st['file'] = l['file']
        if 'line' in l:
            st['line'] = l['line']

    stack = [root]
    # document order needs recursion-like traversal
    def walk(n):
        if 'loc' in n:
            loc(n['loc'])
            n['_f'] = st['file']
            n['_l'] = st['line']
        r = n.get('range')
        if r:
            loc(r.get('begin'))
            n['_l'] = st['line']
            if '_f' not in n:
                n['_f'] = st['file']
            b = r.get('begin') or {}
            b = b.get('expansionLoc', b)
            n['_off'] = b.get('offset')
            loc(r.get('end'))
        for c in n.get('inner', ()):
            if isinstance(c, dict):
                walk(c)
    import sys
    sys.setrecursionlimit(100000)
    walk(root)


def load(path, cxx=False):
    path = os.path.join(REPO, path) if not os.path.isabs(path) else path
    if not os.path.exists(path):
        raise FrontError('missing source file ' + path)
    u = Unit(path)
    u.cxx = cxx
    root = json.loads(run_clang(path, cxx=cxx))
    annotate(root)

    def visit(n):
        k = n.get('kind')
        if k == 'FunctionDecl':
            body = [c for c in n.get('inner', ()) if c.get('kind') == 'CompoundStmt']
            if body and str(n.get('_f') or path).startswith(REPO):
                n['_body'] = body[-1]
                n['_params'] = [c for c in n.get('inner', ()) if c.get('kind') == 'ParmVarDecl']
                u.fns[n['name']] = n
            u.decls.setdefault(n.get('name'), n)
            u.byid[n['id']] = n
        elif k == 'RecordDecl' and n.get('completeDefinition'):
            fs = []
            for c in n.get('inner', ()):
                if c.get('kind') == 'FieldDecl':
                    fs.append((c.get('name', ''), ty(c)))
            nm = n.get('name')
            if nm:
                u.records['struct ' + nm] = fs
            u.records['#' + n['id']] = fs
        elif k == 'EnumDecl':
            v = -1
            for c in n.get('inner', ()):
                if c.get('kind') == 'EnumConstantDecl':
                    val = None
                    for x in c.get('inner', ()):
                        val = const_value(x)
                    v = val if val is not None else v + 1
                    u.enums[c['id']] = v
                    u.enums[c['name']] = v
        elif k == 'VarDecl':
            u.globals[n['id']] = n
        elif k == 'TypedefDecl':
            u.typedefs[n['name']] = ty(n)
            # typedef struct {...} name  (anonymous)
            for c in n.get('inner', ()):
                o = c.get('ownedTagDecl') or c.get('decl')
                if o and '#' + o['id'] in u.records:
                    u.records.setdefault(n['name'], u.records['#' + o['id']])
        elif k in ('LinkageSpecDecl', 'NamespaceDecl'):
            for c in n.get('inner', ()):
                visit(c)
    for n in root.get('inner', ()):
        visit(n)
    return u


def const_value(n):
    if 'value' in n and n.get('kind') in ('ConstantExpr', 'IntegerLiteral'):
        try:
            return int(n['value'])
        except ValueError:
            return None
    if n.get('kind') in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr', 'ConstantExpr') and len(n.get('inner', ())) == 1:
        return const_value(n['inner'][0])
    return None


def ty(n):
    t = n.get('type', {})
    return t.get('desugaredQualType', t.get('qualType', ''))


def clean_type(t):
    t = re.sub(r'\b(const|volatile|restrict|__restrict|static|register)\b', '', t)
    return re.sub(r'\s+', ' ', t).strip().replace(' *', '*')


def pragma_text(u, node):
    """source text of the #pragma line(s) of an OMP directive node"""
    off = node.get('_off')
    if off is None:
        return ''
    s = u.src
    b = s.rfind(b'\n', 0, off) + 1
    e = b
    while True:
        nl = s.find(b'\n', e)
        if nl < 0:
            nl = len(s)
        line = s[e:nl]
        e = nl + 1
        if not line.rstrip().endswith(b'\\'):
            break
    return s[b:e].decode(errors='replace').replace('\\\n', ' ')
