"""JSON files in a scratch directory: file contents, names, types, failing reads and allocations"""
from base import *
from o_fault import quiet, masks, hit, bal
import json, os, tempfile, shutil, atexit, threading

CJ = C.CDLL('libcjson.so.1')
CJ.cJSON_Parse.restype = P_
CJ.cJSON_Parse.argtypes = [C.c_char_p]
CJ.cJSON_Delete.argtypes = [P_]
_dir = []


def scratch():
    if not _dir:
        _dir.append(tempfile.mkdtemp(prefix='l1cjson_'))
    return _dir[0]


def rname(rng):
    return str(rng.choice(['N', 'n', 'x', 'X', 'data', 'Data', 'b', 'a_name', '']))


def rnum(rng):
    k = int(rng.integers(0, 5))
    return [int(rng.integers(-5, 6)), float(rng.normal()), float(10.0 ** rng.integers(-20, 20)), int(rng.integers(-2**31, 2**31)), 0][k]


def rval(rng):
    k = int(rng.integers(0, 8))
    if k < 2:
        return rnum(rng)
    if k < 5:
        n = int(rng.choice([0, 1, 2, 3, 8, 9, 17, 100, 1500]))
        return [rnum(rng) for _ in range(n)]
    return ['text', None, {'N': 1}, True][int(rng.integers(0, 4))]


def rdoc(rng):
    return {rname(rng): rval(rng) for _ in range(int(rng.integers(0, 7)))}


@oracle('C20')
def load(lib, rng):
    d = scratch()
    f = os.path.join(d, 'f%d.json' % rng.integers(0, 4))
    kind = str(rng.choice(['json', 'json', 'bad', 'trunc', 'empty', 'missing', 'dir', 'pipe', 'readfail', 'memfail']))
    doc = rdoc(rng)
    text = json.dumps(doc)
    if rng.random() < .3:
        text += '\n' * int(rng.integers(1, 5))
    if kind == 'bad':
        text = str(rng.choice(['not json', '{"a": }', '[1, 2', '{', '   ', '{"a" 1}']))
    if kind == 'trunc':
        text = '{"abc": [1, 2, 3], "d": 4'[:int(rng.integers(1, 25))]
    if kind == 'empty':
        text = ''
    if os.path.isdir(f):
        os.rmdir(f)
    if os.path.lexists(f):
        os.unlink(f)
    th = None
    if kind == 'dir':
        os.mkdir(f)
    elif kind == 'pipe':
        os.mkfifo(f)
        fd = os.open(f, os.O_RDWR)
        os.write(fd, text.encode() + b' ' * 40)
    elif kind != 'missing':
        with open(f, 'wb') as h:
            h.write(text.encode())
    ok = kind == 'json'
    tojson = rng.random() < .6
    lib.reset()
    lib.so.vc_streams(C.c_long(0 if kind == 'readfail' else -1))
    lib.setfail(at=0 if kind == 'memfail' else -1)
    out = P_()
    txt = '%s of a file of kind %s holding %r' % ('load_file_to_json' if tojson else 'load_file_as_text', kind, text[:80])
    st = quiet(lambda: lib.f('load_file_to_json' if tojson else 'load_file_as_text', I_, C.c_char_p, P_)(f.encode(), C.byref(out)))
    lib.setfail()
    if kind == 'pipe':
        os.close(fd)
    need(lib.so.vc_streams_live() == 0, txt + ': stream left open (or closed twice)')
    lib.so.vc_streams(C.c_long(-1))
    if not tojson and kind in ('bad', 'trunc'):
        ok = True
    if kind not in ('dir', 'pipe', 'missing'):
        need(open(f, 'rb').read() == text.encode(), txt + ': the file was changed')
    need((st == 0) == ok, txt + ': status %d' % st)
    if not ok:
        need(lib.get(1) == 0 and lib.get(2) == 0, txt + ': %d block(s) left on failure' % lib.get(1))
        return
    need(out.value, txt + ': null result with status 0')
    if tojson:
        need(lib.get(1) == 0, txt + ': text buffer not released')
        pr = CJ.cJSON_PrintUnformatted
        pr.restype, pr.argtypes = P_, [P_]
        q = pr(out)
        need(json.loads(C.string_at(q).decode()) == json.loads(json.dumps(doc)) if not has_float(doc) else True, txt + ': other document %r' % C.string_at(q)[:80])
        C.CDLL(None).free(C.c_void_p(q))
        CJ.cJSON_Delete(out)
    else:
        need(C.string_at(out.value) == text.encode(), txt + ': text %r' % C.string_at(out.value)[:80])
        lib.so.vc_free(out)
    bal(lib, txt)


def has_float(d):
    return any(isinstance(x, float) or isinstance(v, float) for v in d.values() for x in (v if isinstance(v, list) else [v]))


def clampi(v):
    return 2**31 - 1 if v >= 2**31 - 1 else -2**31 if v <= -2**31 else int(v)


@oracle('C20')
def extract(lib, rng):
    doc = rdoc(rng)
    nm = rname(rng) if rng.random() < .4 or not doc else str(rng.choice(list(doc)))
    d = CJ.cJSON_Parse(json.dumps(doc).encode()) if rng.random() < .93 else None
    k = int(rng.integers(0, 4))
    fn = ('extract_json_int', 'extract_json_double', 'extract_json_int_array', 'extract_json_double_array')[k]
    fail = rng.random() < .15
    lib.reset()
    lib.setfail(at=0 if fail else -1)
    v = doc.get(nm)
    num = lambda q: isinstance(q, (int, float)) and not isinstance(q, bool)
    txt = '%s of %r in %r' % (fn, nm, json.dumps(doc)[:200] if d else None)
    if k < 2:
        o = (I_ if k == 0 else D_)(-77)
        st = quiet(lambda: lib.f(fn, I_, P_, C.c_char_p, P_)(d, nm.encode(), C.byref(o)))
        ok = bool(d) and nm in doc and num(v)
        need((st == 0) == ok, txt + ': status %d' % st)
        want = -77 if not ok else clampi(v) if k == 0 else float(v)
        need(o.value == want, txt + ': %r, expected %r' % (o.value, want))
    else:
        x, n = P_(), I_(-77)
        st = quiet(lambda: lib.f(fn, I_, P_, C.c_char_p, P_, P_)(d, nm.encode(), C.byref(x), C.byref(n)))
        arr = bool(d) and nm in doc and isinstance(v, list)
        failed = fail and lib.get(0) > 0
        ok = arr and not failed
        need((st == 0) == ok, txt + ': status %d%s' % (st, ' (allocation failing)' if failed else ''))
        if not arr:
            need(n.value == 0 or (d is None and n.value == -77), txt + ': claims %d elements' % n.value)
        if ok:
            need(n.value == len(v), txt + ': %d elements' % n.value)
            got = list(((I_ if k == 2 else D_) * n.value).from_address(x.value)) if n.value else []
            want = [clampi(q) if k == 2 else float(q) for q in v]
            need(got == want, txt + ': %r, expected %r' % (got[:12], want[:12]))
            if x.value:
                (lib.so.vc_free if k == 2 else lib.f('l1c_free_double', None, P_))(x)
        bal(lib, txt)
    lib.setfail()
    if d:
        CJ.cJSON_Delete(d)
