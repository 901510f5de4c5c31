#!/usr/bin/env python3
"""(Re)generates /verif/seeded/<id>/ from the definitions in seeds_*.py beside this file.  Not used by any check."""
import os, sys, json, subprocess, glob, shutil, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
OUT = os.path.join(os.path.dirname(HERE), 'seeded')
DEMO_SH = '''#!/bin/bash
# cwd: /repo, after the build.  Exit 0: the property holds on this demonstration; nonzero: it is broken.
H=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d) || exit 99
trap 'rm -rf "$D"' EXIT
R=$PWD
gcc -std=gnu11 -O1 -w -march=x86-64-v3 -Iinclude -Isrc -I_build -I_build/include -I"$H" "$H/demo.c" -o "$D/demo" -L_build/src -ll1c -lopenblas -lfftw3 -lpthread -lm -Wl,-rpath,"$R/_build/src" %s || exit 98
cd "$D" && OMP_NUM_THREADS=${DEMO_THREADS:-2} OPENBLAS_NUM_THREADS=1 timeout 120 ./demo
'''
ASAN_SH = '''#!/bin/bash
# cwd: /repo, after the build.  Exit 0: the property holds on this demonstration; nonzero: it is broken.
# The library sources are compiled with the address sanitizer, in a scratch directory.
H=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d) || exit 99
trap 'rm -rf "$D"' EXIT
F="-O1 -g -w -march=x86-64-v3 -fopenmp -fsanitize=address,undefined -fno-sanitize-recover=all -Iinclude -Isrc -I_build -I_build/include -I_build/src -I$H"
for f in src/*.c; do gcc -std=gnu11 $F -c "$f" -o "$D/$(basename $f).o" & done
for f in src/vcl/*.cpp; do g++ $F -c "$f" -o "$D/$(basename $f).o" & done
wait
gcc -std=gnu11 $F -c "$H/demo.c" -o "$D/demo.o" || exit 98
g++ -fsanitize=address,undefined -fopenmp "$D"/*.o -o "$D/demo" -lopenblas -lfftw3_omp -lfftw3 -lcjson -lpthread -lm || exit 98
cd "$D" && ASAN_OPTIONS=detect_leaks=0 OMP_NUM_THREADS=2 OPENBLAS_NUM_THREADS=1 timeout 120 ./demo
'''
CLANG_SH = '''#!/bin/bash
# cwd: /repo, after the build.  Exit 0: the property holds on this demonstration; nonzero: it is broken.
# The library sources are compiled with clang's alignment checks (which cover __builtin_assume_aligned), in a scratch directory.
H=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d) || exit 99
trap 'rm -rf "$D"' EXIT
clang -std=gnu11 -O1 -g -w -march=x86-64-v3 -fsanitize=alignment -fno-sanitize-recover=all -Iinclude -Isrc -I_build/include -I"$H" "$H/demo.c" src/bregman.c src/TV.c src/l1c_math.c src/l1c_memory.c -o "$D/demo" -lopenblas -lm || exit 98
cd "$D" && OPENBLAS_NUM_THREADS=1 timeout 120 ./demo
'''
PY_SH = '''#!/bin/bash
# cwd: /repo, after the build.  Exit 0: the property holds on this demonstration; nonzero: it is broken.
H=$(cd "$(dirname "$0")" && pwd)
export ROOT=$PWD PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=2 OPENBLAS_NUM_THREADS=1
cd /tmp && timeout 120 /usr/bin/python3 "$H/demo.py"
'''
OCT_SH = '''#!/bin/bash
# cwd: /repo, after the build.  Exit 0: the property holds on this demonstration; nonzero: it is broken.
H=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d) || exit 99
trap 'rm -rf "$D"' EXIT
export ROOT=$PWD HOME=$D OMP_NUM_THREADS=2 OPENBLAS_NUM_THREADS=1
cd "$D" && timeout 200 octave-cli --no-gui --norc --quiet "$H/demo.m"
'''
PRE = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "l1c.h"
static unsigned long long S_ = 88172645463325252ULL;
static double rnd(void){S_^=S_<<13;S_^=S_>>7;S_^=S_<<17;return (double)(S_>>11)/9007199254740992.0*2-1;}
static int bad(const char*m){printf("BROKEN: %s\\n",m);return 1;}
'''


def main():
    only = sys.argv[1:]
    for f in sorted(glob.glob(HERE + '/seeds_*.py')):
        mod = importlib.import_module(os.path.basename(f)[:-3])
        for sid, s in mod.SEEDS.items():
            if only and sid not in only:
                continue
            w = '/tmp/mkseed_wt'
            shutil.rmtree(w, ignore_errors=True)
            os.makedirs(w)
            subprocess.check_call('git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A -f && git -c user.name=x -c user.email=x@x commit -qm b' % (w, w), shell=True)
            for path, old, new in s['edits']:
                p = os.path.join(w, path)
                t = open(p).read()
                if t.count(old) != 1:
                    print(sid, 'edit does not apply:', path, t.count(old))
                    break
                open(p, 'w').write(t.replace(old, new))
            else:
                d = os.path.join(OUT, sid)
                os.makedirs(d, exist_ok=True)
                diff = subprocess.check_output(['git', '-C', w, 'diff'])
                open(d + '/patch.diff', 'wb').write(diff)
                open(d + '/demo.sh', 'w').write(OCT_SH if s.get('oct') else PY_SH if s.get('py') else CLANG_SH if s.get('clang') else ASAN_SH if s.get('asan') else DEMO_SH % s.get('link', ''))
                os.chmod(d + '/demo.sh', 0o755)
                open(d + ('/demo.m' if s.get('oct') else '/demo.py' if s.get('py') else '/demo.c'), 'w').write(('' if s.get('py') or s.get('oct') else PRE) + s['demo'])
                json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']), open(d + '/meta.json', 'w'), indent=1)
                print(sid, 'written')
            shutil.rmtree(w, ignore_errors=True)


main()
