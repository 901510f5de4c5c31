"""sanity of the tool chain; nothing to build (pure Python over clang and z3)"""
import subprocess, sys
sys.path[:0] = ['/verif/vc', '/verif/vc/specs']
import z3, numpy
import props
props.load_specs()
subprocess.run(['clang', '--version'], check=True, stdout=subprocess.DEVNULL)
print('setup ok')
