"""Replay harnesses: compiled together with /repo's current sources (never a copy of the code)."""
import os, subprocess, glob, hashlib, sys
from concurrent.futures import ThreadPoolExecutor
from . import cast
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, 'build')
LIBDIR = '/usr/lib/x86_64-linux-gnu'

def objs_flags(opt):
    return ['g++', '-std=c++17', opt, '-g', '-DNDEBUG', '-w'] + [f for f in cast.flags(BUILD + '/gen') if f.startswith('-I') or f.startswith('-DARMA')]

def compile_one(src, out, opt, extra=()):
    cmd = objs_flags(opt) + list(extra) + ['-c', src, '-o', out]
    p = subprocess.run(cmd, capture_output=True, text=True)
    return src, p.returncode, p.stderr

def build(pid, harness, sources, opt='-O1', san=False):
    """returns (executable, '') or (None, error)"""
    d = os.path.join(BUILD, 'replay', pid + ('.san' if san else ''))
    os.makedirs(d, exist_ok=True)
    cast.genproto(BUILD + '/gen')
    jobs = []
    extra = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer'] if san else []
    srcs = [os.path.join(VERIF, 'replay', harness)]
    for s in sources:
        if s == 'proto': srcs += glob.glob(BUILD + '/gen/src/proto/*.cc')
        elif s.startswith('shim:'): srcs.append(os.path.join(VERIF, 'shim', s[5:]))
        else: srcs.append(os.path.join(cast.REPO, 'src', s))
    objs = []
    for s in srcs:
        o = os.path.join(d, os.path.basename(s) + '.o'); objs.append(o)
        jobs.append((s, o))
    with ThreadPoolExecutor(8) as ex:
        for src, rc, err in ex.map(lambda j: compile_one(j[0], j[1], opt, extra), jobs):
            if rc: return None, 'compiling %s: %s' % (src, err[:3000])
    exe = os.path.join(d, 'replay')
    libs = sorted(glob.glob(LIBDIR + '/libabsl_*.a'))
    cmd = ['g++', '-o', exe] + objs + extra + ['-lprotobuf', '-lsvm', '-Wl,--start-group'] + libs + ['-Wl,--end-group', '-lpthread', '-ldl']
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode: return None, 'linking: ' + p.stderr[:3000]
    return exe, ''
