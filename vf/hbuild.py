"""Builds the concrete replay programs from /repo's current sources (with sanitizers) in a scratch directory."""
import os, subprocess, concurrent.futures, glob
from . import prog

HARN = os.path.join(os.path.dirname(prog.HERE), 'harness')
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=alignment,vptr,function', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']

def _cc(src, dst, flags, san):
    cxx = src.endswith('.cpp')
    cc = (['clang++-18', '-std=c++17'] if cxx else ['clang-18']) + ['-g1', '-O1', '-w'] + (SAN if san else []) + flags + ['-c', src, '-o', dst]
    p = subprocess.run(cc, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise prog.BuildError('%s: %s' % (src, p.stdout.decode()[-3000:]))
    return dst

def build(out, harnesses, san=True):
    """-> {harness source name: binary}"""
    os.makedirs(out, exist_ok=True)
    prog.prepare_headers(out)
    fl = prog.cflags(out)
    need_cxx = any(h.endswith('.cpp') for h in harnesses)
    srcs = prog.c_sources() + (prog.cxx_sources() if need_cxx else [])
    res = {}
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        objs = []
        for s in srcs:
            rel = os.path.relpath(s, os.path.join(prog.REPO, 'libeantic')).replace('/', '__')
            objs.append(ex.submit(_cc, s, os.path.join(out, rel + '.o'), fl, san))
        hs = [(h, ex.submit(_cc, os.path.join(HARN, h), os.path.join(out, 'h_' + h + '.o'), fl + ['-I' + HARN], san)) for h in harnesses]
        ofs = [o.result() for o in objs]
        for h, o in hs:
            b = os.path.join(out, 'bin_' + h.replace('.', '_'))
            cc = ['clang++-18' if need_cxx else 'clang-18'] + (SAN if san else []) + [o.result()] + ofs + ['-lflint', '-lmpfr', '-lgmpxx', '-lgmp', '-lm', '-lpthread', '-o', b]
            p = subprocess.run(cc, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise prog.BuildError('%s: %s' % (h, p.stdout.decode()[-3000:]))
            res[h] = b
    return res

if __name__ == '__main__':
    import sys, time
    t = time.time()
    print(build(sys.argv[1], sys.argv[2:]), time.time() - t)
