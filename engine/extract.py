"""Runs the frontend over the translation units of /repo (cached by content) and loads the result."""
import concurrent.futures
import fcntl
import glob
import hashlib
import os
import subprocess
import re
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, 'build')
REPO = os.environ.get('GROOT_REPO', '/repo')
FLAGS = ['-std=gnu++17', '-I/opt/vp/include/concurrentqueue', '-DFMT_SHARED', '-DSPDLOG_COMPILED_LIB',
         '-DSPDLOG_FMT_EXTERNAL', '-DSPDLOG_SHARED_LIB', '-O3', '-DNDEBUG', '-resource-dir',
         '/usr/lib/llvm-18/lib/clang/18']


class ExtractError(Exception):
    pass


def frontend():
    p = subprocess.run(['bash', os.path.join(VERIF, 'tools', 'build.sh')], capture_output=True, text=True)
    if p.returncode:
        raise ExtractError('building the frontend failed:\n' + p.stderr[-2000:])
    return os.path.join(VERIF, p.stdout.strip().splitlines()[-1])


def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def run_frontend(fe, src, key, flags, extra_dir=None):
    out = os.path.join(BUILD, '%s-%s.json' % (os.path.basename(src).replace('.cpp', ''), key))
    if os.path.exists(out):
        os.utime(out)
        return out
    tmp = out + '.%d.tmp' % os.getpid()
    env = dict(os.environ)
    if extra_dir:
        env['GROOTFE_EXTRA'] = extra_dir
    p = subprocess.run([fe, tmp, REPO, src, '--'] + flags, capture_output=True, text=True, env=env)
    if p.returncode or not os.path.exists(tmp):
        raise ExtractError('%s does not compile:\n%s' % (src, p.stderr[-3000:]))
    os.replace(tmp, out)
    return out


def sources():
    s = sorted(glob.glob(os.path.join(REPO, 'src', '*.cpp')))
    return s + [os.path.join(REPO, 'bin', 'groot.cpp')]


def headers():
    return sorted(glob.glob(os.path.join(REPO, 'src', '*.h')) + glob.glob(os.path.join(REPO, 'src', '*.hpp')))


def included(spec):
    """Sources of the program a specification includes."""
    with open(spec) as f:
        names = re.findall(r'#include "(?:src/|bin/)?([^"/]+\.cpp)"', f.read())
    return [p for p in sources() if os.path.basename(p) in names]


def extract(only=None):
    """Exports of all translation units of the program, newest content."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        fe = frontend()
        hs = headers()
        jobs = []
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for s in sources():
                key = digest(hs + [s], os.path.basename(fe) + REPO)
                jobs.append(ex.submit(run_frontend, fe, s, key, FLAGS))
            files = [j.result() for j in jobs]
        spec = []
        sd = os.path.join(VERIF, 'spec')
        for s in sorted(glob.glob(os.path.join(sd, '*.cpp'))):
            if only is not None and os.path.basename(s)[:-4] not in only:
                continue
            key = digest(hs + glob.glob(os.path.join(sd, '*.h')) + [s] + included(s), os.path.basename(fe) + REPO + 'spec')
            flags = FLAGS + ['-I' + os.path.join(REPO, 'src'), '-I' + REPO, '-fno-access-control', '-Wno-everything']
            spec.append((s, lambda s=s, key=key, flags=flags: run_frontend(fe, s, key, flags, sd)))
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            fs = [(s, ex.submit(f)) for s, f in spec]
            specs = {}
            for s, j in fs:
                try:
                    specs[os.path.basename(s)[:-4]] = j.result()
                except ExtractError as e:
                    specs[os.path.basename(s)[:-4]] = e
        clean(files + [x for x in specs.values() if isinstance(x, str)])
        return files, specs


def clean(keep):
    """Drop exports of older contents (a bounded number is kept)."""
    old = [p for p in glob.glob(os.path.join(BUILD, '*.json')) if p not in keep]
    now = time.time()
    old = sorted((os.path.getmtime(p), p) for p in old)
    for t, p in old[:-60]:
        if now - t > 3600:           # another run may be reading a recent one
            os.unlink(p)


if __name__ == '__main__':
    f, s = extract()
    print('\n'.join(f))
    for k, v in s.items():
        print(k, v)
