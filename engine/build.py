"""Builds what a check needs from /repo's current working tree: the LLVM IR that is
executed symbolically, and native programs to replay inputs on."""
import os, subprocess, tempfile, shutil, atexit, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')

CLANG = ['clang++', '-std=c++14', '-include', os.path.join(HARNESS, 'noextern.h'), '-O1', '-fno-vectorize', '-fno-slp-vectorize',
         '-fno-unroll-loops', '-w', '-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm']
OPT = ['opt-18', '-S', '-passes=function(sroa,early-cse,simplifycfg,adce),globaldce']


class BuildError(Exception):
    pass


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(' '.join(cmd[:4]) + ' ...: ' + r.stdout.decode('utf-8', 'replace')[-3000:])


class Builder:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='floaxie-verif.')
        self.pid = os.getpid()
        atexit.register(self.close)
        self.modules = {}

    def close(self):
        if os.getpid() == self.pid and self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)
            self.dir = None

    def ir_text(self, tu):
        raw = os.path.join(self.dir, tu + '.raw.ll')
        out = os.path.join(self.dir, tu + '.ll')
        sh(CLANG + ['-I' + os.path.join(REPO, 'include'), os.path.join(HARNESS, tu + '.cpp'), '-o', raw])
        sh(OPT + [raw, '-o', out])
        with open(out) as f:
            return f.read()

    def module(self, tu):
        m = self.modules.get(tu)
        if m is None:
            import ir
            m = self.modules[tu] = ir.parse_module(self.ir_text(tu))
        return m

    def driver(self, san=False):
        """replay program built from the same harness files"""
        out = os.path.join(self.dir, 'driver-%s' % (san if san else 'native'))
        if os.path.exists(out):
            return out
        srcs = [os.path.join(HARNESS, x) for x in ('print.cpp', 'print16.cpp', 'parse.cpp', 'diy.cpp', 'arith.cpp', 'frac.cpp', 'tool.cpp', 'pair.cpp', 'driver.cpp')]
        flags = ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'] if san else ['-O1']
        if san == 'thread':
            flags = ['-O1', '-g', '-fsanitize=thread']
        pre = 'r-' if san == 'thread' else 's-' if san else 'n-'
        procs = []
        objs = []
        for s in srcs:
            o = os.path.join(self.dir, pre + os.path.basename(s) + '.o')
            objs.append(o)
            procs.append((s, subprocess.Popen(['g++', '-std=c++14', '-w'] + flags + ['-I' + os.path.join(REPO, 'include'), '-c', s, '-o', o],
                                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        # a part which the tree does not compile any more is left out: its commands answer "?"
        for s, p in procs:
            t = p.communicate()[0].decode('utf-8', 'replace')
            if p.returncode:
                if s.endswith('driver.cpp'):
                    raise BuildError(s + ': ' + t[-2000:])
                objs = [o for o in objs if os.path.basename(o) != pre + os.path.basename(s) + '.o']
        sh(['g++', '-Wl,-z,muldefs'] + flags + objs + ['-o', out, '-lpthread'])
        return out
