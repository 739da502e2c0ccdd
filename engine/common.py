"""Build and cache the MIR dump of /repo's current tree; obligations, evidence, known findings."""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ZKSA_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')


class Broken(Exception):
    """the source cannot be analysed (it does not compile, or an anchor is gone)"""


def tree_hash():
    h = hashlib.sha256()
    fs = []
    for base, ds, names in os.walk(os.path.join(REPO, 'src')):
        ds.sort()
        fs += [os.path.join(base, n) for n in names]
    fs += [os.path.join(REPO, n) for n in ('Cargo.toml', 'Cargo.lock', 'build.rs', 'rust-toolchain', 'rust-toolchain.toml')]
    fs.append(os.path.join(ROOT, 'engine/driver/main.rs'))
    for f in sorted(fs):
        if os.path.isfile(f):
            h.update(f.encode())
            h.update(open(f, 'rb').read())
    return h.hexdigest()[:24]


def sysroot(env):
    return subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], env=env, capture_output=True, text=True).stdout.strip()


def dump():
    """path of the MIR dump for the current tree"""
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'mir-%s.json' % tree_hash())
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        env = dict(os.environ)
        env.setdefault('HOME', '/root')
        for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC'):
            env.pop(k, None)
        root = sysroot(env)
        drv = os.path.join(BUILD, 'zkdrv-' + hashlib.sha256(open(os.path.join(ROOT, 'engine/driver/main.rs'), 'rb').read()).hexdigest()[:12])
        if not os.path.exists(drv):
            r = subprocess.run(['rustc', '+nightly', '-O', '--edition', '2021', os.path.join(ROOT, 'engine/driver/main.rs'),
                                '-o', drv + '.tmp'], env=env, capture_output=True, text=True, cwd=BUILD)
            if r.returncode:
                raise Broken('the MIR driver does not build: ' + r.stderr[-800:])
            os.rename(drv + '.tmp', drv)
        # a cargo view of the sources whose lock file and target directory are ours
        ws = os.path.join(BUILD, 'ws')
        shutil.rmtree(ws, ignore_errors=True)
        os.makedirs(ws)
        for n in os.listdir(REPO):
            if n in ('.git', 'target', 'Cargo.lock'):
                continue
            os.symlink(os.path.join(REPO, n), os.path.join(ws, n))
        lockf = os.path.join(REPO, 'Cargo.lock')
        if not os.path.exists(lockf):
            lockf = '/opt/vp/Cargo.lock'
        if os.path.exists(lockf):
            shutil.copy(lockf, os.path.join(ws, 'Cargo.lock'))
        tgt = os.path.join(BUILD, 'target')
        fp = os.path.join(tgt, 'debug/.fingerprint')
        if os.path.isdir(fp):
            for n in os.listdir(fp):
                if n.startswith('zk_sql') or n.startswith('zksql'):
                    shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
        tmp = out + '.tmp'
        if os.path.exists(tmp):
            os.remove(tmp)
        env.update(CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=tgt, LD_LIBRARY_PATH=os.path.join(root, 'lib'),
                   RUSTC_WORKSPACE_WRAPPER=drv, ZKSA_OUT=tmp, CARGO_INCREMENTAL='0',
                   CARGO_PROFILE_DEV_DEBUG_ASSERTIONS='false', CARGO_PROFILE_DEV_OVERFLOW_CHECKS='false')
        r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--lib'], cwd=ws, env=env, capture_output=True, text=True)
        if r.returncode or not os.path.exists(tmp):
            raise Broken('the crate does not compile: ' + r.stderr[-1200:])
        for n in os.listdir(BUILD):
            if n.startswith('mir-') and n.endswith('.json'):
                p = os.path.join(BUILD, n)
                if time.time() - os.path.getmtime(p) > 86400:
                    os.remove(p)
        os.rename(tmp, out)
    return out


_prog = []


def program():
    if not _prog:
        import mir
        _prog.append(mir.Program(dump()))
    return _prog[0]


class Dead(Exception):
    """a function that never returns"""


class Missing(KeyError):
    """a function or type the rules are anchored in does not exist"""


class Ctx:
    """collects the obligations of one property"""

    def __init__(self, pid):
        self.pid = pid
        self.obs = []          # (key, ok, where, detail)
        self.undecided = []
        self.functions = set()
        self.count = {}
        self.notes = []
        self.assumptions = []
        self.incomplete = False

    def prog(self):
        return program()

    def ob(self, key, ok, where='', detail=''):
        self.obs.append((key, bool(ok), where, detail))
        return ok

    def fail(self, key, where='', detail=''):
        self.ob(key, False, where, detail)

    def skip(self, key, why):
        self.undecided.append((key, why))

    def add(self, what, n=1):
        self.count[what] = self.count.get(what, 0) + n

    def saw(self, *fns):
        self.functions.update(fns)

    def span(self, fn):
        try:
            b = self.prog().fn(fn)
            return '%s (%s)' % (fn, b.span[0])
        except Exception:
            return fn

    def floor(self, what, n):
        """at least n instances must have been analysed"""
        got = self.count.get(what, 0)
        self.ob('count/%s' % what, got >= n, '', 'analysed %d %s, expected at least %d' % (got, what, n))


def known():
    """entries of the known-findings file: {(property, key with _ for spaces): text}"""
    out = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: '):
                f = l[len('known: '):].split(' ', 2)
                d = dict(x.split('=', 1) for x in f[:2])
                out[(d['property'], d['key'])] = f[2] if len(f) > 2 else ''
    return out


def finish(ctx, meta, t0, tier, seed):
    kf = known()
    bad, found = [], []
    for key, ok, where, detail in ctx.obs:
        if ok:
            continue
        if (ctx.pid, key.replace(' ', '_')) in kf:
            found.append((key, kf[(ctx.pid, key.replace(' ', '_'))]))
        else:
            bad.append((key, where, detail))
    ev = dict(property=ctx.pid, tier=tier, seed=seed, level='other', wall_s=round(time.time() - t0, 2), violations=len(bad),
              assumptions=meta.get('assumptions', []) + ctx.assumptions,
              coverage=dict(explanation=meta['explanation'], rule=meta.get('rule', ''),
                            obligations=len(ctx.obs), discharged=sum(1 for o in ctx.obs if o[1]),
                            functions_analysed=len(ctx.functions), functions=sorted(ctx.functions),
                            counts=ctx.count, undecided=[list(u) for u in ctx.undecided],
                            obligation_list=[o[0] for o in ctx.obs], known_findings=[k for k, _ in found],
                            notes=ctx.notes))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', ctx.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k, txt in found:
        print('KNOWN-FINDING: property=%s %s: %s' % (ctx.pid, k, txt))
    for k, why in ctx.undecided:
        print('undecided: %s: %s' % (k, why))
    if bad:
        rp = os.path.join(ROOT, 'evidence', ctx.pid + '.violations.txt')
        with open(rp, 'w') as f:
            for k, w, d in bad:
                f.write('%s\n  at %s\n  %s\n' % (k, w, d))
        for k, w, d in bad[:12]:
            print('%s\n  at %s\n  %s' % (k, w, d[:1500]))
        print('VIOLATION property=%s replay=%s' % (ctx.pid, rp))
        return 1
    print('%s: %d obligations hold, %d functions analysed, %d undecided, %.1f s' % (
        ctx.pid, len(ctx.obs) - len(found), len(ctx.functions), len(ctx.undecided), time.time() - t0))
    return 0
