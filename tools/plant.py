#!/usr/bin/env python3
"""plant.py FILE [id...]: build and confirm the planted bugs described in FILE (a python file defining SEEDS), then run our checks.
Works in a scratch copy of /repo under /tmp; writes /verif/seeded/<id>/ only for the ones confirmed."""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
SCR = '/tmp/plant'
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_OPT_LEVEL='1', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',
           CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TARGET_DIR=SCR + '/target', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='')

DEMO = '''#!/bin/bash
# exit 0 when the property holds, nonzero when it is broken: runs a test added to a scratch copy of the crate
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd /repo || exit 2
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/r" && cp -a Cargo.toml Cargo.lock src benches "$t/r/" && cp -a target "$t/target" || exit 2
rm -rf "$t"/target/debug/.fingerprint/zk_sql-* "$t"/target/debug/incremental/zk_sql-*
cat "$here/demo.rs" >> "$t/r/%s" || exit 2
cd "$t/r" || exit 2
export CARGO_TARGET_DIR=$t/target
timeout -k 5 280 cargo test --offline --lib vdemo > "$t/log" 2>&1
s=$?
tail -40 "$t/log"
[ $s = 0 ] && grep -q 'test result: ok. [1-9]' "$t/log"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def reset():
    if not os.path.isdir(SCR):
        sh('cp -a /repo ' + SCR)
    sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', cwd=SCR)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for s in ns['SEEDS']:
        if want and s['id'] not in want:
            continue
        reset()
        for f, old, new in s['edits']:
            p = os.path.join(SCR, f)
            t = open(p).read()
            assert t.count(old) == s.get('n', 1), (s['id'], f, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git diff', cwd=SCR).stdout
        d = '/tmp/plantdemo/' + s['id']
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/patch.diff', 'w').write(diff)
        where = s.get('where', 'src/zksql_poly_iop/mod.rs')
        body = s['demo']
        if s.get('kit', True):
            body = '\n#[cfg(test)]\nmod vdemo {\n' + open(HERE + '/kit.rs').read() + body + '\n}\n'
        else:
            body = '\n#[cfg(test)]\nmod vdemo {\n' + body + '\n}\n'
        open(d + '/demo.rs', 'w').write(body)
        open(d + '/demo.sh', 'w').write(DEMO % where)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        # tests with the patch
        res = []
        if not s.get('skip'):
            r = sh('timeout 800 cargo test --workspace --no-fail-fast --offline -- --test-threads 8', cwd=SCR, env=ENV)
            ok = set(re.findall(r'^test (\S+) \.\.\. ok', r.stdout, re.M))
            miss = [t for t in stable if t.split('::', 1)[1] not in ok and 'src/lib.rs' in t]
            res.append('tests ' + ('pass' if not miss and ok else 'FAIL %s %s' % (miss[:4], r.stderr[-600:] if not ok else '')))
            # demo with the patch, on the scratch copy: point the script at it
            dm = (DEMO % where).replace('cd /repo', 'cd ' + SCR).replace('. /opt/vp/env.sh', '. /opt/vp/env.sh; cd ' + SCR)
            open(d + '/tmp.sh', 'w').write(dm)
            r1 = sh('bash %s/tmp.sh' % d)
            reset()
            r0 = sh('bash %s/tmp.sh' % d)
            os.remove(d + '/tmp.sh')
            res.append('demo patched %d (want !=0) clean %d (want 0)' % (r1.returncode, r0.returncode))
            if r1.returncode == 0 or r0.returncode != 0 or 'could not compile' in r1.stdout:
                res.append('BAD DEMO\n--- patched\n%s\n--- clean\n%s' % (r1.stdout[-1500:], r0.stdout[-2500:]))
            good = not miss and ok and r1.returncode and not r0.returncode and 'could not compile' not in r1.stdout
        else:
            good = False
        if good:
            dst = V + '/seeded/' + s['id']
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(d, dst)
        # our checks
        reset()
        subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=SCR, check=True)
        r = sh('python3 %s/check.py --all' % V, env=dict(os.environ, ZKSA_REPO=SCR))
        hit = re.findall(r'VIOLATION property=(\S+)', r.stdout)
        res.append('CAUGHT' if s['prop'] in hit else 'MISSED (%s)' % ','.join(hit))
        res.append('by ' + ','.join(hit) + ' undecided %d' % r.stdout.count('undecided:'))
        print(s['id'], 'KEPT' if good else 'not kept', ' | '.join(res), flush=True)
        for l in re.findall(r'^undecided:.*$', r.stdout, re.M)[:5]:
            print('   ', l[:200])
        reset()


main()
