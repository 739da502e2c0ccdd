#!/usr/bin/env python3
"""python3 check.py <property id> [...]   |   python3 check.py --setup"""
import os
import resource
import sys
import threading
import time
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
import common  # noqa: E402


LIMIT_S = 420
LIMIT_MEM = 14 << 30
SMALL = [('mlops', x) for x in ('eq_builders', 'eq_evals', 'fixing', 'merging', 'identity', 'vp_ops', 'resizing', 'aliases', 'bits')] \
    + [('kzg', 'setup'), ('kzg', 'trimming'), ('kzg', 'opening'), ('sums', 'prover_rounds'), ('sums', 'interpolation'), ('batch', 'prove'), ('batch', 'verify'), ('script', 'ops')]


def run(pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    ctx = common.Ctx(pid)
    import interp
    import props
    meta, sites = props.PROPS[pid], {}
    lock, over, cur = threading.Lock(), [], ['']

    def expire():
        with lock:
            if not over:
                over.append(1)
                ctx.skip('analysis/%s' % cur[0], 'time limit of %d s reached' % LIMIT_S)
                rc = common.finish(ctx, meta, t0, tier, seed)
                sys.stdout.flush()
                os._exit(rc)
    w = threading.Timer(LIMIT_S, expire)
    w.daemon = True
    w.start()
    try:
        common.program()
        hard = resource.getrlimit(resource.RLIMIT_AS)[1]
        lim = LIMIT_MEM if hard == resource.RLIM_INFINITY else min(LIMIT_MEM, hard)
        resource.setrlimit(resource.RLIMIT_AS, (lim, hard))
        for part in meta['parts']:
            cur[0] = part.__name__
            interp.SIZES.clear()
            try:
                part(ctx)
            except common.Broken:
                raise
            except common.Missing as e:
                ctx.fail('anchor/%s' % part.__name__, str(e), 'an anchor of this rule is missing: %s' % e)
            except common.Dead as e:
                ctx.fail('%s/returns' % e, ctx.span(str(e)), '%s never returns: it panics whatever the arguments' % e)
            except (NameError, ImportError, SyntaxError):
                ctx.fail('analysis/%s' % part.__name__, part.__name__, traceback.format_exc(limit=-4))
            except Exception:
                # the analysis met code it cannot follow: nothing is known about this part
                sys.stderr.write(traceback.format_exc())
                ctx.skip('analysis/%s' % part.__name__, 'did not finish: ' + traceback.format_exc(limit=-3))
                ctx.incomplete = True
            sites[part] = dict(interp.SIZES)
        beyond(ctx, meta, t0, sites)
    except common.Broken as e:
        ctx.fail('build', '', str(e))
    with lock:
        over.append(1)
    w.cancel()
    for what, n in meta.get('floors', {}).items():
        if not ctx.incomplete:
            ctx.floor(what, n)
    return common.finish(ctx, meta, t0, tier, seed)


ABORTS = ('succeeds', 'never aborts', 'returns', 'no overflow', 'refused', 'length')


def beyond(ctx, meta, t0, sites):
    """the parts that look at small sizes only: a comparison of a size with a constant which went one way
    for all of them guards code no size looked at reaches; look at that code too, at the same sizes.
    Likewise a cap (take, min) above every size looked at: with a lower cap nothing may change.
    Only what it computes counts: it may well refuse, or abort on, sizes it is not meant for."""
    import interp
    good = set(k for k, ok, _, _ in ctx.obs if ok)
    if any(not ok for _, ok, _, _ in ctx.obs):
        return
    for part in meta['parts']:
        if (part.__module__, part.__name__) not in SMALL:
            continue
        for site, (fn, c, way) in sorted(sites.get(part, {}).items(), key=lambda x: (x[1][0], str(x[1][1]))):
            if len(way) > 1 or time.time() - t0 > 200:
                continue
            ctx.add('one-way comparisons with a constant')
            interp.FLIP.add(site)
            alt = common.Ctx(ctx.pid)
            try:
                part(alt)
            except Exception:
                pass
            finally:
                interp.FLIP.clear()
            for key, ok, where, detail in alt.obs:
                if not ok and key in good and not any(key.endswith(x) for x in ABORTS):
                    ctx.fail(key + '/beyond the sizes looked at', where, 'where %s bounds or compares a size with %s: %s' % (fn, c, detail))
                    break


def main():
    rc = 0
    try:
        if sys.argv[1] == '--setup':
            common.dump()
            print('ready')
        else:
            import props
            ids = sorted(props.PROPS) if sys.argv[1] == '--all' else sys.argv[1:]
            for pid in ids:
                rc = max(rc, run(pid))
    except BaseException:
        traceback.print_exc()
        rc = 1
        if sys.argv[1] != '--setup':
            print('VIOLATION property=%s replay=%s' % (sys.argv[1], 'stderr'))
    sys.stdout.flush()
    os._exit(rc)


resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
threading.stack_size(1 << 30)
t = threading.Thread(target=main)
t.start()
t.join()
