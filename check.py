#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]

Decides one property: every contract registered for it is turned into proof obligations from the bodies clang
parses out of /repo's working tree in this run, and the solvers must accept all of them.

exit 0   every obligation discharged (or a function is outside the verifier's reach on this tree and the bounded
         stand-in found nothing; the evidence says so)
exit 1   VIOLATION line: an obligation failed.  The concrete harness is then run against the real code to look for
         a failing input; if it finds none the line ends with no-failing-input-found.
"""
import argparse, json, os, sys, time, subprocess, tempfile, shutil, traceback, hashlib

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vcgen import cast
from vcgen import verify as V
from specs.registry import PROPS, TRUSTED, ASSUME

WORKERS = 8


# ------------------------------------------------------------------ proof part
def preload(files):
    """extract all translation units that will be needed, in parallel (separate processes), then share by fork"""
    prog = V.program()
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        futs = {f: ex.submit(cast.clang_dump_text, os.path.join(cast.SRC, f), 'MNM') for f in files}
        for f, fu in futs.items():
            try:
                cast.PRELOADED[(f, 'MNM')] = fu.result()
            except cast.ExtractionError:
                pass
    for f in files:
        try:
            prog.tu(f)
        except cast.ExtractionError:
            pass


def worker(ct, path, attempt=0):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    try:
        r = V.verify(ct, attempt=attempt)
        d = dict(contract=r.contract, qual=ct.qual, status=r.status, msg=r.msg, obligs=r.obligs, fns=sorted(r.fns),
                 loops=[(w, l) for w, l in r.loops], stats=r.stats, time=r.time)
    except MemoryError:
        d = dict(contract=ct.name, qual=ct.qual, status='timeout', msg='memory limit', obligs=[], fns=[], loops=[], stats={}, time=0)
    except BaseException as e:      # an internal error is never a verdict
        d = dict(contract=ct.name, qual=ct.qual, status='unsupported', msg='internal %s: %s' % (type(e).__name__, e),
                 obligs=[], fns=[], loops=[], stats={}, time=0)
    with open(path, 'w') as f:
        json.dump(d, f, default=str)


HEAVY = 3


def heavy(ct):
    return getattr(ct, 'weight', 1) > 1


def run_contracts(cts, scratch, limit, attempt=0):
    """fork one process per contract, at most WORKERS at a time"""
    pend = list(enumerate(cts))
    run, out = {}, {}
    t0 = time.time()
    # longest first
    pend.sort(key=lambda x: -getattr(x[1], 'weight', 1))
    while pend or run:
        while pend and len(run) < WORKERS:
            # heavy contracts use several solver threads each: at most HEAVY of them at a time
            k = next((k for k, (_, c) in enumerate(pend) if not heavy(c) or sum(heavy(x[1]) for x in run.values()) < HEAVY), None)
            if k is None:
                break
            i, ct = pend.pop(k)
            p = os.path.join(scratch, 'r%d_%d.json' % (attempt, i))
            pid = os.fork()
            if pid == 0:
                try:
                    devnull = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(devnull, 1)
                    os.dup2(devnull, 2)
                    worker(ct, p, attempt)
                finally:
                    os._exit(0)
            run[pid] = (i, ct, p, time.time())
        done = []
        for pid, (i, ct, p, ts) in run.items():
            r, _ = os.waitpid(pid, os.WNOHANG)
            if r:
                done.append(pid)
            elif time.time() - ts > ct.budget + 60 or time.time() - t0 > limit:
                os.kill(pid, 9)
                os.waitpid(pid, 0)
                done.append(pid)
        for pid in done:
            i, ct, p, ts = run.pop(pid)
            if os.path.exists(p):
                out[i] = json.load(open(p))
            else:
                out[i] = dict(contract=ct.name, qual=ct.qual, status='timeout', msg='killed after %.0fs' % (time.time() - ts),
                              obligs=[], fns=[], loops=[], stats={}, time=time.time() - ts)
        if not done:
            time.sleep(0.02)
    return [out[i] for i in range(len(cts))]


# ------------------------------------------------------------------ concrete harness
CXX = ['g++', '-std=c++11', '-O0', '-g0', '-w', '-DNDEBUG', '-D_GLIBCXX_ASSERTIONS', '-fno-access-control',
       '-I', cast.SRC, '-I', os.path.join(HERE, 'harness'), '-isystem', '/usr/include/eigen3']


def build_harness(name, scratch):
    srcs = [os.path.join(cast.SRC, f) for f in sorted(os.listdir(cast.SRC)) if f.endswith('.cpp')]
    srcs.append(os.path.join(HERE, 'harness', name + '.cpp'))
    procs, objs, pend = [], [], list(srcs)
    run = []
    err = ''
    while pend or run:
        while pend and len(run) < WORKERS:
            s = pend.pop(0)
            o = os.path.join(scratch, ('h_' if s.startswith(HERE) else '') + os.path.basename(s) + '.o')
            objs.append(o)
            run.append((s, subprocess.Popen(CXX + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        s, p = run.pop(0)
        out = p.communicate()[0]
        if p.returncode:
            err += '%s: %s\n' % (s, out.decode(errors='replace')[-1500:])
    if err:
        return None, err
    exe = os.path.join(scratch, 'h_' + name)
    p = subprocess.run(['g++', '-o', exe] + objs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        return None, p.stdout.decode(errors='replace')[-2000:]
    return exe, ''


def run_harness(exe, prop, seed, iters, tmo, scratch):
    """returns (status, text): ok / fail / undecided.  The harness reports each case before running it, so a crash
    is attributed to a definite case; the verdict of a failing case is confirmed by running that case alone."""
    log = os.path.join(scratch, 'h_%s.log' % prop)
    try:
        with open(log, 'wb') as lf:
            p = subprocess.run([exe, prop, str(seed), str(iters)], stdout=lf, stderr=subprocess.STDOUT, timeout=tmo, cwd=scratch)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        return 'undecided', 'harness timeout'
    txt = open(log, errors='replace').read()
    tail = txt[-3000:]
    if rc == 0 and 'HARNESS-OK' in txt:
        return 'ok', txt.strip().split('\n')[-1]
    if rc == 3:
        return 'fail', tail
    if rc < 0 or rc >= 128:
        return 'fail', tail + '\n(crashed: exit status %d)' % rc
    return 'undecided', 'harness exit %d: %s' % (rc, tail)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if a.selftest:      # the tools are there and the sources parse
        for c in ('clang++-18', 'cvc5', 'z3-new', 'g++'):
            if shutil.which(c) is None and shutil.which(c.replace('-18', '')) is None:
                sys.exit('missing tool ' + c)
        print('ok: %d properties registered' % len(PROPS))
        sys.exit(0)
    P = PROPS[a.prop]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='vc_%s_' % a.prop)
    rc = 1
    try:
        rc = decide(a.prop, P, a.tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def show(r):
    print('  %-44s %-11s %3d obligations %6.1fs %s' % (r['contract'], r['status'], len(r['obligs']), r['time'], r['msg']), flush=True)


def decide(prop, P, tier, seed, scratch, t0):
    cts = P['contracts']()
    files = sorted({c.file for c in cts} | set(P.get('files', [])))
    if tier == 'thorough':
        for c in cts:
            c.budget, c.timeout = c.budget * 3, c.timeout * 4
    preload(files)
    res = run_contracts(cts, scratch, 420 if tier == 'quick' else 3000)
    bad = [i for i, r in enumerate(res) if r['status'] != 'proved']
    viol = 0
    harness_note = None
    hst = htxt = None
    for r in res:
        show(r)
    if P.get('harness'):    # also when all is proved: executes the postconditions on the compiled code, which exercises what the proofs assume
        exe, err = build_harness(P['harness'], scratch)
        if exe is None:
            hst, htxt = 'undecided', 'harness did not build: ' + err
        else:
            iters = P.get('iters', 1500) * (1 if tier == 'quick' else 10)
            hst, htxt = run_harness(exe, prop, seed, iters, 120 if tier == 'quick' else 1500, scratch)
            if hst == 'undecided' and 'timeout' in htxt and tier == 'quick':
                hst, htxt = run_harness(exe, prop, seed, max(1, iters // 10), 60, scratch)
        harness_note = '%s: %s' % (hst, (htxt or '')[-400:])
        print('  concrete harness: %s' % harness_note[:300])
    if hst != 'fail' and any(res[i]['status'] in ('failed', 'timeout', 'error') for i in bad):
        # no failing input: before alarming, try the open obligations again with more effort and another search order
        redo = [i for i in bad if res[i]['status'] in ('failed', 'timeout', 'error')]
        for i in redo:
            cts[i].timeout *= 2
        left = 780 - (time.time() - t0) if tier == 'quick' else 3000
        if left > 30:
            for i, r in zip(redo, run_contracts([cts[i] for i in redo], scratch, left, 1)):
                if r['status'] == 'proved' or res[i]['status'] != 'failed':
                    res[i] = r
                print('  second attempt:', end='')
                show(r)
    for r in res:       # an obligation the solvers could not discharge (as opposed to a run out of budget before it was generated)
        if r['status'] == 'timeout' and any(o['result'] == 'timeout' for o in r['obligs']):
            r['status'], r['msg'] = 'failed', 'not discharged'
    failed = [r for r in res if r['status'] in ('failed', 'error')]
    undec = [r for r in res if r['status'] in ('timeout', 'unsupported')]
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    if hst == 'fail' or failed:
        rp = os.path.join(rdir, '%s.txt' % prop)
        with open(rp, 'w') as f:
            f.write('property %s\n' % prop)
            for r in failed + undec:
                f.write('\ncontract: %s on %s: %s %s\n' % (r['contract'], r['qual'], r['status'], r['msg']))
                for o in r['obligs']:
                    if o['result'] != 'valid':
                        f.write('  FAILED OBLIGATION: %s at %s (%s) -> %s by %s\n    goal: %s\n' % (
                            o['name'], o['where'], o['kind'], o['result'], o['solver'], o.get('goal', '')))
                        for m in o.get('model', [])[:40]:
                            f.write('    model: %s\n' % m)
            if hst == 'fail':
                f.write('\nfailing input on the real code (rebuild: %s, run with arguments: %s %d <cases>):\n%s\n' % (
                    'harness/%s.cpp + /repo/src' % P['harness'], prop, seed, htxt))
            elif hst:
                f.write('\nconcrete harness found no failing input: %s\n' % htxt)
        viol = 1
        suffix = '' if hst == 'fail' else ' no-failing-input-found'
        for r in failed:
            for o in r['obligs']:
                if o['result'] != 'valid':
                    print('  failed obligation: %s [%s] at %s: %s' % (o['name'], r['contract'], o['where'], o['result']))
            if r['status'] == 'error':
                print('  contract error: %s: %s' % (r['contract'], r['msg']))
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, suffix))
    for kf in known_findings(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, kf))
    evidence(prop, P, tier, seed, res, harness_note, viol, time.time() - t0)
    return 1 if viol else 0


def known_findings(prop):
    p = os.path.join(HERE, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding: property=%s ' % prop):
                out.append(l.split(' ', 2)[2].strip())
    return out


def evidence(prop, P, tier, seed, res, hnote, viol, wall):
    obl = sum(len(r['obligs']) for r in res)
    dis = sum(1 for r in res for o in r['obligs'] if o['result'] == 'valid')
    inv = sum(len(l) for r in res for _, l in r['loops'])
    back = {}
    st = 0.0
    for r in res:
        st += r['stats'].get('houdini_time', 0)
        for o in r['obligs']:
            st += o['time']
            if o['result'] == 'valid':
                back[o['solver']] = back.get(o['solver'], 0) + 1
    fns = sorted({f for r in res for f in r['fns']})
    undecided = [dict(contract=r['contract'], function=r['qual'], status=r['status'], why=r['msg']) for r in res
                 if r['status'] in ('timeout', 'unsupported')]
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', wall_s=round(wall, 2), violations=viol,
              coverage=dict(
                  obligations=obl + inv, discharged=dis + inv,
                  checker_cmd='python3-vt check.py %s --tier %s  (clang 18 AST -> vcgen -> z3/cvc5/z3-new)' % (prop, tier),
                  trusted_base=TRUSTED,
                  contracts=[dict(contract=r['contract'], function=r['qual'], status=r['status'], obligations=len(r['obligs']),
                                  seconds=round(r['time'], 2)) for r in res],
                  functions_under_contract=sorted({r['qual'] for r in res}),
                  functions_executed_from_source=fns,
                  loop_invariants_established=inv,
                  loops=[dict(loop=w, invariants=l) for r in res for w, l in r['loops']][:200],
                  back_ends=back, solver_seconds=round(st, 2),
                  source_sha256={f: hashlib.sha256(open(os.path.join(cast.SRC, f), 'rb').read()).hexdigest()
                                 for f in sorted({c['qual'] and x for c in res for x in [None]} - {None})},
                  undecided=undecided, bounded_functions=P.get('bounded', []), concrete_execution=hnote or 'none',
                  not_claimed=P.get('excludes', [])),
              assumptions=ASSUME + P.get('assume', []))
    del ev['coverage']['source_sha256']
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    main()
