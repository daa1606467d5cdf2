#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--keep]

Decides one property of /verif/properties.jsonl on the working tree of /repo:
  1. model:  TLC explores the TLA+ specification of the property, checks its invariants and prints cases;
  2. driver: these cases and random ones are executed on the code of /repo, which is observed;
  3. trace:  TLC judges every observation with the operators of the same specification.
Exit 0: the property held. Exit 1: a VIOLATION line. Exit 2: failure of the machinery itself.
"""
import argparse
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
EVIDENCE = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
PYTHON = '/opt/venv/bin/python'
TLA = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from props import PROPS


class Machinery(Exception):
    pass


def run(cmd, timeout, **kw):
    """runs a command in its own process group; (return code or None after a timeout, output)"""
    with tempfile.TemporaryFile() as out:
        p = subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                             start_new_session=True, **kw)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            rc = None
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        out.seek(0)
        return rc, out.read().decode('utf-8', 'replace')


def tlc(module, cfg, tmp, timeout, env=None, extra=(), workers=None):
    path = os.path.join(tmp, module + '.%d.cfg' % len(os.listdir(tmp)))
    with open(path, 'w') as f:
        f.write(cfg)
    meta = tempfile.mkdtemp(dir=tmp)
    cmd = ['java', '-Xss256m', '-Xmx%s' % os.environ.get('VERIF_XMX', '12g'), '-XX:+UseParallelGC', '-cp', TLA,
           '-Djava.io.tmpdir=' + meta, 'tlc2.TLC', '-workers', str(workers or os.environ.get('VERIF_WORKERS', '8')), '-metadir', meta,
           '-nowarning', '-noGenerateSpecTE', '-config', path] + list(extra) + [os.path.join(SPEC, module + '.tla')]
    e = dict(os.environ, LC_ALL='C.UTF-8')
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    rc, out = run(cmd, timeout, env=e, cwd=tmp)
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out


def printed(out, tag):
    res = []
    for l in out.splitlines():
        if l.startswith('"' + tag + ' '):
            res.append(json.loads(json.loads(l)[len(tag) + 1:]))
    return res


def counts(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    if m:
        return int(m[-1][0]), int(m[-1][1])
    m = re.findall(r'The number of states generated: (\d+)', out)
    return (int(m[-1]), int(m[-1])) if m else (0, 0)


def models(p, tier, seed, tmp, ev):
    cases = []
    for mc in p.get('mc', []):
        conf = dict(mc.get('quick', {}))
        if tier == 'thorough':
            conf.update(mc.get('thorough', {}))
        cfg = ['SPECIFICATION %s' % mc.get('spec', 'Spec'), 'CHECK_DEADLOCK FALSE']
        for k, v in conf.get('constants', {}).items():
            cfg.append('CONSTANT %s %s' % (k, v if v.startswith('<-') else '= ' + v))
        if mc.get('invariants'):
            cfg.append('INVARIANT ' + ' '.join(mc['invariants']))
        if mc.get('properties'):
            cfg.append('PROPERTY ' + ' '.join(mc['properties']))
        for k in ('constraint', 'view', 'symmetry', 'action_constraint'):
            if mc.get(k):
                cfg.append('%s %s' % (k.upper(), mc[k]))
        extra = []
        if conf.get('simulate'):
            num, depth = conf['simulate']
            extra = ['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(seed)]
        rc, out = tlc(mc['module'], '\n'.join(cfg) + '\n', tmp, conf.get('timeout', 600), extra=extra,
                      workers=mc.get('workers'))
        if rc != 0:
            raise Machinery('the model %s is not accepted by TLC (%s)\n%s' % (mc['module'], rc, out[-3000:]))
        gen, dist = counts(out)
        got = printed(out, 'CASE')
        uniq = sorted({json.dumps(c, sort_keys=True) for c in got})
        cases += [json.loads(c) for c in uniq]
        ev['models'].append(dict(module=mc['module'], invariants=mc.get('invariants', []) + mc.get('properties', []),
                                 constants=conf.get('constants', {}), mode='simulation' if extra else 'exhaustive',
                                 states_generated=gen, distinct_states=dist, cases=len(uniq)))
        ev['states'] += dist
        ev['transitions'] += gen
    return cases


def scratch_env(tmp, name):
    base = os.path.join(tmp, name)
    env = {k: v for k, v in os.environ.items() if not k.startswith(('PYTHON', 'XDG_', 'GIT_'))}
    for k in ('HOME', 'XDG_CACHE_HOME', 'XDG_DATA_HOME', 'XDG_CONFIG_HOME', 'TMPDIR'):
        d = os.path.join(base, k.lower())
        os.makedirs(d)
        env[k] = d
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX=os.path.join(base, 'pyc'), PYTHONHASHSEED='0',
               LC_ALL='C.UTF-8', PYTHONPATH=REPO, GIT_CONFIG_NOSYSTEM='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    return env


def drive(prop, p, tier, seed, cases, tmp):
    """executes the driver, several processes in parallel; list of observations"""
    n = p.get('jobs', 1)
    procs = []
    limit = p.get('driver_timeout', 500 if tier == 'quick' else 5000)
    for i in range(n):
        cpath = os.path.join(tmp, 'cases%d' % i)
        with open(cpath, 'w') as f:
            for c in cases[i::n]:
                f.write(json.dumps(c) + '\n')
        out = os.path.join(tmp, 'obs%d' % i)
        cmd = [PYTHON, os.path.join(HARNESS, 'drive.py'), prop, p['driver'], tier, str(seed * 1000 + i), cpath, out]
        log = open(out + '.log', 'wb')
        procs.append((subprocess.Popen(cmd, env=dict(scratch_env(tmp, 'env%d' % i), PYTHONHASHSEED=str(i)), cwd=tmp, stdin=subprocess.DEVNULL,
                                       stdout=log, stderr=log, start_new_session=True), out, log))
    end = time.time() + limit
    res = []
    for pr, out, log in procs:
        try:
            rc = pr.wait(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(pr.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        pr.wait()
        log.close()
        if os.path.exists(out):
            with open(out) as f:
                for l in f:
                    if l.endswith('\n'):
                        res.append(json.loads(l))
        if rc is None:
            res.append(dict(op='crash', what='no answer after %d s' % limit))
        elif rc != 0 and rc != 4:
            with open(out + '.log', errors='replace') as f:
                t = f.read()[-3000:]
            if rc < 0:
                res.append(dict(op='crash', what='the interpreter was ended by the signal %d' % -rc))
            else:
                raise Machinery('driver failed (%s)\n%s' % (rc, t))
    return res


UNREADABLE = 'the observation has the form that the specification expects'


def judge(p, obs, tmp, tier):
    """the clauses violated by each observation (by line), with the numbers of states"""
    path = os.path.join(tmp, 'trace.ndjson')
    lanes = max(8, min(256, len(obs) // 8))
    cfg = ('SPECIFICATION WalkSpec\nPOSTCONDITION WalkDone\nCHECK_DEADLOCK FALSE\n'
           'CONSTANT Verdict <- %s\nCONSTANT Lanes = %d\n' % (p['verdict'], lanes))
    end = time.time() + (700 if tier == 'quick' else 14000)
    unreadable = {}
    while True:
        with open(path, 'w') as f:
            for i, o in enumerate(obs, 1):
                f.write(json.dumps(dict(op='skip') if i in unreadable else o) + '\n')
        rc, out = tlc(p['trace'], cfg, tmp, max(30, end - time.time()), env=dict(TRACE=path))
        verdicts = {v['line']: v['clauses'] for v in printed(out, 'VERDICT')}
        if rc == 0 and 'No error has been found' in out:
            break
        # an operator is not defined on what the code gave (an answer about an unknown morpheme, a missing field...):
        # the last state of the behaviour tells the observation
        m = re.findall(r'/\\ pos = (\d+)\n/\\ lane = (\d+)|/\\ lane = (\d+)\n/\\ pos = (\d+)', out)
        where = [int(y or z) + int(x or t) * lanes for x, y, z, t in m]
        if rc is None or not where or 'OutOfMemory' in out or 'StackOverflow' in out or 'arsing' in out[:3000] and 'Semantic error' in out \
                or not 1 <= where[-1] <= len(obs) or where[-1] in unreadable:
            raise Machinery('the trace specification %s failed (%s)\n%s' % (p['trace'], rc, out[-4000:]))
        unreadable[where[-1]] = [UNREADABLE]
        if len(unreadable) >= 4:
            break
    gen, dist = counts(out)
    verdicts.update(unreadable)
    return verdicts, gen, dist


def known_findings(prop):
    """lines 'known: property=<id> match=<json> <what fails>'"""
    res = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for l in f:
                m = re.match(r'known: property=(\S+) match=(\{.*?\}) -- (.*)', l)
                if m and m.group(1) == prop:
                    res.append((json.loads(m.group(2)), m.group(3).strip()))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    p = PROPS[prop]
    start = time.time()
    tmp = tempfile.mkdtemp(prefix='ieml-verif-')
    ev = dict(models=[], states=0, transitions=0)
    try:
        cases = models(p, tier, a.seed, tmp, ev)
        t1 = time.time()
        obs = drive(prop, p, tier, a.seed, cases, tmp)
        t2 = time.time()
        if not obs:
            raise Machinery('no observation')
        verdicts, gen, dist = judge(p, obs, tmp, tier)
        t3 = time.time()
        ev['states'] += dist
        ev['transitions'] += gen
        bad, seen_known = [], {}
        known = known_findings(prop)
        canaries = missed = 0
        for i, o in enumerate(obs, 1):
            c = verdicts.get(i)
            if o.get('canary'):
                canaries += 1
                missed += not c
                continue
            if not c:
                continue
            k = [w for m, w in known if all(o.get(f) == v for f, v in m.items() if f != 'clauses')
                 and set(c) <= set(m.get('clauses', c))]
            if k:
                seen_known.setdefault(k[0], []).append(o)
            else:
                bad.append((o, c))
        if missed:
            raise Machinery('%d corrupted observations were accepted' % missed)
        if p.get('canaries', True) and not canaries and not bad:
            raise Machinery('no corrupted observation was judged')
        ops = {}
        for o in obs:
            ops[o.get('op')] = ops.get(o.get('op'), 0) + 1
        samples, took = [], set()
        for o in obs:
            if o.get('op') not in took and not o.get('canary') and len(json.dumps(o)) < 3000:
                took.add(o.get('op'))
                samples.append(o)
        real = len(obs) - canaries
        os.makedirs(EVIDENCE, exist_ok=True)
        evidence = dict(
            property=prop, tier=tier, seed=a.seed, level='model_checking',
            coverage=dict(states=ev['states'], transitions=ev['transitions'], traces_validated_against_impl=real,
                          models=ev['models'], observations_by_operation=ops, cases_from_the_model=len(cases),
                          corrupted_observations_rejected=canaries, samples=samples[:5], exhaustive=False,
                          seconds=dict(model=round(t1 - start, 1), driver=round(t2 - t1, 1), trace=round(t3 - t2, 1))),
            assumptions=p.get('assumptions', []) + [
                'the models are exhaustive within the constants listed; the observations of the code are samples '
                '(cases of the model and random ones from the seed)'],
            wall_s=round(time.time() - start, 1), violations=len(bad))
        with open(os.path.join(EVIDENCE, prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1)
            f.write('\n')
        for w in seen_known:
            print('KNOWN-FINDING: property=%s %s' % (prop, w))
        if bad:
            d = os.path.join(EVIDENCE, 'replays')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s-%s-%d.json' % (prop, tier, a.seed))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, tier=tier, seed=a.seed, count=len(bad),
                               rerun='VERIF_SEED=%d python3 /verif/check.py %s --tier %s' % (a.seed, prop, tier),
                               violations=[dict(clauses=c, observation=o) for o, c in bad[:20]]), f, indent=1)
            o, c = bad[0]
            print('violated: %s in %s' % ('; '.join(c), json.dumps(o)[:600]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        print('%s held: %d observations judged, %d states of the model, %.1f s' % (prop, real, ev['states'], time.time() - start))
        return 0
    except Machinery as e:
        print('MACHINERY FAILURE', e)
        return 2
    finally:
        if a.keep:
            print('kept', tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
