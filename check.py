#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]    decide one property
   check.py --setup                                        compile the TLC operator overrides
   check.py --mc MODULE [--tier T] [--set NAME=VALUE ...]   run one model-checking module alone
   check.py --replay FILE                                  judge a recorded violation again

For a property: TLC model-checks the MC_* modules of the specification and prints the behaviours they generate; the drivers
(harness/drive.py) run those behaviours and seeded random programs on the library in /repo and record what happened;
TLC then validates the recorded histories against spec/Trace.tla.  Nothing on the Python side knows expected results."""
import argparse
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, 'spec')
BUILD = os.path.join(HERE, 'build')
TLA = '/opt/veriftools/tla/tla2tools.jar'
CM = '/opt/veriftools/tla/CommunityModules-deps.jar'
PY = '/opt/venv/bin/python'
sys.path.insert(0, os.path.join(HERE, 'harness'))
from plans import PLAN                                                   # noqa: E402


def setup():
    out = os.path.join(BUILD, 'java')
    src = glob.glob(os.path.join(SPEC, 'java', '*.java'))
    cls = os.path.join(out, 'Rat.class')
    if os.path.exists(cls) and all(os.path.getmtime(s) <= os.path.getmtime(cls) for s in src):
        return
    os.makedirs(out, exist_ok=True)
    subprocess.run(['javac', '-nowarn', '-cp', TLA, '-d', out] + src, check=True)


def tlc(module, cfg, work, env=None, workers=8, args=(), timeout=None):
    """run TLC on spec/<module>.tla with configuration text cfg; returns (exit code, output)"""
    meta = tempfile.mkdtemp(dir=work)
    c = os.path.join(meta, module + '.cfg')
    open(c, 'w').write(cfg)
    e = dict(os.environ, VSPEC=SPEC, **(env or {}))
    cmd = ['java', '-Dfile.encoding=UTF-8', '-Dstdout.encoding=UTF-8', '-XX:+UseParallelGC', '-Xss64m', '-Xmx6g',
           '-cp', os.pathsep.join([os.path.join(BUILD, 'java'), TLA, CM]), 'tlc2.TLC', '-noGenerateSpecTE', '-workers', str(workers),
           '-metadir', os.path.join(meta, 'md'), '-config', c, *args, module + '.tla']
    p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def printed(out):
    for l in out.split('\n'):
        if l.startswith('"{'):
            yield json.loads(json.loads(l))


def stats(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m[-1][1]), int(m[-1][0])) if m else (0, 0)


class Broken(Exception):
    pass


def run_mc(spec, tier, seed, work):
    """spec = (module, {placeholder: value}, extra TLC args)"""
    module, sets = spec[0], dict(spec[1]) if len(spec) > 1 else {}
    args = list(spec[2](tier, seed)) if len(spec) > 2 else []
    cfg = open(os.path.join(SPEC, module + '.cfg')).read().replace('@TIER@', tier)
    for k, v in sets.items():
        cfg = cfg.replace('@%s@' % k, v)
    rc, out = tlc(module, cfg, work, args=args, timeout=3600)
    sim = any('simulate' in a for a in args)
    if rc != 0 or not (sim or 'No error has been found' in out):
        txt = '\n'.join(l for l in out.split('\n') if l.strip() and not re.match(r'"\{|Loading|Parsing file|Semantic processing', l))
        err = re.findall(r'^Error: .*(?:\n.*){0,6}', txt, re.M)
        raise Broken('model checking of %s failed\n%s\n%s' % (module, '\n'.join(err)[:3000], txt[-3000:]))
    cases = list(printed(out))
    st = stats(out)
    if sim:
        m = re.search(r'The number of states generated: (\d+)', out)
        st = (int(m.group(1)), int(m.group(1))) if m else (len(cases), len(cases))
    return {'module': module, 'states': st[0], 'transitions': st[1], 'cases': len(cases), 'simulated': sim}, cases


def drive(prop, tier, seed, shard, n, out, cases, work, opt):
    env = dict(os.environ, PYTHONPYCACHEPREFIX=os.path.join(work, 'pyc'), PYTHONHASHSEED='0', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1')
    cmd = [PY] + ([opt] if opt else []) + [os.path.join(HERE, 'harness', 'drive.py'), prop, tier, str(seed), str(shard), str(n),
                                            out] + ([cases] if cases else [])
    p = subprocess.run(cmd, env=env, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')


def validate(lines, work, limit=12e6):
    """judge the recorded lines, whole histories at a time; returns [(index, clauses)], states, transitions"""
    cuts, size = [0], 0
    for i, l in enumerate(lines):
        if size > limit and l.startswith('{"o":"begin"'):
            cuts.append(i)
            size = 0
        size += len(l)
    bad, states, trans = [], 0, 0
    for a, b in zip(cuts, cuts[1:] + [len(lines)]):
        f, s, t = validate_part(lines[a:b], work)
        bad += [(i + a, c) for i, c in f]
        states, trans = states + s, trans + t
    return bad, states, trans


def validate_part(lines, work):
    bad, states, trans = [], 0, 0
    tf = os.path.join(work, 'trace.ndjson')
    lines = list(lines)
    for attempt in range(12):
        with open(tf, 'w', encoding='utf-8') as f:
            f.write('\n'.join(lines) + '\n')
        rc, out = tlc('Trace', open(os.path.join(SPEC, 'Trace.cfg')).read(), work, env={'VTRACE': tf})
        st = stats(out)
        states, trans = max(states, st[0]), max(trans, st[1])
        found = [(d['line'] - 1, d['clauses']) for d in printed(out)]
        if rc == 0 and 'Model checking completed' in out:
            if st[0] != len(lines):
                raise Broken('validation visited %d of %d lines' % (st[0], len(lines)))
            return bad + found, states, trans
        # the specification has no value for this line: name it, set its history aside, judge the rest
        m = re.findall(r'/\\ i = (\d+)', out) or re.findall(r'^i = (\d+)', out, re.M)
        if not m:
            raise Broken('trace validation failed\n' + '\n'.join(l for l in out.split('\n') if not l.startswith('"{'))[-4000:])
        i = int(m[-1])
        if os.environ.get('VERIF_DEBUG'):
            print('\n'.join(l for l in out.split('\n') if not l.startswith('"{'))[-3000:])
        bad.append((i, ['undefined-in-specification']))
        j = i
        while j < len(lines) and '"o":"begin"' not in lines[j][:14]:
            lines[j] = '{"o":"skip"}'
            j += 1
    return bad, states, trans


def stripped(l):
    """a line without the addresses of objects in messages"""
    return re.sub(r'0x[0-9a-f]+', '0x', l)


def known():
    p = os.path.join(HERE, 'known_findings.json')
    return [k for k in json.load(open(p)) if k['status'] == 'known'] if os.path.exists(p) else []


def match(k, prop, ev, clauses):
    return (prop in k['properties'] and all(ev.get(f) == v for f, v in k['match'].items())
            and set(clauses) <= set(k['clauses']))


def check(prop, tier, seed):
    t0 = time.time()
    plan = PLAN[prop]
    work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    rep = os.path.join(BUILD, 'replay', prop)
    shutil.rmtree(rep, ignore_errors=True)
    os.makedirs(rep, exist_ok=True)
    viol, kfs, notes = [], {}, []
    try:
        setup()
        nsh = 8
        mcs, cases = [], []
        with cf.ThreadPoolExecutor(4) as ex:
            for m, c in ex.map(lambda s: run_mc(s, tier, seed, work), plan.get('mc', [])):
                mcs.append(m)
                cases += c
        cfile = os.path.join(work, 'cases.ndjson')
        with open(cfile, 'w', encoding='utf-8') as f:
            for c in cases:
                f.write(json.dumps(c, ensure_ascii=False) + '\n')
        runs = [(o, s) for o in plan.get('opt', ['']) for s in range(nsh)]
        with cf.ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(lambda r: drive(prop, tier, seed, r[1], nsh, os.path.join(work, 't%s%d.nd' % r),
                                               cfile if cases else None, work, r[0]), runs))
        lines, where, counts = [], [], {}
        for (o, s), (rc, so, se) in zip(runs, outs):
            p = os.path.join(work, 't%s%d.nd' % (o, s))
            ls = [l for l in open(p, encoding='utf-8').read().split('\n') if l] if os.path.exists(p) else []
            if rc != 0:
                if ls and not ls[-1].endswith('}'):
                    ls.pop()
                f = os.path.join(rep, 'driver%s-%d.txt' % (o, s))
                open(f, 'w').write(se[-20000:])
                viol.append((f, 'the library made the driver fail: ' + se.strip().split('\n')[-1][:300]))
            for l in ls:
                lines.append(l)
                where.append((o, s))
        if not lines:
            raise Broken('nothing was recorded: ' + outs[0][2][-2000:])
        # with several interpreter modes, the log of one is judged and the others have to be equal to it
        modes = plan.get('opt', [''])
        judged = [i for i, w in enumerate(where) if w[0] == modes[-1]]
        bad, states, trans = validate([lines[i] for i in judged], work)
        bad = [(judged[i], c) for i, c in bad]
        for m in modes[:-1]:
            other = [i for i, w in enumerate(where) if w[0] == m]
            if len(other) != len(judged):
                bad.append((judged[-1], ['differs', 'length of the log under %s' % (m or 'no flags')]))
            for i, j in zip(judged, other):
                if lines[i] != lines[j] and stripped(lines[i]) != stripped(lines[j]):
                    bad.append((i, ['differs', 'python %s: %s' % (m, lines[j][:1500])]))
        shown = {}
        for i, cl in sorted(bad):
            ev = json.loads(lines[i])
            k = next((k for k in known() if match(k, prop, ev, cl)), None)
            if k:
                kfs.setdefault(k['id'], [k, 0])[1] += 1
                continue
            f = os.path.join(rep, '%d.json' % len(viol))
            b = i
            while b > 0 and not lines[b].startswith('{"o":"begin"'):
                b -= 1
            hist = [json.loads(x) for x in lines[b:i + 1]] if json.loads(lines[b]).get('hist') else [json.loads(lines[b]), ev]
            json.dump({'property': prop, 'clauses': cl, 'event': ev, 'history': hist, 'flags': where[i][0],
                       'tier': tier, 'seed': seed}, open(f, 'w'), indent=1, ensure_ascii=False)
            key = (ev['o'], str(ev.get('f')), tuple(c[:30] for c in cl))
            shown[key] = shown.get(key, 0) + 1
            viol.append((f, '%s: %s' % ('/'.join(c[:200] for c in cl), json.dumps(ev, ensure_ascii=False)[:400])))
        for l in lines:
            o = json.loads(l)
            c = o['o'] + (':' + o['f'] if 'f' in o else '')
            counts[c] = counts.get(c, 0) + 1
        nev = sum(1 for l in lines if not l.startswith('{"o":"begin"'))
        nbeg = len(lines) - nev
        dist = len(set(l for l in lines if not l.startswith('{"o":"begin"')))
        step = max(1, len(lines) // 4)
        samples = [json.loads(l) for l in lines[7::step][:4]] + cases[:2]
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
              'coverage': {'states': states + sum(m['states'] for m in mcs),
                           'transitions': trans + sum(m['transitions'] for m in mcs),
                           'traces_validated_against_impl': nbeg,
                           'events_validated': nev, 'distinct_events': dist,
                           'model_runs': mcs, 'model_cases_replayed': len(cases),
                           'events_by_operation': dict(sorted(counts.items())),
                           'refused_calls': sum(1 for l in lines if '"r":{"k":"E"' in l),
                           'interpreter_modes': [('python ' + o).strip() for o in plan.get('opt', [''])],
                           'known_findings_seen': {k: v[1] for k, v in kfs.items()},
                           'samples': samples},
              'assumptions': plan.get('assumes', []),
              'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1, ensure_ascii=False)
        for k, n in kfs.values():
            print('KNOWN-FINDING: property=%s %s (%d)' % (prop, k['what'], n))
        for f, w in viol[:25]:
            print('VIOLATION property=%s replay=%s' % (prop, f))
            print('  ' + w)
        if len(viol) > 25:
            print('  ... and %d more' % (len(viol) - 25))
        print('%s %s: %d events in %d histories, %d model states, %d cases from the model, %.1f s, %d violations'
              % (prop, tier, nev, nbeg, ev['coverage']['states'], len(cases), time.time() - t0, len(viol)))
        for k, n in sorted(shown.items(), key=lambda x: -x[1])[:20]:
            print('  %5d x %s' % (n, k))
        return 1 if viol else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(f):
    setup()
    d = json.load(open(f))
    work = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        bad, _, _ = validate([json.dumps(x, ensure_ascii=False, separators=(',', ':')) for x in d['history']], work)
        print(json.dumps(d['history'][-1], indent=1, ensure_ascii=False))
        print('clauses:', bad)
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--mc')
    ap.add_argument('--set', action='append', default=[])
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.setup:
        setup()
        return 0
    if a.replay:
        return replay(a.replay)
    if a.mc:
        setup()
        work = tempfile.mkdtemp(prefix='verif-mc-')
        try:
            specs = [s for p in PLAN.values() for s in p.get('mc', []) if s[0] == a.mc] or [(a.mc, {})]
            seen = []
            for s in specs:
                k = json.dumps([s[0], sorted(s[1].items()) if len(s) > 1 else []])
                if k in seen:
                    continue
                seen.append(k)
                t = time.time()
                m, c = run_mc(s, a.tier, a.seed, work)
                print(m, '%.1f s' % (time.time() - t))
                for x in c[:3]:
                    print('  ', json.dumps(x, ensure_ascii=False)[:300])
        except Broken as e:
            print(e)
            return 2
        finally:
            shutil.rmtree(work, ignore_errors=True)
        return 0
    try:
        return check(a.property, a.tier, a.seed)
    except Broken as e:
        print(e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
