"""./check <ID>: run the contracts of one property against /repo's current tree."""
import os
import sys
import json
import time
import shutil
import signal
import importlib
import subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from framework import *
from framework import _alarm

sys.path.insert(0, os.path.join(VERIF, 'checks'))


def replay(path):
    d = json.load(open(path))
    print('property %s: %s' % (d['property'], d.get('what', '')))
    for o in d.get('obligations', []):
        print('failed obligation: [%s] %s %s' % (o['group'], o['name'], o.get('where', '')))
        if o.get('verifier_output'):
            print('  verifier: ' + o['verifier_output'])
    if d.get('native'):
        c = Ctx(d['property'], 1, 'quick')
        n = Native(c, **d['native'])
        ok, err = n.build()
        if not ok:
            print('build failed: ' + err)
            return 2
        rc, o, e = n.run(['case'] + d['case'].split(' '))
        print(o + e)
        shutil.rmtree(c.tmp, ignore_errors=True)
        return 1 if 'FAIL ' in o else 0
    return 1


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                out.append(l[len('finding: property=%s ' % prop):])
    return out


def main():
    if sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    prop = sys.argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    ctx = Ctx(prop, seed, tier)
    code = 0
    try:
        code = run(ctx)
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def run(ctx):
    mod = importlib.import_module(ctx.prop.lower())
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(ctx.deadline - time.time()))
    try:
        ctx.group('proof', mod.proof, ctx)
    finally:
        signal.alarm(0)
    if hasattr(mod, 'native'):
        ctx.group_t = time.time()
        ctx.deadline += 250
        ctx.group('native', mod.native, ctx)
    obls = ctx.results
    disc = [r for r in obls if r.status == 'proved']
    refuted = [r for r in obls if r.status == 'refuted']
    # a loop contract that was found automatically and is not inductive says nothing about the code: what depends on it is undecided
    noauto = {r.group for r in obls if r.kind == 'auto' and r.status != 'proved'}
    for g in sorted(noauto):
        ctx.undecided.append('%s: an inferred loop contract is not inductive' % g)
    refuted = [r for r in refuted if r.group not in noauto]
    # an obligation over written contracts that neither solver discharges has failed; other kinds stay undecided
    failed = [r for r in obls if r.status == 'unknown' and r.kind in ('post', 'invariant', 'pre') and r.group not in noauto]
    unknown = [r for r in obls if (r.status == 'unknown' or r.status == 'refuted' and r.group in noauto) and r not in failed]
    refuted = refuted + failed
    badcov = [n for n, ok in ctx.covers if not ok]
    for n in badcov:
        ctx.undecided.append('vacuous: ' + n)
    if not obls:
        ctx.undecided.append('no obligation was generated')
    nf = [n for n in ctx.nat if n['status'] == 'fail']
    known = known_findings(ctx.prop)
    fresh_nf = []
    for n in nf:
        k = [f for f in known if ' || ' in f and n['fail'].startswith(f.split(' || ')[0])]
        if k:
            print('KNOWN-FINDING: property=%s %s' % (ctx.prop, k[0]))
        else:
            fresh_nf.append(n)
    viol = bool(fresh_nf or refuted)
    level = getattr(mod, 'LEVEL', 'proof')
    cov = dict(obligations=len(obls), discharged=len(disc), refuted=len(refuted), unknown=len(unknown),
               checker_cmd='./check %s' % ctx.prop,
               trusted_base=sorted(ctx.trusted | set(getattr(mod, 'TRUSTED', [])) | set(BASE)),
               functions_under_contract=sorted(set(getattr(mod, 'FUNCTIONS', []))),
               functions_executed=sorted(ctx.functions)[:200],
               contracts_used=sorted(ctx.contracts)[:200],
               backends={}, solver_s=round(ctx.solver_time, 2),
               obligations_by_kind={}, covers=len(ctx.covers), covers_ok=len(ctx.covers) - len(badcov),
               undecided=ctx.undecided,
               sample_obligations=[dict(group=r.group, name=r.name, backend=r.backend, status=r.status) for r in obls[:3] + obls[-3:]],
               bounded_stand_in=[dict(program=n['program'], status=n['status'], evaluations=n['evaluations'], distinct=n['distinct'], samples=n['samples'][:3],
                                      error=n.get('error')) for n in ctx.nat],
               bounded_note='bounded_stand_in lists concrete runs of the real code; they are never counted as proved')
    for r in obls:
        cov['backends'][r.backend] = cov['backends'].get(r.backend, 0) + (r.status == 'proved')
        cov['obligations_by_kind'][r.kind] = cov['obligations_by_kind'].get(r.kind, 0) + 1
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=level, coverage=cov,
              assumptions=sorted(ctx.assumptions | set(getattr(mod, 'ASSUMPTIONS', []))),
              wall_s=round(time.time() - ctx.t0, 2), violations=int(viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', ctx.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d refuted, %d unknown; %d native cases; %d undecided; %.1f s' % (
        ctx.prop, len(obls), len(disc), len(refuted), len(unknown), sum(n['evaluations'] for n in ctx.nat), len(ctx.undecided), ev['wall_s']))
    for u in ctx.undecided:
        print('UNDECIDED property=%s %s' % (ctx.prop, u.replace('\n', ' ')[:300]))
    for r in unknown[:10]:
        print('UNDECIDED property=%s obligation [%s] %s: %s' % (ctx.prop, r.group, r.name, (r.info or '')[:200]))
    for n in ctx.nat:
        if n['status'] == 'error':
            print('NATIVE-ERROR property=%s %s: %s' % (ctx.prop, n['program'], n.get('error', '')[:300].replace('\n', ' ')))
    if not viol:
        return 0
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    rp = os.path.join('replays', '%s.json' % ctx.prop)
    d = dict(property=ctx.prop,
             obligations=[dict(group=r.group, name=r.name, kind=r.kind, where=r.where, backend=r.backend,
                               verifier_output='%s; counterexample: %s' % (r.info or 'obligation refuted', r.model)) for r in refuted[:20]])
    if fresh_nf:
        n = fresh_nf[0]
        case, _, why = n['fail'].partition(' | ')
        d.update(native=n['spec'], case=case, what=why)
    else:
        d['what'] = 'failed obligation: [%s] %s' % (refuted[0].group, refuted[0].name)
    with open(os.path.join(VERIF, rp), 'w') as f:
        json.dump(d, f, indent=1)
    for r in refuted[:8]:
        print('FAILED-OBLIGATION [%s] %s %s' % (r.group, r.name, r.where))
    if fresh_nf:
        print('failing input: %s' % fresh_nf[0]['fail'][:1000])
        print('VIOLATION property=%s replay=%s' % (ctx.prop, rp))
    else:
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (ctx.prop, rp))
    return 1


BASE = ['clang 18 front end (C++ to LLVM IR at -O0)', 'the IR verifier in /verif/irv (verification-condition generator)',
        'z3 / cvc5 where they are named as back end']

if __name__ == '__main__':
    main()
