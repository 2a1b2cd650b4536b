#!/usr/bin/env python3
"""check.py <property id>: decide one property from the source in /repo (nothing of /repo is run)."""

import glob
import json
import os
import re
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from gai import lints, names, spec  # noqa: E402
from gai.program import AnalysisBroken  # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')


LINTS = {
    'C39': ('no argument is changed in place', 'where each container comes from and what each statement changes in place',
            'no in-place change of an object that came in through a parameter of a public function or constructor', lints.in_place),
    'C40': ('nothing follows the order of a set, an address, a hash, a clock or chance',
            'where unordered collections and sources of chance arise and what consumes them',
            'no consumer that depends on order, and no source of chance', lints.ordering),
    'C48': ('whatever is referred to exists', 'every name, attribute, call and parameter of every function, resolved against the package and its libraries',
            'names are defined and set before they are read; attributes exist on everything that can be there and constructors set them; calls fit '
            'the signature of the callee; abstract classes are not instantiated; texts fill in their placeholders; no option is ignored', names.existing),
}


OBLIGATION_CPU_S, TOTAL_CPU_S, MEMORY = 120, 600, 8 << 30  # an obligation that needs more is left undecided


def out_of_time(signum, frame):
    raise TimeoutError(f'no decision within {OBLIGATION_CPU_S} s of processor time')


class Found:
    def __init__(self, where, what):
        self.where, self.what = where, what

    def text(self, n=1500):
        return f'{self.what}\n      at {self.where}'

    def broken(self):
        return False

    def signature(self):
        return f'{self.where.split(" ")[-1]}|{self.what}'


def run_lint(pid, prog):
    name, impl, rule, fn = LINTS[pid]
    found, sites = fn(prog)
    if sites['functions'] < 150 or sites['calls'] < (400 if pid == 'C48' else 800):
        raise AnalysisBroken(f'only {sites} found in the package')
    d = {'name': name, 'impl': impl, 'spec': rule, 'module': prog.modules['structure']}
    st = {'functions': sorted(f.fi.where for f in lints.analysis(prog).fns.values()), 'compared': sites['calls'], 'constraints': 0,
          'variables': 0, 'effects': sites.get('changes', sites.get('iterations', 0)), 'raises': 0, 'calls': sites['calls'],
          'unsupported': []}
    return d, [Found(w, t) for w, t in found], st


def known_findings():
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path, encoding='utf-8') as fh:
        return json.load(fh)['findings']


def floors():
    with open(os.path.join(HERE, 'floors.json'), encoding='utf-8') as fh:
        return json.load(fh)


def analyse(pid, verbose=False):
    files = []
    for f in sorted(glob.glob(os.path.join(HERE, 'specs', '*.py'))):
        with open(f, encoding='utf-8') as fh:
            if re.search(r"'%s'" % re.escape(pid), fh.read()):
                files.append(f)
    prog = spec.SpecProgram(REPO, files)
    obs = [d for d in prog.obligations if d['property'] == pid or pid in d.get('also', ())]
    if not obs and pid not in LINTS:
        raise AnalysisBroken(f'no obligation for {pid}')
    results = []
    if pid in LINTS:
        results.append(run_lint(pid, prog))
    signal.signal(signal.SIGVTALRM, out_of_time)
    for d in obs:
        try:
            left = min(OBLIGATION_CPU_S, TOTAL_CPU_S - time.process_time())
            if left <= 0:
                raise TimeoutError(f'no time left within {TOTAL_CPU_S} s of processor time')
            signal.setitimer(signal.ITIMER_VIRTUAL, left)
            diffs, st, a, b = spec.run_obligation(prog, d)
        except AnalysisBroken as e:
            diffs, st = None, 'lost: ' + str(e)
        except Exception as e:  # the analyser itself gave up
            where = traceback.extract_tb(e.__traceback__)[-1]
            diffs, st = None, f'{type(e).__name__}: {e} ({os.path.basename(where.filename)}:{where.lineno})'
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        results.append((d, diffs, st))
        if diffs is None:
            continue
        if verbose:
            print(('ok   ' if not diffs else 'FAIL ') + d['name'], st['compared'], 'comparisons')
    return prog, results


def main():
    pid = sys.argv[1]
    verbose = '-v' in sys.argv
    t0 = time.time()
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY if hard == resource.RLIM_INFINITY else min(MEMORY, hard), hard))
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    try:
        prog, results = analyse(pid, verbose)
    except AnalysisBroken as e:
        print(f'analysis broken: property={pid}: {e}')
        return 2
    known = [k for k in known_findings() if k['property'] == pid]
    functions, viol, seen_known = set(), [], []
    tot = {'compared': 0, 'constraints': 0, 'variables': 0, 'effects': 0, 'raises': 0, 'calls': 0}
    samples, discharged, broken = [], 0, []
    gave_up = [(d, st) for d, diffs, st in results if diffs is None]
    results = [r for r in results if r[1] is not None]
    for d, diffs, st in results:
        functions.update(st['functions'])
        for k in tot:
            tot[k] += st[k]
        bad = []
        for x in diffs:
            k = next((k for k in known if k['obligation'] == d['name'] and k['signature'] == x.signature()), None)
            if k:
                seen_known.append(k)
            else:
                bad.append(x)
        if bad and all(x.broken() for x in bad):
            broken.append((d, bad, st))
        elif bad:
            viol.append((d, bad, st))
        else:
            discharged += 1
        samples.append({'obligation': d['name'], 'compares': f"{d['impl']} with {d['spec']}",
                        'constraints': st['constraints'], 'variables': st['variables'], 'effects': st['effects'],
                        'comparisons': st['compared'], 'differences': len(bad)})
    fl = floors().get(pid, {})
    for k, v in fl.items():
        if gave_up or viol:
            break
        have = {'obligations': len(results), **tot}[k]
        if have < v // 2:
            print(f'analysis broken: property={pid}: only {have} {k} found, {v} were confirmed by hand (half would do)')
            return 2
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    extra = {}
    if pid in LINTS:
        name, impl, rule, fn = LINTS[pid]
        extra['whole_package_dataflow'] = {'analysed': impl, 'rule': rule, 'sites': fn(prog)[1]}
    how = ('Predicated abstract interpretation: the code under each entry point and a reference written '
           'from the property are interpreted on the same symbolic inputs; constraints, variables, '
           'effects and results are brought to a canonical form (gate diagrams over polynomials, '
           'quantified segments for loops) and compared for identity. Nothing of the package is run.')
    rule = 'an obligation is discharged when every observed item of the code is identical, under every condition, to the item of the reference'
    if pid in LINTS and len(results) == 1 and not gave_up:  # nothing but the analysis of the whole package
        how = f'Analysis of the whole package: {LINTS[pid][1]}. Nothing of the package is run.'
        rule = LINTS[pid][2]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': how, 'rule': rule,
            'obligations': len(results) + len(gave_up), 'discharged': discharged,
            'undecided': [d['name'] for d, _ in gave_up] + [d['name'] for d, _, _ in broken], **{k: v for k, v in tot.items()},
            'functions_analysed': len(functions), 'functions': sorted(functions), 'samples': samples, **extra,
        },
        'assumptions': sorted({a for d, _, _ in results for a in d.get('assumes', ())} | {
            'elements, time series and effects behave as their declared attribute types',
            'numbers are exact reals (no rounding)'}),
        'wall_s': round(time.time() - t0, 3), 'violations': len(viol),
    }
    with open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w', encoding='utf-8') as fh:
        json.dump(ev, fh, indent=1)
    for k in seen_known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if viol:
        rep = os.path.join(HERE, 'evidence', f'{pid}.violation.txt')
        with open(rep, 'w', encoding='utf-8') as fh:
            fh.write(f'property {pid}\nrerun: python3 {os.path.join(HERE, "check.py")} {pid} -v\n\n')
            for d, bad, st in viol:
                fh.write(f"obligation: {d['name']}\n  entry: {d['impl']} in {d['module'].relpath}\n")
                for x in bad:
                    fh.write('  - ' + x.text(6000) + '\n')
                fh.write('\n')
        for d, bad, st in viol:
            print(f"obligation '{d['name']}' fails:")
            for x in bad[:8]:
                print('  - ' + x.text(900))
        print(f'VIOLATION property={pid} replay={rep}')
        return 1
    open_ = [(d['name'], why) for d, why in gave_up] + [
        (d['name'], f"meets a construct that is not modelled: {st['unsupported'][:3]}") for d, bad, st in broken]
    for name, why in open_:
        print(f"UNDECIDED property={pid} obligation '{name}': {why}")
    lost = [why for _, why in gave_up if why.startswith('lost: ')]  # an entry point is gone
    if lost or 2 * len(open_) > len(results) + len(gave_up):  # the rest does not carry the property any more
        print(f'analysis broken: property={pid}: {len(open_)} of {len(results) + len(gave_up)} obligations are undecided')
        return 2
    print(f'{pid}: {discharged} of {len(results) + len(gave_up)} obligations hold ({tot["compared"]} comparisons, {len(functions)} functions analysed)')
    return 0


if __name__ == '__main__':
    sys.exit(main())
