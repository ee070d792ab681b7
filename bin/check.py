#!/usr/bin/env python3
"""Runs the check of one property: build, execute the monitored workload, judge, write evidence.

  check.py --property C09 [--tier quick|thorough]

exit 0: held on everything explored;  exit 1: VIOLATION line(s) printed;  3: the check could not run.
"""
import argparse, collections, concurrent.futures as cf, fnmatch, glob, json, os, re, shutil, subprocess, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from config import PROPS

VERIF = vbuild.VERIF
SAN_ENV = {
    'asan': {'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4000:detect_stack_use_after_return=1:strict_string_checks=1:exitcode=70:abort_on_error=0:symbolize=1',
             'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=70'},
    'msan': {'MSAN_OPTIONS': 'exitcode=70:halt_on_error=1:allocator_may_return_null=1:symbolize=1'},
    'tsan': {'TSAN_OPTIONS': 'exitcode=70:halt_on_error=1:second_deadlock_stack=1:history_size=4'},
    'plain': {},
}

def crash_signature(err, rc):
    """class of failure + top-most library frame, so that different faults are told apart"""
    frame = ''
    for m in re.finditer(r'#\d+ (?:0x[0-9a-f]+ )?(?:in )?(\S+) (\S*?)(?::(\d+))?(?::\d+)?(?: |\n|$)', err):
        if 'mirror/' in m.group(2) or 'fnft' in m.group(1):
            frame = m.group(1)
            break
    m = re.search(r'runtime error: (.*)', err)
    if m:
        loc = re.search(r'mirror/(\S+?):\d+:\d+: runtime error', err)
        msg = re.sub(r"0x[0-9a-f]+|[-+]?\d+(\.\d+)?(e[-+]?\d+)?", 'N', m.group(1))[:80].strip().replace(' ', '-')
        return 'ubsan:%s:%s:%s' % (os.path.basename(loc.group(1)) if loc else '?', frame, msg)
    m = re.search(r'(AddressSanitizer|MemorySanitizer|ThreadSanitizer): ([\w-]+(?: [a-z]+)?)', err)
    if m:
        return '%s:%s:%s' % ({'A': 'asan', 'M': 'msan', 'T': 'tsan'}[m.group(1)[0]], m.group(2).strip().replace(' ', '-'), frame)
    if rc < 0:
        return 'signal:%d' % -rc
    return 'exit:%d:%s' % (rc, re.sub(r'\W+', '-', err.strip().splitlines()[0][:60]) if err.strip() else '')

class Agg:
    def __init__(self):
        self.evals = 0; self.keys = set(); self.samples = []; self.viol = collections.OrderedDict()
        self.incon = 0; self.incon_ex = []; self.mets = {}; self.cases = 0; self.crashes = 0; self.unrun = 0; self.variants = {}
    def add_viol(self, sig, detail, repro):
        if sig not in self.viol:
            self.viol[sig] = [detail, repro, 1]
        else:
            self.viol[sig][2] += 1

def run_chunk(prop, ph, exe, seed, start, total, step, tmp, deadline, thorough):
    """runs cases start, start+step, ... restarting after crashes"""
    res = []
    cur, tries, hangs = start, 0, 0
    while cur < total:
        if time.time() > deadline:
            res.append(('late', (total - cur + step - 1) // step)); break
        out = os.path.join(tmp, '%s_%d_%d.out' % (ph['variant'], start, tries))
        cmd = [exe, prop, '--seed', str(seed), '--from', str(cur), '--to', str(total), '--step', str(step), '--out', out,
               '--case-seconds', str(ph.get('case_seconds', 120 if thorough else 60))] + (['--thorough'] if thorough else [])
        env = dict(os.environ); env.update(SAN_ENV[ph['variant']]); env.update(ph.get('env', {}))
        env['VERIF_DEADLINE'] = str(int(deadline))
        errf = out + '.err'
        with open(errf, 'w') as ef:
            timed = False
            try:
                rc = subprocess.run(cmd, stdout=ef, stderr=subprocess.STDOUT, env=env, cwd=tmp, timeout=max(5, deadline - time.time()) + 60).returncode
            except subprocess.TimeoutExpired:
                rc = 0; timed = True
        txt = open(out, errors='replace').read() if os.path.exists(out) else ''
        err = open(errf, errors='replace').read()[:200000]
        lines = [l for l in txt.split('\n') if l]
        ended = any(l.startswith('E\t') for l in lines[-1:])
        res.append(('lines', lines, cmd))
        last = cur
        for l in lines:
            if l.startswith('B\t'):
                last = int(l.split('\t')[1])
        for f in (out, errf):
            try: os.unlink(f)
            except OSError: pass
        if timed:
            res.append(('late', 1)); break
        if ended:
            break
        if rc == 99:
            res.append(('err', 'harness out of memory')); break
        if rc != 77:
            if rc == 0:
                res.append(('err', 'no end marker'));
            else:
                res.append(('crash', last, crash_signature(err, rc), err[:3000]))
        tries += 1; hangs += rc == 77
        if tries >= 12 or hangs >= 2:
            res.append(('late', max(0, (total - last) // step))); break
        cur = last + step
    return res

def load_known():
    known = collections.defaultdict(list)
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) sig=(\S+)\s+(.*)', l)
            if m:
                known[m.group(1)].append((m.group(2), m.group(3).strip()))
    return known

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--cases', type=int)
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    pid = a.property
    cfg = PROPS[pid]
    t0 = time.time()
    thorough = a.tier == 'thorough'
    limit = cfg.get('limit', {}).get(a.tier, 5400 if thorough else 540)
    variants = sorted({ph['variant'] for ph in cfg['phases']})
    exes = sorted({ph.get('exe', 'mon') for ph in cfg['phases']})
    dirs = vbuild.build(variants, exes)
    tb = time.time() - t0
    deadline = t0 + tb + limit
    agg = Agg()
    W = os.cpu_count() or 4
    tmp = tempfile.mkdtemp(prefix='fnftmon_')
    errors = []
    try:
        for ph in cfg['phases']:
            exe = os.path.join(dirs[ph['variant']], ph.get('exe', 'mon'))
            n = ph['thorough' if thorough else 'quick']
            if a.cases is not None: n = a.cases
            n = max(1, int(n * a.scale))
            off = ph.get('offset', 0)
            nch = min(n, W * (16 if thorough else 4))
            par = ph.get('parallel', W)
            with cf.ThreadPoolExecutor(par) as ex:
                futs = [ex.submit(run_chunk, ph.get('name', pid), ph, exe, seed, off + j, off + n, nch, tmp, deadline, thorough) for j in range(nch)]
                for f in cf.as_completed(futs):
                    for r in f.result():
                        if r[0] == 'late': agg.unrun += r[1]; continue
                        if r[0] == 'err': errors.append(r[1]); continue
                        base = '%s %s --seed %d --from %%d --to %%d --step 1%s' % (os.path.join(ph['variant'], ph.get('exe', 'mon')), ph.get('name', pid), seed, ' --thorough' if thorough else '')
                        if r[0] == 'crash':
                            agg.crashes += 1
                            agg.add_viol(r[2], r[3], (ph['variant'], ph.get('exe', 'mon'), base % (r[1], r[1] + 1)))
                            continue
                        for l in r[1]:
                            p = l.split('\t')
                            if p[0] == 'B': agg.cases += 1; agg.variants[ph['variant']] = agg.variants.get(ph['variant'], 0) + 1
                            elif p[0] == 'C' and len(p) >= 4:
                                agg.evals += 1
                                if p[2] == '1': agg.keys.add(hash(p[3]))
                            elif p[0] == 'S' and len(p) >= 3: agg.samples.append((int(p[1]), 'case %s: %s' % (p[1], p[2])))
                            elif p[0] == 'I' and len(p) >= 3:
                                agg.incon += 1
                                if len(agg.incon_ex) < 5: agg.incon_ex.append(p[2])
                            elif p[0] == 'V' and len(p) >= 4:
                                agg.add_viol(p[2], p[3], (ph['variant'], ph.get('exe', 'mon'), base % (int(p[1]), int(p[1]) + 1)))
                            elif p[0] == 'M' and len(p) >= 4:
                                v = float(p[3])
                                if p[2] == '1': agg.mets[p[1]] = max(agg.mets.get(p[1], float('-inf')), v)
                                else: agg.mets[p[1]] = agg.mets.get(p[1], 0) + v
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    known = load_known()[pid]
    rep_dir = os.path.join(VERIF, 'replays'); os.makedirs(rep_dir, exist_ok=True)
    for f in glob.glob(os.path.join(rep_dir, pid + '-*')): os.unlink(f)
    new, matched = [], {}
    for sig, (detail, repro, cnt) in agg.viol.items():
        k = next((k for k in known if fnmatch.fnmatchcase(sig, k[0])), None)
        if k: matched.setdefault(k, []).append((sig, cnt)); continue
        new.append((sig, detail, repro, cnt))
    for pat, desc in known:
        print('KNOWN-FINDING: property=%s %s [%s%s]' % (pid, desc, pat, '' if (pat, desc) in matched else ', not reached in this run'))
    for i, (sig, detail, repro, cnt) in enumerate(new):
        path = os.path.join(rep_dir, '%s-%d.sh' % (pid, i))
        with open(path, 'w') as fh:
            fh.write('#!/bin/sh\n# %s (%d times in this run)\n' % (sig, cnt))
            for l in detail.splitlines()[:40]: fh.write('# ' + l + '\n')
            fh.write('cd "$(dirname "$0")/.." && python3 bin/vbuild.py %s >/dev/null && \\\n' % repro[0])
            fh.write(' '.join("%s='%s'" % kv for kv in SAN_ENV[repro[0]].items()) + ' build/%s -v -v\n' % repro[2])
        os.chmod(path, 0o755)
        if i < 12:
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('   %s (%d x): %s' % (sig, cnt, detail.replace('\n', ' | ')[:700]))
    wall = time.time() - t0
    cov = {'evaluations': agg.evals, 'distinct_nontrivial': len(agg.keys), 'rule': cfg['rule'],
           'samples': [s for _, s in sorted(agg.samples)[:12]], 'cases_by_build': agg.variants,
           'inconclusive': agg.incon, 'inconclusive_examples': agg.incon_ex, 'not_run_for_time': agg.unrun,
           'observed': {k: agg.mets[k] if agg.mets[k] == agg.mets[k] and abs(agg.mets[k]) != float('inf') else str(agg.mets[k]) for k in sorted(agg.mets)},
           'known_findings_seen': {k[0]: sum(c for _, c in v) for k, v in matched.items()}}
    ev = {'property': pid, 'tier': a.tier, 'seed': seed, 'level': cfg['level'], 'coverage': cov, 'wall_s': round(wall, 2),
          'assumptions': cfg.get('assumptions', []), 'violations': len(new)}
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
    print('%s %s: %d cases, %d evaluations, %d distinct non-trivial, %d inconclusive, %d not run, %d violation signatures, build %.1f s, total %.1f s'
          % (pid, a.tier, agg.cases, agg.evals, len(agg.keys), agg.incon, agg.unrun, len(new), tb, wall))
    if errors:
        print('check error: %s' % errors[:3])
        if not new: sys.exit(3)
    if agg.evals == 0 and not new:
        print('check error: nothing was evaluated'); sys.exit(3)
    sys.exit(1 if new else 0)

if __name__ == '__main__':
    main()
