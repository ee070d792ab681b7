#!/usr/bin/env python3
"""mutate.py WORKER SEED MINUTES: random source mutations of a scratch copy of /repo; those that build and pass
the repository's tests are run against the quick checks of the properties anchored in the mutated file."""
import os, random, re, subprocess, sys, time, json, shutil
W, SEED, MIN = sys.argv[1], int(sys.argv[2]), float(sys.argv[3])
VERIF = os.environ.get('MUT_VERIF', '/tmp/mut/verif')
SC = '/tmp/mut/sc' + W; VB = '/tmp/mut/vb' + W; LOG = '/tmp/mut/log%s.jsonl' % W
J = os.environ.get('MUT_J', '4')
env = dict(os.environ, CC='/usr/bin/gcc', CXX='/usr/bin/g++', FC='/usr/bin/gfortran')
rng = random.Random(SEED)
MAP = {
 'fnft_nsev.c': 'C12 C13 C14 C10 C28 C11 C07 C18 C01 C02 C08 C06 C05 C04',
 'fnft_nsev_inverse.c': 'C21 C22 C07 C01 C02 C06 C05 C04',
 'fnft_nsep.c': 'C19 C20 C28 C07 C08 C01 C02 C06 C05 C04',
 'fnft_kdvv.c': 'C15 C16 C14 C28 C07 C08 C01 C02 C06 C05 C04',
 'fnft_manakovv.c': 'C17 C18 C14 C28 C07 C08 C01 C02 C06 C05 C04',
 'fnft__poly_fmult.c': 'C23 C10 C15 C17 C28 C01 C02 C05 C06',
 'fnft__poly_chirpz.c': 'C24 C10 C01 C05 C06', 'fnft__poly_eval.c': 'C24 C12',
 'fnft__misc.c': 'C24 C10 C12 C13 C20 C01 C05 C06',
 'fnft__poly_specfact.c': 'C26 C21 C01 C05 C06', 'fnft__poly_roots_fftgridsearch.c': 'C25 C19 C20 C01 C05 C06',
 'fnft__poly_roots_fasteigen.c': 'C25 C05 C06 C03',
 'fnft__akns_scatter.c': 'C27 C10 C12 C16 C15 C19 C20 C01 C02 C05 C06', 'fnft__akns_fscatter.c': 'C10 C27 C15 C26 C01 C05 C06',
 'fnft__akns_discretization.c': 'C10 C27 C15 C12 C19 C17 C07 C01 C05 C06', 'fnft__nse_discretization.c': 'C10 C12 C27 C09 C07 C19 C01 C05 C06',
 'fnft__kdv_discretization.c': 'C15 C16 C27 C07 C14 C01 C05 C06', 'fnft__manakov_discretization.c': 'C17 C18 C27 C07 C14 C01 C05 C06',
 'fnft__nse_scatter.c': 'C27 C10 C19 C05 C06', 'fnft__kdv_scatter.c': 'C27 C15 C16 C05 C06', 'fnft__manakov_scatter.c': 'C27 C17 C05 C06',
 'fnft__nse_fscatter.c': 'C27 C10 C19 C05 C06', 'fnft__kdv_fscatter.c': 'C27 C15 C16 C05 C06', 'fnft__manakov_fscatter.c': 'C17 C27 C05 C06',
 'fnft__nse_finvscatter.c': 'C26 C21 C07 C05 C06', 'fnft__kdv_finvscatter.c': 'C26 C05 C06', 'fnft__akns_finvscatter.c':'C26 C21 C05 C06',
 'fnft_errwarn.c': 'C08 C03', 'fnft__errwarn.c': 'C08 C03', 'kiss_fft.c': 'C24 C23 C10 C01 C05 C06',
}
def files():
    r = []
    for top in ('src', 'src/private', 'src/3rd_party/kiss_fft'):
        for f in sorted(os.listdir('/repo/' + top)):
            if f in MAP: r.append(top + '/' + f)
    return r
def strip_comments(s):
    def rep(m): return re.sub(r'[^\n]', ' ', m.group(0))
    return re.sub(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\])*"', rep, s, flags=re.S)
OPS = [
 (r'(?<![\w.])(\d+)(?![\w.])', lambda m: str(int(m.group(1)) + rng.choice([1, -1] if int(m.group(1)) else [1]))),
 (r'(?<![\w])(\d+\.\d*)(?![\w])', lambda m: repr(float(m.group(1)) * rng.choice([2, .5, 1.1]) + (1 if float(m.group(1)) == 0 else 0))),
 (r'<=', lambda m: '<'), (r'>=', lambda m: '>'), (r'(?<![<>-])<(?![<=])', lambda m: '<='), (r'(?<![->])>(?![>=])', lambda m: '>='),
 (r'==', lambda m: '!='), (r'!=', lambda m: '=='), (r'&&', lambda m: '||'), (r'\|\|', lambda m: '&&'),
 (r'(?<=[\w\])]) ?\+ ?(?=[\w(])', lambda m: '-'), (r'(?<=[\w\])]) ?- ?(?=[\w(])', lambda m: '+'),
 (r'(?<=[\w\])]) ?\* ?(?=[\w(])', lambda m: '/'), (r'(?<=[\w\])]) ?/ ?(?=[\w(])', lambda m: '*'),
 (r'\bCONJ\(', lambda m: '('), (r'\bCREAL\(', lambda m: 'CIMAG('), (r'\bCIMAG\(', lambda m: 'CREAL('), (r'\bFABS\(', lambda m: '('), (r'\bCABS\(', lambda m: 'CREAL('),
 (r'^[ \t]+[\w\->\[\]\*\.\+ ]+ [\+\-\*/]?= [^;{}\n]*;$', lambda m: ' ;'), (r'^[ \t]+(free|\w+)\([^;{}\n]*\);$', lambda m: ' ;'),
 (r'^[ \t]+(goto|continue|break|return)\b[^;\n]*;$', lambda m: ' ;'),
 (r'\bif \((?=[^\n]*\))', lambda m: rng.choice(['if (0 && ', 'if (1 || '])),
 (r'\bD\b', lambda m: '(D-1)'), (r'\bM\b', lambda m: '(M-1)'), (r'\bdeg\b', lambda m: '(deg-1)'), (r'\+=', lambda m: '-='), (r'-=', lambda m: '+='),
 (r'\+\+', lambda m: '--'), (r'\beps_t\b', lambda m: '(1.01*eps_t)'),
 (r'\[(\w+)\]', lambda m: '[%s+1]' % m.group(1)), (r'\[(\w+)\+1\]', lambda m: '[%s]' % m.group(1)),
 (r'\[0\]', lambda m: '[1]'), (r'\[1\]', lambda m: '[0]'),
]
OW = [1 if ('\\d' in p or p in (r'(?<=[\w\])]) ?\+ ?(?=[\w(])',)) else 4 if ('if' in p or '<' in p or '>' in p or '&' in p or '\\|' in p or '=' in p[:3] or 'goto' in p or 'free' in p) else 1 for p, _ in OPS]
def mutate(s):
    c = strip_comments(s)
    for _ in range(200):
        pat, f = rng.choices(OPS, OW)[0]
        ms = [m for m in re.finditer(pat, c, flags=re.M) if not c[c.rfind('\n', 0, m.start())+1:m.start()].lstrip().startswith(('#', 'case'))]
        if not ms: continue
        m = rng.choice(ms); return s[:m.start()] + f(m) + s[m.end():], pat
def sh(cmd, timeout, **kw):
    try: p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=kw.get('env', env)); return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired: return 124, 'timeout'
if not os.path.isdir(SC):
    subprocess.check_call(['git', 'clone', '-q', '/repo', SC])
    sh('cd %s && cmake -S . -B _build -G Ninja -DMACHINE_SPECIFIC_OPTIMIZATION=OFF -DWITH_MATLAB=OFF -DENABLE_FFTW=OFF -DBUILD_TESTS=ON -DADDRESS_SANITIZER=OFF -DDEBUG=OFF && ninja -C _build -j%s' % (SC, J), 1800)
subprocess.check_call(['git', '-C', SC, 'checkout', '-q', '--', '.'])
FS = files(); wt = []
for f in FS:
    n = len(open('/repo/' + f).read().split('\n')); b = os.path.basename(f)
    wt.append(n ** .7 * (.1 if b == 'fnft__manakov_fscatter.c' else .3 if b in ('kiss_fft.c',) else 1))
if len(sys.argv) > 4: FS = [f for f in FS if re.search(sys.argv[4], f)]; wt = [1]*len(FS)
end = time.time() + 60 * MIN; st = dict(nobuild=0, killed=0, caught=0, missed=0)
while time.time() < end:
    f = rng.choices(FS, wt)[0]; p = os.path.join(SC, f); orig = open('/repo/' + f).read(); r = mutate(orig)
    if not r: continue
    open(p, 'w').write(r[0])
    cc = 'gcc -fsyntax-only -w -std=c99 -I%s/include -I%s/include/private -I%s/include/3rd_party/kiss_fft -I%s/include/3rd_party/eiscor %s' % (SC, SC, SC, SC, p)
    if sh(cc, 60)[0]: st['nobuild'] += 1; open(p, 'w').write(orig); continue
    d = subprocess.run(['git', '-C', SC, 'diff', '-U0'], stdout=subprocess.PIPE).stdout.decode()
    missed = []; got = None
    for prop in MAP[os.path.basename(f)].split():
        e = dict(env, FNFT_REPO=SC, FNFT_VBUILD=VB)
        rc, o = sh('python3 %s/bin/check.py --property %s --no-evidence' % (VERIF, prop), 900, env=e)
        if rc == 1 and 'VIOLATION' in o: got = prop; break
        if rc: missed.append('%s(rc%d)' % (prop, rc))
        else: missed.append(prop)
    if not got:
        if missed and 'rc2' in missed[0]: st['nobuild'] += 1; open(p, 'w').write(orig); continue
        rc, o = sh('ninja -C %s/_build -j%s' % (SC, J), 600)
        if rc: st['nobuild'] += 1; open(p, 'w').write(orig); continue
        rc, o = sh('ctest --test-dir %s/_build -j%s --timeout 300 --stop-on-failure' % (SC, J), 900)
        if rc: st['killed'] += 1; got = 'TESTS'
    st['caught' if got else 'missed'] += 1
    open(LOG, 'a').write(json.dumps(dict(file=f, diff=[l for l in d.split('\n') if l[:1] in '+-@' and l[:3] not in ('+++', '---')], caught=got, missed=missed)) + '\n')
    open(p, 'w').write(orig)
    open('/tmp/mut/stat' + W, 'w').write(json.dumps(st))
