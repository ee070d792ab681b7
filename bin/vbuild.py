#!/usr/bin/env python3
"""Builds instrumented variants of FNFT from /repo's working tree plus the monitor harness.

Sources are mirrored (by content) from /repo/src and /repo/include into build/src, a fnft_config.h
is generated there, and each variant is compiled with ninja into build/<variant>/.  Nothing is
written to /repo.
"""
import glob, hashlib, os, re, shutil, subprocess, sys, fcntl

VERIF = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
REPO = os.environ.get('FNFT_REPO', '/repo')
BUILD = os.environ.get('FNFT_VBUILD', os.path.join(VERIF, 'build'))
HARN = os.path.join(VERIF, 'harness')

WRAPS = ['malloc', 'calloc', 'realloc', 'free']
WRAPFLAGS = ' '.join('-Wl,--wrap=%s' % w for w in WRAPS)

VARIANTS = {
    # as shipped (same flags as CMakeLists.txt); numeric oracles run on this one
    'plain': dict(cc='gcc', lib='-std=c99 -O3', har='-O2 -g', f='-O2', ld='', ofast=1),
    'asan': dict(cc='gcc', lib='-std=c99 -O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all',
                 har='-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all',
                 f='-O1 -g -fsanitize=address', ld='-fsanitize=address,undefined', ofast=1),
    'msan': dict(cc='clang', lib='-std=c99 -O1 -g -fno-omit-frame-pointer -fsanitize=memory -fsanitize-memory-track-origins=1',
                 har='-O1 -g -fno-omit-frame-pointer -fsanitize=memory -fsanitize-memory-track-origins=1',
                 f='-O1 -g', ld='-fsanitize=memory -Wl,--wrap=z_poly_roots_modified_', ofast=0),
    'tsan': dict(cc='gcc', lib='-std=c99 -O1 -g -fsanitize=thread', har='-O1 -g -fsanitize=thread',
                 f='-O1 -g -fsanitize=thread', ld='-fsanitize=thread', ofast=0),
}

# fnft__manakov_fscatter.c consists of huge generated expressions: with the flags above it takes
# gcc 35 s and clang-msan six minutes to compile, so it gets cheaper ones
SPECIAL = {'fnft__manakov_fscatter.c': {
    'plain': ('clang', '-std=c99 -O0 -ffp-contract=off'),
    'asan': ('gcc', '-std=c99 -O0 -g1 -fno-omit-frame-pointer -fsanitize=address,bounds,signed-integer-overflow,shift,vla-bound -fno-sanitize-recover=all'),
    'msan': ('clang', '-std=c99 -O0 -g1 -fno-omit-frame-pointer -fsanitize=memory -fsanitize-memory-track-origins=1'),
    'tsan': ('gcc', '-std=c99 -O1 -g1 -fsanitize=thread'),
}}

def sync():
    """mirror sources by content; returns list of mirrored relative paths"""
    keep = set()
    for top in ('src', 'include'):
        for root, _, files in os.walk(os.path.join(REPO, top)):
            for f in files:
                if not f.endswith(('.c', '.h', '.f90', '.inc', '.in')):
                    continue
                if f == 'fnft_config.h':
                    continue
                s = os.path.join(root, f)
                rel = os.path.relpath(s, REPO)
                d = os.path.join(BUILD, 'mirror', rel)
                keep.add(rel)
                data = open(s, 'rb').read()
                try:
                    if open(d, 'rb').read() == data:
                        continue
                except OSError:
                    pass
                os.makedirs(os.path.dirname(d), exist_ok=True)
                with open(d, 'wb') as fh:
                    fh.write(data)
    mir = os.path.join(BUILD, 'mirror')
    for root, _, files in os.walk(mir):
        for f in files:
            rel = os.path.relpath(os.path.join(root, f), mir)
            if rel not in keep and f != 'fnft_config.h':
                os.unlink(os.path.join(root, f))
    cm = open(os.path.join(REPO, 'CMakeLists.txt')).read()
    tpl = open(os.path.join(REPO, 'include/fnft_config.h.in')).read()
    var = dict(re.findall(r'set\((FNFT_VERSION_\w+)\s+"?([^"\)\s#]*)"?\)', cm))
    out = re.sub(r'@(\w+)@', lambda m: var.get(m.group(1), ''), tpl)
    out = re.sub(r'#cmakedefine HAVE___THREAD 1', '#define HAVE___THREAD 1', out)
    out = re.sub(r'#cmakedefine HAVE_PRAGMA_GCC_OPTIMIZE_OFAST 1',
                 '#ifdef VERIF_OFAST\n#define HAVE_PRAGMA_GCC_OPTIMIZE_OFAST 1\n#endif', out)
    out = re.sub(r'#cmakedefine (\w+).*', r'/* #undef \1 */', out)
    p = os.path.join(mir, 'include/fnft_config.h')
    if not os.path.exists(p) or open(p).read() != out:
        open(p, 'w').write(out)
    return sorted(keep)

def build(variants, exes=('mon', 'monx')):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        keep = sync()
        mir = os.path.join(BUILD, 'mirror')
        inc = ' '.join('-I' + os.path.join(mir, d) for d in
                       ('include', 'include/private', 'include/3rd_party/kiss_fft', 'include/3rd_party/eiscor'))
        out = ['ninja_required_version = 1.3', 'builddir = %s' % BUILD, '']
        targets = []
        for v in variants:
            cfg = VARIANTS[v]
            ofast = '-DVERIF_OFAST' if cfg['ofast'] else ''
            out += [
                'rule cc_%s' % v,
                '  command = %s -MMD -MF $out.d %s %s %s -w -c $in -o $out' % (cfg['cc'], inc, ofast, cfg['lib']),
                '  depfile = $out.d', '  deps = gcc',
                'rule hc_%s' % v,
                '  command = %s -MMD -MF $out.d %s %s -std=gnu11 -DVARIANT_%s %s -Wall -Wno-unused-function -c $in -o $out' % (cfg['cc'], inc, ofast, v, cfg['har']),
                '  depfile = $out.d', '  deps = gcc',
                'rule fc_%s' % v,
                '  command = gfortran -cpp -ffree-line-length-none -w %s %s -J %s/%s -c $in -o $out' % (inc, cfg['f'], BUILD, v),
                'rule ld_%s' % v,
                '  command = %s $in -o $out %s %s -lgfortran -lquadmath -lm -lpthread' % (cfg['cc'], cfg['ld'], WRAPFLAGS), '']
            objs = []
            for rel in keep:
                o = os.path.join(BUILD, v, rel.replace('/', '_') + '.o')
                if rel.startswith('src/') and rel.endswith('.c'):
                    sp = SPECIAL.get(os.path.basename(rel))
                    if sp:
                        cc, fl = sp[v]
                        out[2:2] = ['rule sc_%s' % v, '  command = %s -MMD -MF $out.d %s %s %s -w -c $in -o $out' % (cc, inc, ofast, fl),
                                   '  depfile = $out.d', '  deps = gcc',
                                   'build %s: sc_%s %s' % (o, v, os.path.join(mir, rel))]
                    else:
                        out.append('build %s: cc_%s %s' % (o, v, os.path.join(mir, rel)))
                elif rel.endswith('.f90'):
                    out.append('build %s: fc_%s %s' % (o, v, os.path.join(mir, rel)))
                else:
                    continue
                objs.append(o)
            # two executables: `mon` uses the public API only, `monx` also private routines
            hobj = {'mon': [], 'monx': []}
            for h in sorted(glob.glob(HARN + '/*.c')):
                base = os.path.basename(h)
                dests = ['monx'] if base.startswith('x') else ['mon'] if base.startswith('p') else ['mon', 'monx']
                if not any(d in exes for d in dests):
                    continue
                o = os.path.join(BUILD, v, 'h_' + base + '.o')
                out.append('build %s: hc_%s %s' % (o, v, h))
                for d in dests:
                    hobj[d].append(o)
            for e in exes:
                t = os.path.join(BUILD, v, e)
                out.append('build %s: ld_%s %s' % (t, v, ' '.join(objs + hobj[e])))
                targets.append(t)
        nf = os.path.join(BUILD, 'build_%s.ninja' % '_'.join(list(variants) + list(exes)))
        open(nf, 'w').write('\n'.join(out) + '\n')
        r = subprocess.run(['ninja', '-f', nf, '-j', str(os.cpu_count() or 4)] + targets,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            keep = [l for l in r.stdout.splitlines() if not re.match(r'\[\d+/\d+\]|gcc |clang |gfortran |\s+\d* *\|', l)]
            sys.stderr.write('\n'.join(keep[:40])[:4000] + '\n')
            raise SystemExit(3)
        return {v: os.path.join(BUILD, v) for v in variants}

if __name__ == '__main__':
    print(build(sys.argv[1:] or list(VARIANTS)))
