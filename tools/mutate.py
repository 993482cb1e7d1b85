#!/usr/bin/env python3
"""mutate.py PROP N SEED file[:from-to] ...: try N random small edits of the given files against the quick check of PROP; prints the survivors (to be judged by hand)."""
import os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
prop, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
rnd = random.Random(seed)
OPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' \+ ', ' - '), (r' - ', ' + '), (r' && ', ' || '), (r' \|\| ', ' && '),
       (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'std::min\b', 'std::max'), (r'std::max\b', 'std::min'), (r'\+\+', '--'), (r' / ', ' * '), (r' \* ', ' / '), (r' % ', ' / '), (r' >> ', ' << '),
       (r' \+= ', ' = '), (r' \|= ', ' = '), (r'\bint64_t\b', 'int32_t'), (r'\buint64_t\b', 'uint32_t'), (r'(?<![\w.])(\d+)(?![\w.])', None), (r'^(\s+)[\w\[\]\.\->\*\(\)]+ [+|-]?= [^;]*;\s*$', r'\1;'), (r'^(\s+)(break|continue);$', r'\1;'), (r'\bif \((?=[^;]*\{$)', 'if (!('), (r'!(?=\w)', '')]
cand = []
for a in sys.argv[4:]:
    f, _, r = a.partition(':')
    lo, hi = (map(int, r.split('-')) if r else (1, 10**9))
    for i, l in enumerate(open(f'/repo/{f}').read().split('\n'), 1):
        s = l.strip()
        if not lo <= i <= hi or not s or s.startswith(('//', '#', '*', '/*', 'CHECK', 'LOG', 'static_assert', 'template', 'throw', 'case ', 'DEVICE', 'extern', 'DEF_', 'ARR')): continue
        for p, t in OPS:
            for m in re.finditer(p, l):
                if '"' in l[:m.start()]: continue
                if p.startswith(r'\bif'):
                    k = l.rindex(') {'); new = l[:m.start()] + 'if (!(' + l[m.end():k] + ')) {'
                elif t is None: new = l[:m.start()] + str(int(m.group(1)) + rnd.choice([1, -1]) if int(m.group(1)) else 1) + l[m.end():]
                else: new = l[:m.start()] + m.expand(t) + l[m.end():]
                cand.append((f, i, l, new))
rnd.shuffle(cand)
# at most two per line
seen, pick = {}, []
for c in cand:
    if seen.get(c[:2], 0) < 1: seen[c[:2]] = seen.get(c[:2], 0) + 1; pick.append(c)
    if len(pick) == n: break
def one(kc):
    k, (f, i, old, new) = kc
    d = f'/tmp/mutw/{prop}.{k}'
    subprocess.run(['rsync', '-a', '--delete', '--exclude', '.git', '--exclude', '_build', '/repo/', d + '/'])
    if not os.path.exists(d + '/_build'): os.symlink('/repo/_build', d + '/_build')
    L = open(f'/repo/{f}').read().split('\n'); L[i - 1] = new
    open(f'{d}/{f}', 'w').write('\n'.join(L))
    e = dict(os.environ, VF_REPO=d)
    try: r = subprocess.run(['python3', '/verif/vf.py', 'check', prop, 'quick'], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600); rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired: rc, out = 'timeout', ''
    shutil.rmtree(d, ignore_errors=True)
    m = re.search(r'VIOLATION.*', out)
    tag = 'caught' if rc == 1 else 'SURVIVED' if rc == 0 else 'nocompile' if 'error:' in out else f'rc={rc} ' + out.strip()[-200:].replace('\n', ' | ')
    if not tag == 'caught' and not tag == 'nocompile': print(f'{prop} {tag}: {f}:{i}\n   - {old.strip()}\n   + {new.strip()}', flush=True)
    return tag
J = int(os.environ.get('J', '3'))
with ThreadPoolExecutor(J) as ex: tags = list(ex.map(one, enumerate(pick)))
print(prop, {t: tags.count(t) for t in set(t[:9] for t in tags) for t in [t]}, len(cand), 'candidates')
