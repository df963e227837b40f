#!/usr/bin/env python3
"""Mutation runs for development: mutate.py FILE:LO-HI PROP[,PROP] [--max N] [--jobs J] [--seed S]
Mutates single operators, constants and statements of a header of /repo in scratch copies, runs the quick checks of the
given properties on each mutant and lists the mutants no check reports.  Not used by any check."""
import os, random, re, subprocess, sys, concurrent.futures as cf
ops = [(r'==', ['!=']), (r'!=', ['==']), (r'<=', ['<', '>']), (r'>=', ['>', '<']), (r'(?<![<\w])<(?![<=\w:])', ['<=', '>']), (r'(?<=\s)<(?=\s)', ['<=', '>=']), (r'(?<=\s)>(?=\s)', ['>=', '<']),
       (r'&&', ['||']), (r'\|\|', ['&&']), (r'(?<=\s)\+(?=\s)', ['-']), (r'(?<=\s)-(?=\s)', ['+']), (r'(?<=\s)\*(?=\s)', ['+']), (r'(?<=\s)/(?=\s)', ['*']), (r'(?<=\s)%(?=\s)', ['/']),
       (r'\+\+(?=\w)', ['--']), (r'\+=', ['-=', '=']), (r'-=', ['+=']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'(?<=[ (\[{])!(?=\w)', ['']),
       (r'(?<![\w.])0(?![\w.])', ['1']), (r'(?<![\w.])1(?![\w.])', ['0', '2']), (r'(?<![\w.])2(?![\w.])', ['1', '3']), (r'\bcontinue\b', ['break']), (r'\bbreak\b', ['continue']),
       (r'\bstd::min\b', ['std::max']), (r'\bstd::max\b', ['std::min']), (r'(?<=\s)&(?=\s)', ['|']), (r'(?<=\s)\^(?=\s)', ['&']), (r'(?<=\s)<<(?=\s)', ['>>']),
       (r'\bx\b', ['y']), (r'\by\b', ['x'])]
def mutants(lines, lo, hi):
    out, com = [], False
    for i in range(lo - 1, min(hi, len(lines))):
        l = lines[i]; s = l.strip()
        if s.startswith('/*'): com = True
        if com:
            if '*/' in s: com = False
            continue
        if not s or s.startswith(('//', '#', 'template', 'static_assert', 'assert', 'using', 'namespace', '*')): continue
        code = l.split('//')[0]
        for pat, reps in ops:
            for m in re.finditer(pat, code):
                if '"' in code[:m.start()] and code[:m.start()].count('"') % 2: continue
                for r in reps:
                    out.append((i, code[:m.start()] + r + code[m.end():]))
        if re.match(r'^\s+[\w:.\->\[\]\*]+.*;\s*$', code) and not re.match(r'^\s*(const|auto|return|constexpr|static|std::|uint|int|bool|double|typename|case|break|continue|throw)', code):
            out.append((i, re.match(r'^\s*', code).group(0) + ';'))
    return out
def sh(c, t=1000):
    try:
        r = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 99, ''
def main():
    a = sys.argv
    f, rng = (a[1].split(':') + ['1-99999'])[:2]
    lo, hi = map(int, rng.split('-'))
    props = a[2].split(',')
    mx = int(a[a.index('--max') + 1]) if '--max' in a else 40
    jobs = int(a[a.index('--jobs') + 1]) if '--jobs' in a else 4
    rnd = random.Random(int(a[a.index('--seed') + 1]) if '--seed' in a else 1)
    lines = open('/repo/' + f).read().split('\n')
    ms = mutants(lines, lo, hi); n = len(ms); rnd.shuffle(ms); ms = ms[:mx]
    print(f, n, 'mutants,', len(ms), 'tried', flush=True)
    free = list(range(jobs))
    for j in free:
        sh(f'mkdir -p /tmp/mut/{j}; rsync -a --delete /repo/include /repo/vendors /tmp/mut/{j}/repo/; rsync -a --delete --exclude build --exclude evidence --exclude .git --exclude seeded /tmp/w/v/ /tmp/mut/{j}/v/')
    import threading, queue
    q = queue.Queue(); [q.put(j) for j in free]; lock = threading.Lock()
    cnt = {}
    def one(m):
        j = q.get()
        try:
            i, new = m
            p = f'/tmp/mut/{j}/repo/{f}'
            t = lines[:]; t[i] = new
            open(p, 'w').write('\n'.join(t))
            res = []
            for pr in props:
                rc, o = sh(f'cd /tmp/mut/{j}/v && VX_REPO=/tmp/mut/{j}/repo VERIF_SEED=1 VERIF_TIER=quick timeout 200 python3 check.py {pr}')
                if rc == 1: res = None; break
                res.append((rc, 'compile' if 'error:' in o else o.strip().split('\n')[-1][-150:] if rc else ''))
                if 'error:' in o and rc == 2: break
            open(p, 'w').write('\n'.join(lines))
            k = 'killed' if res is None else 'compile' if any(r[1] == 'compile' for r in res) else 'survived' if all(r[0] == 0 for r in res) else 'unclear'
            with lock:
                cnt[k] = cnt.get(k, 0) + 1
                if k in ('survived', 'unclear'):
                    print(k, f'{i + 1}:', lines[i].strip()[:150], ' ==> ', new.strip()[:150], [r for r in res if r[0]] or '', flush=True)
        finally:
            q.put(j)
    with cf.ThreadPoolExecutor(jobs) as ex: list(ex.map(one, ms))
    print(f, cnt, flush=True)
main()
