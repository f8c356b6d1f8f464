#!/usr/bin/env python3
"""Mutation sweep in scratch copies (never in /repo): plants one small change at a time, runs the checks with a
fraction of their quick cases and, for those no check catches, the repository's tests.
usage: mutate.py OUT.jsonl [--files a,b] [--n N] [--seed S] [--workers W] [--frac F] [--only LIST.json]"""
import argparse, json, os, random, re, shutil, subprocess, sys, threading, queue, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('out'); ap.add_argument('--files', default=''); ap.add_argument('--n', type=int, default=200)
ap.add_argument('--seed', type=int, default=1); ap.add_argument('--workers', type=int, default=6)
ap.add_argument('--frac', type=float, default=0.01); ap.add_argument('--only', default='')
ap.add_argument('--list', action='store_true')
A = ap.parse_args()
BASE = '/tmp/mut/base/'
os.makedirs(BASE, exist_ok=True)
subprocess.check_call(['rsync', '-a', '--delete', '--exclude', '.git', '--exclude', 'target', '/repo/', BASE])
SKIP = {'src/test.rs', 'src/lib.rs', 'src/error.rs', 'src/unicode_bestfit_map.rs'}
def sources():
    r = []
    for d, _, fs in os.walk(BASE + 'src'):
        for f in fs:
            p = os.path.relpath(os.path.join(d, f), BASE)
            if p.endswith('.rs') and p not in SKIP: r.append(p)
    return sorted(r)
SUBS = [(r' == ', ' != '), (r' != ', ' == '), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '),
        (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+ ', ' - '), (r' - ', ' + '),
        (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bif !', 'if '), (r'\bis_some\(\)', 'is_none()'), (r'\bis_none\(\)', 'is_some()'),
        (r'\bif ([a-z_\.]+\.(?:is_empty|is_set|is_gap|is_complete|starts_with)\()', r'if !\1'), (r'wrapping_add\(', 'wrapping_sub('), (r'\+= ', '-= '),
        (r'\b0\b', '1'), (r'\b1\b', '2'), (r'\b([2-9]|[1-9][0-9]+)\b', lambda m: str(int(m.group(1)) + 1)),
        (r'\bSome\((\w+)\) if ', r'Some(\1) if !'), (r'\.unwrap_or\(0\)', '.unwrap_or(1)'), (r'HtpStatus::OK\b', 'HtpStatus::DATA'),
        (r'Ok\(\(\)\)', 'Err(HtpStatus::ERROR)'), (r' & ', ' | '), (r' \| ', ' & '), (r'b\'(.)\'', lambda m: "b'%s'" % (chr(ord(m.group(1)) ^ 1)) if m.group(1) not in "\\'" and 33 < ord(m.group(1)) ^ 1 < 127 and chr(ord(m.group(1)) ^ 1) not in "\\'" else m.group(0)),
        (r'get_nocase_nozero', 'get_nocase'), (r'get_nocase\(', 'get_nocase_nozero('), (r'\.trim_end', '.trim'), (r'extend_from_slice\((.*)\);', r'extend_from_slice(&[]);'),
        (r'\btrim_with', 'trim_end_with'), (r'break;', 'continue;'), (r'continue;', 'break;')]
def mutants():
    r = []
    for f in (A.files.split(',') if A.files else sources()):
        L = open(BASE + f).read().split('\n')
        depth_end = next((i for i, l in enumerate(L) if l.strip().startswith('#[cfg(test)]')), len(L))
        inlog = 0
        for i, l in enumerate(L[:depth_end]):
            s = l.strip()
            if not s or s.startswith('//') or s.startswith('#') or s.startswith('use ') or s.startswith('pub use') or 'assert' in s: continue
            if f.endswith('utf8_decoder.rs') and 26 <= i <= 59: continue
            code = l.split('//')[0] if '"' not in l else l
            if re.match(r'^\s*(pub )?(unsafe )?(extern "C" )?(fn|struct|enum|impl|type|mod|trait|macro)', l): continue
            seen = set()
            for k, (a, b) in enumerate(SUBS):
                for m in re.finditer(a, code):
                    # not in strings
                    if code[:m.start()].count('"') % 2: continue
                    n = code[:m.start()] + m.expand(b) if isinstance(b, str) else code[:m.start()] + b(m)
                    n += code[m.end():]
                    if n != code and n not in seen:
                        seen.add(n); r.append((f, i, n))
            # delete a one-line statement
            if s.endswith(';') and not s.startswith(('let ', 'return', 'break', 'continue', '}', ')', '.', 'const', 'static', 'pub ')) and (i == 0 or L[i-1].strip().endswith((';', '{', '}', '*/')) or L[i-1].strip().startswith('//') or not L[i-1].strip()):
                r.append((f, i, ''))
            m = re.match(r'^(\s*)(} else )?if (?!let )(.*) \{$', code)
            if m:
                for w in ('false', 'true'):
                    if m.group(2): r.append((f, i, '%s} else if %s {' % (m.group(1), w)))
                    else: r.append((f, i, '%sif %s {' % (m.group(1), w)))
    return r
M = mutants()
if A.only:
    M = [tuple(x[:3]) for x in json.load(open(A.only))]
else:
    random.Random(A.seed).shuffle(M)
print(len(M), 'possible'); 
if A.list: sys.exit()
M = M[:A.n]
props = {}
import re as _re
for fn in os.listdir(V + '/harness/src'):
    t = open(V + '/harness/src/' + fn).read()
    for m in _re.finditer(r'id: "(P\d+)".*?quick: ([\d_]+)', t, _re.S): props[m.group(1)] = int(m.group(2).replace('_', ''))
ORDER = sorted(props, key=lambda p: ('P02 P03 P13 P14 P15 P23 P24 P07 P08 P12 P28 P16 P18 P17'.split() + [p]).index(p))
env = dict(os.environ)
for l in subprocess.check_output(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env']).decode().split('\n'):
    if '=' in l: k, v = l.split('=', 1); env[k] = v
env.update(CARGO_NET_OFFLINE='true', CARGO_PROFILE_RELEASE_DEBUG='0', CARGO_BUILD_JOBS='2')
base = json.load(open('/opt/vp/BASELINE.json'))['stable']
Q = queue.Queue(); [Q.put(m) for m in M]
lock = threading.Lock(); out = open(A.out, 'a'); stat = {}
def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def work(w):
    S = '/tmp/mut/w%d' % w; os.makedirs(S + '/verif', exist_ok=True)
    sh(['rsync', '-a', '--delete', '--exclude', '.git', '--exclude', 'target', BASE, S + '/repo/'])
    if not os.path.isdir(S + '/repo/target'): sh(['cp', '-a', '/repo/target', S + '/repo/target'])
    sh(['rsync', '-a', '--delete', '--exclude', 'target', V + '/harness/', S + '/verif/harness/'])
    c = S + '/verif/harness/Cargo.toml'; t = open(c).read(); open(c, 'w').write(t.replace('"/repo"', '"%s/repo"' % S))
    t = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd %s/repo' % S); open(S + '/test.sh', 'w').write(t)
    while True:
        try: f, i, n = Q.get_nowait()
        except queue.Empty: return
        p = S + '/repo/' + f; orig = open(BASE + f).read(); L = orig.split('\n'); old = L[i]; L[i] = n
        open(p, 'w').write('\n'.join(L))
        rec = dict(file=f, line=i + 1, old=old.strip(), new=n.strip())
        try:
            r = sh(['cargo', 'build', '--release', '--offline', '--manifest-path', c], env=env)
            if r.returncode: rec['result'] = 'nobuild'; continue
            for q in ORDER:
                e = dict(env, HTPCHECK_ROOT=S + '/verif', HTPCHECK_TIER='quick', VERIF_SEED='1', HTPCHECK_CASES=str(max(300, int(props[q] * A.frac))), HTPCHECK_THREADS='1', HTPCHECK_WALL='100')
                try:
                    r = sh(['timeout', '-s', 'KILL', '150', S + '/verif/harness/target/release/htpcheck', 'check', q], env=e)
                except Exception as x: rec['result'] = 'hang'; break
                if r.returncode: rec['result'] = q; break
            else:
                try: os.unlink(S + '/o.json')
                except OSError: pass
                sh(['timeout', '-s', 'KILL', '400', 'bash', S + '/test.sh', S + '/o.json'], env=env)
                try: bad = [x for x in base if x not in json.load(open(S + '/o.json'))['passed']]
                except Exception: bad = ['?']
                rec['result'] = 'MISSED' if not bad else 'tests'
                rec['tests'] = bad[:3]
        finally:
            open(p, 'w').write(orig)
            with lock:
                stat[rec.get('result')] = stat.get(rec.get('result'), 0) + 1
                out.write(json.dumps(rec) + '\n'); out.flush()
T = [threading.Thread(target=work, args=(w,)) for w in range(A.workers)]
[t.start() for t in T]; [t.join() for t in T]
print(stat)
