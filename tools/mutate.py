#!/usr/bin/env python3
"""mutate.py [-n N] [-s SEED] [ID...]: random small mutations of the code behind each property in a scratch copy of /repo; prints those that the quick check does not report.
A survey tool for finding holes in the checks; most survivors are equivalent mutants."""
import sys, os, re, random, subprocess, shutil, argparse, json, time
ap = argparse.ArgumentParser(); ap.add_argument('-n', type=int, default=12); ap.add_argument('-s', type=int, default=1); ap.add_argument('-o', default='/tmp/mut.log'); ap.add_argument('-j', default='8'); ap.add_argument('ids', nargs='*'); A = ap.parse_args()
FILES = {'C01': ['include/gul14/to_number.h'], 'C02': ['include/gul14/to_number.h', 'src/to_number.cc'], 'C03': ['src/escape.cc'], 'C04': ['include/gul14/join_split.h'], 'C05': ['include/gul14/tokenize.h'], 'C06': ['src/trim.cc'], 'C07': ['src/replace.cc'],
 'C08': ['src/case_ascii.cc', 'include/gul14/case_ascii.h'], 'C09': ['include/gul14/substring_checks.h'], 'C10': ['include/gul14/string_view.h'], 'C11': ['include/gul14/cat.h', 'src/cat.cc', 'include/gul14/string_util.h', 'src/string_util.cc'], 'C12': ['include/gul14/hexdump.h'],
 'C13': ['include/gul14/SmallVector.h'], 'C14': ['include/gul14/SmallVector.h'], 'C15': ['include/gul14/SlidingBuffer.h'], 'C16': ['include/gul14/span.h'], 'C17': ['include/gul14/bit_manip.h'], 'C18': ['include/gul14/gcd_lcm.h'], 'C19': ['include/gul14/num_util.h'],
 'C20': ['include/gul14/statistics.h'], 'C21': ['include/gul14/finalizer.h'], 'C22': ['include/gul14/optional.h'], 'C23': ['include/gul14/expected.h'], 'C24': ['include/gul14/variant.h'], 'C25': ['include/gul14/date.h'], 'C26': ['src/Trigger.cc', 'include/gul14/Trigger.h'],
 'C27': ['src/ThreadPool.cc', 'include/gul14/ThreadPool.h'], 'C28': ['src/ThreadPool.cc', 'include/gul14/ThreadPool.h'], 'C29': ['src/ThreadPool.cc', 'include/gul14/ThreadPool.h'], 'C30': ['include/gul14/time_util.h', 'include/gul14/Trigger.h']}
SKIP = re.compile(r'^\s*(#|//|\*|/\*|template|typename|using|static_assert|namespace|friend|public|private|protected|struct|class|extern|GUL_EXPORT|[{}]|\}\s*;?$|$)|static_assert|noexcept\(|enable_if|decltype|is_nothrow|requires')
OPS = [(r'(?<![<>=!\-+*/&|])<=(?![>=])', '<'), (r'(?<![<>=!\-])>=(?!=)', '>'), (r' < ', ' <= '), (r' > ', ' >= '), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'), (r'\band\b', 'or'), (r'\bor\b', 'and'), (r'\bnot ', ''), (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+ ', ' - '), (r' - ', ' + '), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\b10\b', '11'),
 (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'(?<![!\w])!(?=[\w(*])', ''), (r'\+\+(?=\w)', '--'), (r'--(?=\w)', '++'), (r'\bbegin\b', 'end'), (r'\bend\(\)', 'begin()'), (r'\bfirst\b', 'last'), (r'\bfront\b', 'back'), (r'\bmin\b', 'max'), (r'\bmax\b', 'min'), (r'std::move\(', '('), (r'\bleft\b', 'right'), (r' \+= ', ' -= '), (r' -= ', ' += '), (r' \* ', ' + '), (r' / ', ' * '), (r' % ', ' / '), (r'notify_all', 'notify_one'), (r'\bif \((.*)\)$', r'if (!(\1))'), (r'\bif \((.*)\)$', r'if (false)'), (r'\bif \((.*)\)$', r'if (true)'), (r'^(\s*)(\w[\w.>:\-]*\(.*\);)$', r'\1// \2'), (r'^(\s*)(\w[\w.>:\-]* [+\-]?= .*;)$', r'\1// \2'), (r'\bconst auto&', 'auto'), (r'\bs1\b', 's2')]
def mutants(path):
    out = []; incom = False
    lines = open(path).read().split('\n'); depth_else = []
    for i, l in enumerate(lines):
        if '/*' in l and '*/' not in l: incom = True
        if incom:
            if '*/' in l: incom = False
            continue
        m = re.match(r'\s*#\s*(if|ifdef|ifndef|else|elif|endif)\b(.*)', l)
        if m:
            k = m.group(1)
            if k.startswith('if'): depth_else.append('_MSC_VER' in m.group(2) and '!' not in m.group(2) and k != 'ifndef')
            elif k in ('else', 'elif') and depth_else: depth_else[-1] = True
            elif k == 'endif' and depth_else: depth_else.pop()
            continue
        if any(depth_else) or SKIP.search(l): continue
        code = l.split('//')[0].rstrip()
        for pat, rep in OPS:
            for mm in re.finditer(pat, code):
                new = code[:mm.start()] + mm.expand(rep) + code[mm.end():]
                if new != code: out.append((i, l, new))
    return lines, out
rnd = random.Random(A.s); log = open(A.o, 'a')
def say(*a): print(*a); print(*a, file=log); log.flush(); sys.stdout.flush()
W = '/tmp/mutrepo_%d' % os.getpid()
for pid in A.ids or sorted(FILES):
    pool = []
    for f in FILES[pid]:
        lines, ms = mutants('/repo/' + f)
        bl = {}
        for m in ms: bl.setdefault(m[0], []).append(m)
        pool += [(f, lines, rnd.choice(v)) for v in bl.values()] + [(f, lines, rnd.choice(v)) for v in bl.values()]
    rnd.shuffle(pool); done = 0; caught = 0; t0 = time.time()
    for f, lines, (i, old, new) in pool:
        if done >= A.n: break
        shutil.rmtree(W, ignore_errors=True); os.makedirs(W); shutil.copytree('/repo/include', W + '/include'); shutil.copytree('/repo/src', W + '/src')
        L = list(lines); L[i] = new; open(W + '/' + f, 'w').write('\n'.join(L))
        r = subprocess.run(['python3', '/verif/check.py', pid, 'quick'], env=dict(os.environ, SX_NO_EVIDENCE='1', SX_REPO=W, SX_JOBS=A.j), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if r.returncode == 2: continue
        done += 1
        if r.returncode == 1: caught += 1; continue
        say('SURVIVED', pid, f, i + 1, '\n   -', old.strip(), '\n   +', new.strip())
        x = [q for q in r.stdout.split('\n') if 'INCOMPLETE' in q or 'UNCONF' in q.upper() or 'PARTIAL' in q][:3]
        if x: say('   ', x)
    say('==', pid, 'mutants', done, 'caught', caught, '%.0f s' % (time.time() - t0))
shutil.rmtree(W, ignore_errors=True)
