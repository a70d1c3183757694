#!/usr/bin/env python3
"""Systematic mutation testing: applies small textual changes to every line of the program in a scratch copy, drops those
that compile to the same code, and runs the checks that concern the file until one notices. Not used by any check.

usage: automut.py [-o LOG] [-part K/N] [FILE.c...]      (-part: only every N-th mutant of a shuffled list)
"""
import os, random, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get('MUT_SRC', '/repo')
CHECKS = { # the fast ones first
    'caibx.c': 'C07 C09 C10 C16', 'chunker.c': 'C08 C07 C10 C09 C16 C22', 'index.c': 'C07 C10 C22', 'store.c': 'C20 C04 C16 C12 C03',
    'store-local.c': 'C07 C08 C10 C04 C16 C03 C22', 'store-http.c': 'C20 C13 C10 C12 C21 C11 C04 C16 C03', 'target.c': 'C17 C06 C05 C16 C22 C04 C01 C02',
    'sha.c': 'C18', 'encrypt.c': 'C13 C14 C20 C10', 'utils.c': 'C13 C14 C17 C08 C18 C10 C15 C16 C09', 'main.c': 'C19 C17 C06 C18 C10 C09 C16 C05 C01',
    'csn-tool.c': 'C14 C13 C10', 'patchdd.c': 'C15 C10', 'ui.c': 'C10 C15', 'chunk.c': 'C20 C04 C10',
}

def strip_strings(l):
    return re.sub(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])*\'', lambda m: '"' + '_' * (len(m.group(0)) - 2) + '"', l)

def mutations(path):
    lines = open(path).read().split('\n')
    depth, cont, table = 0, False, False
    for i, l in enumerate(lines):
        s = strip_strings(re.sub(r'//.*', lambda m: ' ' * len(m.group(0)), l))
        t = s.strip()
        inside = depth > 0
        if 'buzhash_table[]' in l:
            table = True
        depth += s.count('{') - s.count('}')
        if table:
            if t == '};':
                table = False
            continue
        if not inside or not t or t.startswith(('#', '*', '/*', 'u_log', 'u_assert(', 'printf', 'fprintf')) or 'u_build_assert' in t:
            continue
        def put(a, b, new):
            return i, l[:a] + new + l[b:]
        for m in re.finditer(r'(?<![<>=!\-+&|])(<=|>=|==|!=|<|>)(?![<>=])', s):
            alt = {'<': ['<=', '>'], '<=': ['<', '=='], '>': ['>=', '<'], '>=': ['>', '=='], '==': ['!='], '!=': ['==']}[m.group(1)]
            for x in alt:
                yield put(m.start(1), m.end(1), x)
        for m in re.finditer(r'&&|\|\|', s):
            yield put(m.start(), m.end(), '||' if m.group(0) == '&&' else '&&')
        for m in re.finditer(r'(?<=[\w)\]] )([+\-*/%]) (?=[\w(])', s):
            yield put(m.start(1), m.end(1), {'+': '-', '-': '+', '*': '+', '/': '*', '%': '+'}[m.group(1)])
        for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?=[^\w.]|ul|ull|u\b)', s):
            v = int(m.group(1), 8 if re.match(r'0[0-7]+$', m.group(1)) else 0)
            yield put(m.start(1), m.end(1), str(v + 1))
            if v > 1:
                yield put(m.start(1), m.end(1), str(v - 1))
        for m in re.finditer(r'\b(true|false)\b', s):
            yield put(m.start(), m.end(), 'false' if m.group(1) == 'true' else 'true')
        for m in re.finditer(r'\bif \((.*)\)( \{)?$', s):
            yield put(m.start(1), m.end(1), '0')
            yield put(m.start(1), m.end(1), '1')
        for m in re.finditer(r'\b(continue|break);', s):
            yield put(m.start(1), m.end(1), 'break' if m.group(1) == 'continue' else 'continue')
            yield put(m.start(), m.end(), ';')
        for m in re.finditer(r'return (-1|0|1|NULL|EXIT_FAILURE|EXIT_SUCCESS);', s):
            alt = {'-1': '0', '0': '-1', '1': '0', 'EXIT_FAILURE': 'EXIT_SUCCESS', 'EXIT_SUCCESS': 'EXIT_FAILURE'}.get(m.group(1))
            if alt:
                yield put(m.start(1), m.end(1), alt)
        if re.match(r'^(goto \w+;|[\w>.\-\[\]\*&()]+(\+\+|--);|\*?[\w>.\-\[\]\*&()+ ]+ [+\-|^]?= .*;|\w+\(.*\);|checked\(.*\);)$', t) and not re.match(r'^(const |unsigned |struct |static )?\w+ \*?\w+ = ', t):
            a = len(l) - len(l.lstrip())
            yield put(a, len(l), ';')

def main():
    a = sys.argv[1:]
    log = sys.stdout
    if '-o' in a:
        k = a.index('-o')
        log = open(a[k + 1], 'a')
        del a[k:k + 2]
    part, every = 0, 1
    if '-part' in a:
        k = a.index('-part')
        part, every = map(int, a[k + 1].split('/'))
        del a[k:k + 2]
    d = tempfile.mkdtemp(prefix='automut.', dir='/tmp')
    r = os.path.join(d, 'repo')
    shutil.copytree(SRC, r, ignore=shutil.ignore_patterns('.git', '_build'))
    def obj(f):
        o = os.path.join(d, 'o.o')
        q = subprocess.run(['gcc', '-std=gnu11', '-O2', '-w', '-g0', '-I', r, '-c', os.path.join(r, f), '-o', o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if q.returncode:
            return None
        q = subprocess.run(['objdump', '-d', '-s', '-r', '--no-show-raw-insn', o], stdout=subprocess.PIPE)
        return q.stdout
    work = [(f, m) for f in a or list(CHECKS) for m in mutations(os.path.join(r, f))]
    if every > 1:
        random.Random(7).shuffle(work)
        work = work[part::every]
    seen = {}
    for f, (i, new) in work:
        p = os.path.join(r, f)
        orig = open(p).read()
        m = orig.split('\n')
        old = m[i]
        if f not in seen:
            seen[f] = {obj(f)}
        m[i] = new
        open(p, 'w').write('\n'.join(m))
        o = obj(f)
        if o is not None and o not in seen[f]:
            seen[f].add(o)
            t0 = time.time()
            verdict = 'SURVIVED'
            for c in CHECKS[f].split():
                env = dict(os.environ, MC_REPO=r, MC_BUILD=d + '.build', MC_OUT=os.path.join(d, 'out'))
                q = subprocess.run([os.path.join(V, 'check'), c, 'quick'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if q.returncode == 1:
                    verdict = 'caught by ' + c
                    break
                if q.returncode:
                    verdict = 'rc%d from %s' % (q.returncode, c)
                    break
            shutil.rmtree(d + '.build', ignore_errors=True)
            print('%s:%d: %s  [%s] -> [%s] %.0f s' % (f, i + 1, verdict, old.strip(), new.strip(), time.time() - t0), file=log, flush=True)
        open(p, 'w').write(orig)
    shutil.rmtree(d)

if __name__ == '__main__':
    main()
