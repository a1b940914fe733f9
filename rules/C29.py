"""C29: no hidden shared state, and reading does not change an object.

Every source of the library, and every header (all inline functions emitted),
is lowered to LLVM IR.  A flow-insensitive pointer analysis with function
summaries gives, for every store, the parameters and globals the address is
derived from.
 rule `global`: no function writes a global, or lets its address escape to
   something that may write it (initialisation of a static aside);
 rule `const`: nothing is written through a parameter that is a reference or
   pointer to const (the object of a const member function among them);
 rule `reentrant`: no call to a C function that keeps state.
"""
import os, re, subprocess, multiprocessing, collections
import eqn
from common import Result, Finding

NONREENTRANT = set('rand srand random srandom drand48 lrand48 mrand48 srand48 strtok asctime ctime localtime gmtime '
                   'setlocale setenv putenv unsetenv tmpnam signal sigaction chdir'.split())
# text is read with a trace of what is being read that is one per process (said so in the
# sources); random values come from the generator of the C library
EXEMPT_FILES = ('utilities/error_stack.cxx',)
INIT = re.compile(r'init(\.check)?\d*$')
RANDOM = re.compile(r'random', re.I)
# a part of the path found by the last look-up is remembered (documented with the members)
EXEMPT_CONST = {('KDL::Path_Composite', 'Lookup')}


def flags(eig=('-DEIGEN_DONT_VECTORIZE',)):
    return ['-std=gnu++17', '-O2', '-Xclang', '-disable-llvm-passes', '-g', '-DNDEBUG', '-fno-discard-value-names', '-w', '-S', '-emit-llvm'] + list(eig)


def lower(job):
    src, out, inc, every = job
    mid = out + '.0'
    cmd = [eqn.CXX] + flags() + (['-femit-all-decls'] if every else []) + \
          ['-I' + inc, '-I' + os.path.join(eqn.REPO, 'orocos_kdl/src'), '-I/usr/include/eigen3', '-o', mid, src]
    p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, universal_newlines=True)
    if p.returncode:
        return src, None, 'compiling %s failed:\n%s' % (src, p.stderr[:2000])
    if every:
        t = open(mid).read()
        t = re.sub(r'(?m)^(define) linkonce_odr (.*@\w*KDL)', r'\1 weak_odr \2', t)
        open(mid, 'w').write(t)
    p = subprocess.run([eqn.OPT, '-O2', '-inline-threshold=3000', '-vectorize-loops=false', '-vectorize-slp=false', '-S', '-o', out, mid],
                       stderr=subprocess.PIPE, universal_newlines=True)
    os.remove(mid)
    if p.returncode:
        return src, None, 'optimising %s failed:\n%s' % (src, p.stderr[:2000])
    try:
        return src, Module(out).facts(), None
    except Exception as e:
        import traceback
        return src, None, 'analysing %s failed: %s' % (src, traceback.format_exc()[-1500:])
    finally:
        os.remove(out)


NAME = r'(?:"(?:[^"\\]|\\.)*"|[-\w.$]+)'
VAR = re.compile(r'[%@]' + NAME)


def split_args(s):
    out, depth, cur, q = [], 0, '', False
    for c in s:
        if c == '"':
            q = not q
        if not q:
            if c in '([{<':
                depth += 1
            elif c in ')]}>':
                depth -= 1
            elif c == ',' and depth == 0:
                out.append(cur.strip())
                cur = ''
                continue
        cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def balanced(s, i):
    """index after the bracket that closes s[i]"""
    d, q = 0, False
    for k in range(i, len(s)):
        c = s[k]
        if c == '"':
            q = not q
        if q:
            continue
        if c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
            if d == 0:
                return k + 1
    return len(s)


class Module(object):
    def __init__(self, path):
        self.globals, self.funcs, self.md, self.decl = {}, [], {}, {}
        cur = None
        for ln in open(path):
            if cur is not None:
                if ln.startswith('}'):
                    cur = None
                else:
                    cur[1].append(ln.rstrip('\n'))
                continue
            if ln.startswith('define '):
                cur = (ln.rstrip('\n'), [])
                self.funcs.append(cur)
            elif ln.startswith('@'):
                m = re.match(r'@(%s) = (.*)$' % NAME, ln.rstrip('\n'))
                if m:
                    self.globals[m.group(1)] = m.group(2)
            elif ln.startswith('!'):
                m = re.match(r'!(\d+) = (?:distinct )?!?(.*)$', ln)
                if m:
                    self.md[m.group(1)] = m.group(2)
            elif ln.startswith('declare '):
                m = re.search(r'@(%s)\((.*)\)' % NAME, ln)
                if m:
                    self.decl[m.group(1)] = split_args(m.group(2))

    # ---- debug information
    def field(self, n, f):
        m = re.search(r'\b%s: (?:!(\d+)|"([^"]*)"|(\w+))' % f, self.md.get(n, ''))
        return (m.group(1) or m.group(2) or m.group(3)) if m else None

    def file_of(self, n):
        f = self.field(n, 'file')
        if not f:
            return ''
        a, b = self.field(f, 'filename') or '', self.field(f, 'directory') or ''
        return os.path.normpath(os.path.join(b, a))

    def is_const(self, t, depth=0):
        """the type is const at the top"""
        d = self.md.get(t or '', '')
        if 'DW_TAG_const_type' in d:
            return True
        if 'DW_TAG_typedef' in d or 'DW_TAG_volatile_type' in d or 'DW_TAG_restrict_type' in d:
            return self.is_const(self.field(t, 'baseType'))
        if 'DW_TAG_array_type' in d:
            return self.is_const(self.field(t, 'baseType'))
        return False

    def points_to_const(self, t):
        for _ in range(6):
            d = self.md.get(t or '', '')
            if 'DW_TAG_const_type' in d or 'DW_TAG_typedef' in d:
                t = self.field(t, 'baseType')
                continue
            if 'DW_TAG_pointer_type' in d or 'DW_TAG_reference_type' in d:
                return self.is_const(self.field(t, 'baseType'))
            return False
        return False

    def sp_of(self, s):
        for _ in range(60):
            d = self.md.get(s or '', '')
            if d.startswith('DISubprogram'):
                return s
            s = self.field(s, 'scope')
            if s is None:
                return None
        return None

    def where(self, loc):
        """[(file, line, function)] from the innermost inlined function outwards"""
        out = []
        for _ in range(60):
            if not loc or not self.md.get(loc, '').startswith('DILocation'):
                break
            sc = self.field(loc, 'scope')
            sp = self.sp_of(sc)
            out.append((self.file_of(sc) or self.file_of(sp or ''), int(self.field(loc, 'line') or 0), self.field(sp, 'name') if sp else '?', self.field(sp, 'linkageName') if sp else None))
            loc = self.field(loc, 'inlinedAt')
        return out

    def facts(self):
        src = os.path.join(eqn.REPO, 'orocos_kdl/src')
        globs = {}
        for g, raw in self.globals.items():
            m = re.match(r'((?:[a-z_]+(?:\([^)]*\))? )*?)(global|constant) ', raw)
            if not m or m.group(2) == 'constant' or g.startswith(('llvm.', '_ZTV', '_ZTI', '_ZTS', '_ZTT', '_ZGV', '__')):
                continue
            e = re.search(r'!dbg !(\d+)', raw)
            ex = self.md.get(e.group(1), '') if e else ''
            v = re.search(r'var: !(\d+)', ex)
            v = v.group(1) if v else None
            f = self.file_of(v) if v else ''
            const = self.is_const(self.field(v, 'type')) if v else False
            t = self.field(v, 'type') if v else None
            if const and ('DW_TAG_pointer_type' in self.md.get(self.field(t, 'baseType') or '', '')):
                const = self.points_to_const(t)
            globs[g] = {'file': f, 'const': const, 'name': self.field(v, 'name') if v else g,
                        'external': 'external' in m.group(1), 'thread': 'thread_local' in m.group(1), 'line': int(self.field(v, 'line') or 0) if v else 0}
        params = collections.defaultdict(dict)      # subprogram -> name -> type
        for n, d in self.md.items():
            if d.startswith('DILocalVariable') and 'arg: ' in d:
                params[self.sp_of(self.field(n, 'scope'))][self.field(n, 'name')] = self.field(n, 'type')
        out = []
        for head, body in self.funcs:
            f = self.function(head, body, globs, params, src)
            if f:
                out.append(f)
        return {'globals': globs, 'functions': out}

    def function(self, head, body, globs, params, src):
        m = re.search(r'@(%s)\(' % NAME, head)
        name = m.group(1).strip('"')
        end = balanced(head, m.end() - 1)
        args, consts, ro = [], {}, set()
        sp = re.search(r'!dbg !(\d+)', head)
        sp = sp.group(1) if sp else None
        pt = params.get(sp, {})
        for k, a in enumerate(split_args(head[m.end():end - 1])):
            v = re.search(r'%(' + NAME + r')$', a)
            args.append(v.group(1) if v else None)
            if v and a.startswith('ptr') and self.points_to_const(pt.get(v.group(1))):
                consts[k] = v.group(1)
        pre = '%'
        roots = collections.defaultdict(set)    # %var -> {(kind, what, deep)}
        for k, a in enumerate(args):
            if a:
                roots[a].add(('a', k, 0))
        cells = collections.defaultdict(set)    # (alloca, offset key) -> roots
        writes, calls, escapes, plain = [], [], [], []
        insts = []
        blk = ''
        for ln in body:
            s = ln.strip()
            if not s or s.startswith(';'):
                continue
            mm = re.match(r'^(%s):' % NAME, ln)
            if mm:
                blk = mm.group(1)
                continue
            insts.append((blk, s))
        # a multi-line instruction (switch, landingpad) only continues with lines that define nothing
        defs = []
        for b, s in insts:
            mm = re.match(r'%(' + NAME + r') = (.*)$', s)
            defs.append((b, mm.group(1) if mm else None, mm.group(2) if mm else s))

        gname = re.compile(r'@(' + NAME + r')')

        def val(tok):
            """roots of an operand text"""
            out = set()
            t = tok.strip()
            if t.startswith('%'):
                mm = re.match(r'%(' + NAME + r')$', t)
                if mm:
                    return roots[mm.group(1)]
                return out
            for g in gname.findall(t):
                g2 = g.strip('"')
                if g2 in globs:
                    out.add(('g', g2, 0))
            return out

        def operand(a):
            """the operand at the end of a typed argument text"""
            mm = re.search(r'(%' + NAME + r'|@' + NAME + r'|null|undef|poison)$', a)
            if mm:
                return mm.group(1)
            mm = re.search(r'(getelementptr.*\)|inttoptr.*\))$', a)
            return mm.group(1) if mm else ''

        def deep(rs):
            o = set()
            for r in rs:
                if r[0] == 'l':
                    o |= cells[(r[1], r[2])] | (cells[(r[1], '?')] if r[2] != '?' else set().union(*[v for (a, _), v in cells.items() if a == r[1]] or [set()]))
                else:
                    o.add((r[0], r[1], 1))
            return o
        changed, rounds = True, 0
        while changed and rounds < 30:
            changed = False
            rounds += 1
            for b, d, s in defs:
                new = None
                if d is not None:
                    if s.startswith('alloca'):
                        new = {('l', d, '')}
                    elif s.startswith('getelementptr'):
                        t = split_args(re.sub(r', !\w+ !\d+', '', s))
                        base = val(operand(t[1]))
                        idx = ' '.join(x.split()[-1] for x in t[2:])
                        key = '?' if '%' in idx else ('' if set(idx.split()) <= {'0'} else t[0].split(None, 1)[1].replace('inbounds ', '') + idx)
                        new = set()
                        for r in base:
                            new.add(('l', r[1], key if r[2] == '' else '?') if r[0] == 'l' else r)
                    elif s.startswith(('bitcast', 'addrspacecast', 'freeze')):
                        mm = re.search(r'(%' + NAME + r')', s)
                        new = val(mm.group(1)) if mm else set()
                    elif s.startswith('phi'):
                        new = set()
                        for x in re.findall(r'\[ ([^,\]]+),', s):
                            new |= val(x)
                    elif s.startswith('select'):
                        t = split_args(re.sub(r', !\w+ !\d+', '', s))
                        new = set()
                        for x in t[1:3]:
                            new |= val(operand(x))
                    elif s.startswith('load') and re.match(r'load (volatile |atomic )?(ptr|\{|\[)', s):
                        t = split_args(re.sub(r', !\w+[.\w]* !\d+', '', s))
                        new = deep(val(operand(t[1])))
                    elif s.startswith(('extractvalue', 'insertvalue')):
                        new = set()
                        for x in re.findall(r'%' + NAME, s):
                            new |= val(x)
                if new is not None and not new <= roots[d]:
                    roots[d] |= new
                    changed = True
                if s.startswith('store '):
                    t = split_args(re.sub(r', !\w+[.\w]* !\d+', '', s))
                    if re.match(r'store (volatile |atomic )?ptr', s):
                        vr = val(operand(t[0]))
                        for r in val(operand(t[1])):
                            if r[0] == 'l' and not vr <= cells[(r[1], r[2])]:
                                cells[(r[1], r[2])] |= vr
                                changed = True
                elif 'llvm.memcpy' in s or 'llvm.memmove' in s:
                    c = re.search(r'@llvm\.mem\w+[.\w]*\(', s)
                    if c:
                        a = split_args(s[c.end():balanced(s, c.end() - 1) - 1])
                        for r in val(operand(a[0])):
                            if r[0] == 'l':
                                src2 = deep(val(operand(a[1])))
                                if not src2 <= cells[(r[1], '?')]:
                                    cells[(r[1], '?')] |= src2
                                    changed = True
        for b, d, s in defs:
            loc = re.search(r'!dbg !(\d+)', s)
            loc = loc.group(1) if loc else None
            if s.startswith(('store ', 'atomicrmw', 'cmpxchg')):
                t = split_args(re.sub(r', !\w+[.\w]* !\d+', '', s))
                at = t[1] if s.startswith('store ') else t[0]
                for r in val(operand(at)):
                    if r[0] != 'l':
                        writes.append((r, b, loc))
                if re.match(r'store (volatile |atomic )?ptr', s):
                    for r in val(operand(t[0])):
                        if r[0] == 'g' and any(q[0] != 'l' for q in val(operand(at))):
                            escapes.append((r, b, loc, 'its address is kept'))
            elif re.match(r'(tail |musttail |notail )?call |invoke ', s):
                m2 = re.search(r'(@%s|%%%s)\(' % (NAME, NAME), s)
                if not m2 or s.find('asm ') >= 0:
                    continue
                callee = m2.group(1)
                a = split_args(s[m2.end():balanced(s, m2.end() - 1) - 1])
                if callee.startswith('@llvm.'):
                    if re.match(r'@llvm\.mem(cpy|move|set)', callee):
                        for r in val(operand(a[0])):
                            if r[0] != 'l':
                                writes.append((r, b, loc))
                    continue
                rs = []
                for k, x in enumerate(a):
                    if not x.startswith('ptr'):
                        rs.append(None)
                        continue
                    ro2 = bool(re.search(r'\b(readonly|readnone|byval)\b', x))
                    v = val(operand(x))
                    inner = set()
                    for r in v:
                        if r[0] == 'l':
                            for (al, _), cs in cells.items():
                                if al == r[1]:
                                    inner |= cs
                    rs.append((frozenset(r for r in v if r[0] != 'l'), frozenset(r for r in inner if r[0] != 'l'), ro2))
                if callee.startswith('@'):
                    calls.append((callee[1:].strip('"'), rs, b, loc))
            elif s.startswith('ret ptr'):
                for r in val(operand(re.sub(r', !\w+ !\d+', '', s))):
                    if r[0] == 'g':
                        escapes.append((r, b, loc, 'its address is returned'))
        W = [(r, b, self.where(l)) for r, b, l in writes]
        C = [(c, rs, b, self.where(l)) for c, rs, b, l in calls if c in NONREENTRANT or any(x and (x[0] or x[1]) for x in rs)]
        E = [(r, b, self.where(l), t) for r, b, l, t in escapes]
        file = self.file_of(sp) if sp else ''
        return {'name': name, 'file': file, 'sp': self.field(sp, 'name') if sp else name, 'line': int(self.field(sp, 'line') or 0) if sp else 0,
                'consts': consts, 'args': args, 'writes': W, 'calls': C, 'escapes': E, 'instrs': len(defs)}


def run(d, tier):
    inc = eqn.make_config(d)
    src = os.path.join(eqn.REPO, 'orocos_kdl/src')
    units = []
    for base, _, fs in os.walk(src):
        for f in sorted(fs):
            if f.endswith(('.cpp', '.cxx')):
                units.append(os.path.join(base, f))
    heads = []
    for base, _, fs in os.walk(src):
        for f in sorted(fs):
            if f.endswith(('.hpp', '.h')) and f not in ('rallNd.h', 'scoped_ptr.hpp'):
                heads.append(os.path.relpath(os.path.join(base, f), src))
    allh = os.path.join(d, 'headers.cpp')
    open(allh, 'w').write(''.join('#include "%s"\n' % h for h in sorted(heads)))
    jobs = [(u, os.path.join(d, 'u%d.ll' % k), inc, u == allh) for k, u in enumerate(sorted(units, key=os.path.getsize, reverse=True) + [allh])]
    with multiprocessing.Pool(8) as pool:
        parts = pool.map(lower, [jobs[-1]] + jobs[:-1], chunksize=1)
    funcs, globs = {}, {}
    for u, facts, err in parts:
        if err:
            raise eqn.AnalysisError(err)
        for g, x in facts['globals'].items():
            k = g if g not in globs or not globs[g]['file'] else g
            if k not in globs or (x['file'] and not globs[k]['file']):
                globs[k] = x
        for f in facts['functions']:
            if f['name'].startswith(('_GLOBAL__', '__cxx_global')):
                continue
            funcs.setdefault(f['name'], f)
    # summaries: which parameters are written (0 the object itself, 1 what it points to)
    wr = {n: set() for n in funcs}
    for n, f in funcs.items():
        for r, b, w in f['writes']:
            if r[0] == 'a':
                wr[n].add((r[1], r[2]))

    def effects(c, k, x):
        """roots written by callee c through argument k = (roots, contents, readonly)"""
        o = set()
        if x is None or x[2]:
            return o
        ws = wr.get(c)
        if ws is None:
            return o
        if (k, 0) in ws:
            o |= x[0]
        if (k, 1) in ws:
            o |= {(r[0], r[1], 1) for r in x[0]} | x[1]
        return o
    changed = True
    while changed:
        changed = False
        for n, f in funcs.items():
            for c, rs, b, w in f['calls']:
                for k, x in enumerate(rs):
                    for r in effects(c, k, x):
                        if r[0] == 'a' and (r[1], r[2]) not in wr[n]:
                            wr[n].add((r[1], r[2]))
                            changed = True
    res = Result()
    seen = set()

    def mine(path):
        return path and os.path.abspath(path).startswith(os.path.abspath(src) + os.sep)

    def report(rule, key, ws, msg):
        fl, line, chain = '', 0, []
        for p, l, fn, ln in ws:
            if mine(p):
                if not fl:
                    fl, line = os.path.relpath(p, eqn.REPO), l
                chain.append('%s:%d %s' % (os.path.relpath(p, eqn.REPO), l, fn))
        if (rule, key) in seen:
            return
        seen.add((rule, key))
        res.findings.append(Finding(rule, key, fl, line, msg, chain))

    def exempt_glob(g, f):
        x = globs.get(g)
        if x is None or x['const'] or x['thread']:
            return True
        if not mine(x['file']):
            return True
        return any(x['file'].endswith(e) for e in EXEMPT_FILES)
    nst = ncall = nconst = 0
    for n, f in sorted(funcs.items()):
        nst += len(f['writes'])
        ncall += len(f['calls'])
        if not any(mine(p) for _, _, w in f['writes'] for p, _, _, _ in w) and not mine(f['file']) and not f['calls']:
            continue
        nconst += len(f['consts']) if mine(f['file']) else 0
        for r, b, w in f['writes']:
            if r[0] == 'g' and not exempt_glob(r[1], f) and not INIT.match(b.strip('"')):
                x = globs[r[1]]
                report('global', '%s/%s' % (f['sp'], x['name']), w, 'the variable %s, one for the whole process, is written by %s' % (x['name'], f['sp']))
            if r[0] == 'a' and r[1] in f['consts'] and mine(f['file']) and (r[2] == 0 or (w and mine(w[0][0]))):
                hit_const(report, f, r, w)
        for r, b, w, t in f['escapes']:
            if r[0] == 'g' and not exempt_glob(r[1], f) and not INIT.match(b.strip('"')):
                x = globs[r[1]]
                report('global', '%s/%s' % (f['sp'], x['name']), w, 'the variable %s, one for the whole process, can be written through %s: %s' % (x['name'], f['sp'], t))
        for c, rs, b, w in f['calls']:
            if c in NONREENTRANT and not any(RANDOM.search(fn or '') for _, _, fn, _ in w) and (any(mine(p) for p, _, _, _ in w) or mine(f['file'])):
                report('reentrant', '%s/%s' % (f['sp'], c), w, '%s keeps state shared by all callers' % c)
            for k, x in enumerate(rs):
                if x is None:
                    continue
                for r in effects(c, k, x):
                    if r[0] == 'g' and not exempt_glob(r[1], f) and not INIT.match(b.strip('"')):
                        report('global', '%s/%s' % (f['sp'], globs[r[1]]['name']), w, 'the variable %s, one for the whole process, is written through %s' % (globs[r[1]]['name'], f['sp']))
                    if r[0] == 'a' and r[2] == 0 and r[1] in f['consts'] and mine(f['file']):
                        hit_const(report, f, r, w)
                if c not in wr and not x[2] and not c.startswith(('_ZNK', '__cxa', '_ZN5Eigen')) and not re.match(r'_Znw|_Zdl', c):
                    for r in x[0]:
                        if r[0] == 'g' and not exempt_glob(r[1], f) and not INIT.match(b.strip('"')) and r[2] == 0:
                            report('global', '%s/%s' % (f['sp'], globs[r[1]]['name']), w, 'the variable %s, one for the whole process, is handed to %s' % (globs[r[1]]['name'], c))
    mineg = sorted('%s' % x['name'] for g, x in globs.items() if mine(x['file']) and not x['const'])
    nf = sum(1 for f in funcs.values() if mine(f['file']))
    if nf < 700 or nconst < 500:
        raise eqn.AnalysisError('only %d functions with %d const parameters were analysed' % (nf, nconst))
    res.coverage = {'rule': __doc__.strip(), 'translation_units': len(parts), 'functions_analysed': nf, 'const_parameters': nconst, 'stores': nst, 'calls_with_pointers': ncall,
                    'variables_of_the_process': len(mineg), 'variables': mineg}
    res.assumptions = ['calls through virtual functions write no more than their const-qualified interface says (every overrider in the library is analysed itself)',
                       'functions of the C and C++ library write through no pointer they take as const',
                       'clang-18 lowers the sources as g++ does']
    return res


def hit_const(report, f, r, w):
    cls = re.sub(r'^_ZNK?', '', f['name'])
    for c, m in EXEMPT_CONST:
        cn = c.split('::')[-1]
        if cn in f['name'] and (m == f['sp'] or any(fn == m for _, _, fn, _ in w)):
            return
    report('const', '%s/%s' % (f['name'], f['consts'][r[1]]), w, '%s writes %sthe const parameter %s' % (f['sp'], 'what is held by ' if r[2] else '', f['consts'][r[1]]))
