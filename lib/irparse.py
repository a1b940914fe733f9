"""Parser for textual LLVM 18 IR (opaque pointers).

Produces Module / Function / Block / Instr objects.  It is not a complete
LLVM parser: it understands what clang-18 emits for C++ code at -O0..-O2 and
raises IRError on anything it cannot classify in a function body that is
actually analysed (an unknown construct is never skipped silently).
"""
import re

class IRError(Exception):
    pass

# --------------------------------------------------------------------------
# types
# --------------------------------------------------------------------------
PRIMS = {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'i128': 16,
         'double': 8, 'float': 4, 'ptr': 8, 'x86_fp80': 16, 'void': 0,
         'metadata': 0, 'label': 0, 'token': 0}


class Op(object):
    """operand: kind in local, global, const, null, undef, cexpr, agg, str, meta"""
    __slots__ = ('kind', 'val', 'ty')

    def __init__(self, kind, val=None, ty=None):
        self.kind, self.val, self.ty = kind, val, ty

    def __repr__(self):
        return '%s:%s' % (self.kind, self.val)


class Instr(object):
    __slots__ = ('op', 'res', 'ty', 'ops', 'x', 'dbg', 'blk', 'idx', 'raw')

    def __init__(self):
        self.op = self.res = self.ty = None
        self.ops = []
        self.x = {}
        self.dbg = None
        self.blk = None
        self.idx = 0
        self.raw = ''

    def __repr__(self):
        return '<%s %s = %s %r>' % (self.blk.name if self.blk else '?', self.res, self.op, self.ops)


class Block(object):
    __slots__ = ('name', 'ins', 'succ', 'pred', 'fn', 'i')

    def __init__(self, name):
        self.name = name
        self.ins = []
        self.succ = []
        self.pred = []
        self.fn = None
        self.i = 0

    def __repr__(self):
        return '<B %s>' % self.name

    @property
    def term(self):
        return self.ins[-1]


class Function(object):
    __slots__ = ('name', 'ret', 'params', 'blocks', 'bmap', 'dbg', 'mod', 'text', 'linkage', 'attrs', '_dom', '_loopinfo', '_liveout')

    def __init__(self, name):
        self.name = name
        self.params = []      # list of (type, name, attrs)
        self.blocks = []
        self.bmap = {}
        self.dbg = None
        self._dom = None


class Module(object):
    def __init__(self):
        self.types = {}       # name -> list of element type strings or None (opaque)
        self.aliases = {}     # alias -> function
        self.globals = {}     # name -> dict(ty, init, raw)
        self.functions = {}   # defined
        self.declared = {}    # name -> raw
        self.md = {}          # id -> raw string
        self._mdp = {}
        self._sz = {}

    # ---- layout ----------------------------------------------------------
    def sizeof(self, ty):
        s = self._sz.get(ty)
        if s is None:
            s = self._sz[ty] = self._layout(ty)[:2]
        return s[0]

    def alignof(self, ty):
        self.sizeof(ty)
        return self._sz[ty][1]

    def _layout(self, ty):
        if ty in PRIMS:
            return PRIMS[ty], max(1, PRIMS[ty]), None
        m = re.match(r'^i(\d+)$', ty)
        if m:
            n = (int(m.group(1)) + 7) // 8
            return n, min(8, n), None
        if ty.startswith('%'):
            el = self.types[ty]
            if el is None:
                return 0, 1, []
            return self._struct(el[0], el[1])
        if ty.startswith('['):
            n, et = array_parts(ty)
            return n * self.sizeof(et), self.alignof(et), None
        if ty.startswith('<{'):
            return self._struct(split_top(ty[2:-2]), True)
        if ty.startswith('<'):
            n, et = array_parts(ty)
            sz = n * self.sizeof(et)
            return sz, sz, None
        if ty.startswith('{'):
            return self._struct(split_top(ty[1:-1]), False)
        raise IRError('sizeof ' + ty)

    def _struct(self, elems, packed):
        off = 0
        al = 1
        offs = []
        for e in elems:
            a = 1 if packed else self.alignof(e)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += self.sizeof(e)
            al = max(al, a)
        off = (off + al - 1) // al * al
        return off, al, offs

    def elem(self, ty, idx):
        """(offset, type) of aggregate element idx"""
        if ty.startswith('%'):
            e = self.types[ty]
            return self._struct(e[0], e[1])[2][idx], e[0][idx]
        if ty.startswith('<{'):
            e = split_top(ty[2:-2])
            return self._struct(e, True)[2][idx], e[idx]
        if ty.startswith('{'):
            e = split_top(ty[1:-1])
            return self._struct(e, False)[2][idx], e[idx]
        if ty.startswith('[') or ty.startswith('<'):
            n, et = array_parts(ty)
            return idx * self.sizeof(et), et
        raise IRError('elem of ' + ty)

    # ---- debug info ------------------------------------------------------
    def mdnode(self, mid):
        """parsed specialised metadata node -> dict (with '_kind')"""
        if mid in self._mdp:
            return self._mdp[mid]
        raw = self.md.get(mid)
        d = None
        if raw is not None:
            r = raw
            if r.startswith('distinct '):
                r = r[9:]
            m = re.match(r'^!(\w+)\((.*)\)$', r, re.S)
            if m:
                d = {'_kind': m.group(1)}
                for part in split_top(m.group(2)):
                    if ':' in part:
                        k, v = part.split(':', 1)
                        d[k.strip()] = v.strip()
            elif r.startswith('!{'):
                d = {'_kind': 'tuple', 'elems': [x.strip() for x in split_top(r[2:-1])] if r[2:-1].strip() else []}
        self._mdp[mid] = d
        return d

    def loc(self, dbg):
        """(file, line, subprogram-name) of an instruction's !dbg id; follows
        inlinedAt only for reporting the innermost location"""
        if dbg is None:
            return None
        d = self.mdnode(dbg)
        if not d:
            return None
        line = int(d.get('line', '0'))
        f = self._scope_file(d.get('scope'))
        return (f, line)

    def _scope_file(self, s, depth=0):
        d = self.mdnode(s) if s else None
        while d is not None and depth < 60:
            depth += 1
            if 'file' in d:
                fd = self.mdnode(d['file'])
                if fd:
                    n = fd.get('filename', '""').strip('"')
                    dr = fd.get('directory', '""').strip('"')
                    return n if n.startswith('/') else dr + '/' + n
            d = self.mdnode(d.get('scope')) if d.get('scope') else None
        return None


def split_top(s, sep=','):
    out = []
    depth = 0
    cur = []
    i = 0
    n = len(s)
    instr = False
    while i < n:
        c = s[i]
        if instr:
            cur.append(c)
            if c == '\\':
                pass
            elif c == '"':
                instr = False
        elif c == '"':
            instr = True
            cur.append(c)
        elif c in '([{<':
            depth += 1
            cur.append(c)
        elif c in ')]}>':
            depth -= 1
            cur.append(c)
        elif c == sep and depth == 0:
            out.append(''.join(cur).strip())
            cur = []
        else:
            cur.append(c)
        i += 1
    last = ''.join(cur).strip()
    if last:
        out.append(last)
    return out


def array_parts(ty):
    m = re.match(r'^[\[<](\d+) x (.*)[\]>]$', ty, re.S)
    if not m:
        raise IRError('array type ' + ty)
    return int(m.group(1)), m.group(2)


NAME = r'(?:[-a-zA-Z$._0-9]+|"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")'
RE_LOCAL = re.compile(r'%' + NAME)
RE_GLOBAL = re.compile(r'@' + NAME)


class Cur(object):
    """token cursor over one instruction's text"""
    __slots__ = ('s', 'i')

    def __init__(self, s):
        self.s = s
        self.i = 0

    def ws(self):
        s = self.s
        i = self.i
        n = len(s)
        while i < n and s[i] in ' \t\n':
            i += 1
        self.i = i

    def peek(self, t):
        self.ws()
        return self.s.startswith(t, self.i)

    def eat(self, t):
        self.ws()
        if self.s.startswith(t, self.i):
            self.i += len(t)
            return True
        return False

    def need(self, t):
        if not self.eat(t):
            raise IRError('expected %r at %r in %r' % (t, self.s[self.i:self.i + 40], self.s[:200]))

    RE_WORD = re.compile(r'[a-zA-Z_][a-zA-Z_0-9.]*')

    def word(self):
        self.ws()
        m = self.RE_WORD.match(self.s, self.i)
        if not m:
            return None
        self.i = m.end()
        return m.group(0)

    def peekword(self):
        self.ws()
        m = self.RE_WORD.match(self.s, self.i)
        return m.group(0) if m else None

    def end(self):
        self.ws()
        return self.i >= len(self.s)

    RE_NAME = re.compile(r'[%@]' + NAME)

    def name(self):
        self.ws()
        m = self.RE_NAME.match(self.s, self.i)
        if not m:
            raise IRError('name at %r in %r' % (self.s[self.i:self.i + 40], self.s[:200]))
        self.i = m.end()
        t = m.group(0)
        if t[1] == '"':
            t = t[0] + t[2:-1]
        return t

    def bracket(self):
        """consume a balanced bracket group, return the text including brackets"""
        self.ws()
        s = self.s
        st = self.i
        depth = 0
        i = st
        instr = False
        while i < len(s):
            c = s[i]
            if instr:
                if c == '"':
                    instr = False
            elif c == '"':
                instr = True
            elif c in '([{<':
                depth += 1
            elif c in ')]}>':
                depth -= 1
                if depth == 0:
                    self.i = i + 1
                    return s[st:i + 1]
            i += 1
        raise IRError('unbalanced in ' + s[:200])

    def type(self):
        self.ws()
        c = self.s[self.i]
        if c == '%':
            t = self.name()
        elif c in '[{<':
            t = re.sub(r'%"([^"]*)"', r'%\1', self.bracket())
        else:
            t = self.word()
            if t is None:
                raise IRError('type at %r in %r' % (self.s[self.i:self.i + 40], self.s[:200]))
            if t == 'ptr' and self.peek('addrspace('):
                self.word()
                self.bracket()
        # function type?  "void (i32, ...)"
        self.ws()
        if self.i < len(self.s) and self.s[self.i] == '(' and t != 'ptr' or \
                (self.i < len(self.s) and self.s[self.i] == '(' and False):
            save = self.i
            g = self.bracket()
            t = t + ' ' + g
        return t

    RE_NUM = re.compile(r'-?(?:0x[KHLM]?[0-9A-Fa-f]+|\d+(?:\.\d+)?(?:[eE][-+]?\d+)?)')

    PARAM_ATTRS = set('''noundef nonnull signext zeroext inreg noalias nocapture nofree readonly readnone
        writeonly returned nest swiftself swifterror immarg noalias allocalign allocptr dead_on_unwind writable'''.split())
    PARAM_ATTRS_ARG = set('''align dereferenceable dereferenceable_or_null sret byval byref inalloca elementtype
        preallocated nofpclass alignstack range initializes captures'''.split())

    def attrs(self):
        out = []
        while True:
            w = self.peekword()
            if w in self.PARAM_ATTRS:
                self.word()
                out.append(w)
            elif w in self.PARAM_ATTRS_ARG:
                self.word()
                self.ws()
                if self.i < len(self.s) and self.s[self.i] == '(':
                    out.append(w + self.bracket())
                else:
                    self.ws()
                    m = re.compile(r'\d+').match(self.s, self.i)
                    if m:
                        self.i = m.end()
                        out.append(w + ' ' + m.group(0))
            else:
                return out

    def value(self, ty):
        self.ws()
        s = self.s
        if ty == 'metadata':
            t = s[self.i:].strip()
            self.i = len(s)
            return Op('meta', t, ty)
        c = s[self.i]
        if c == '%':
            return Op('local', self.name(), ty)
        if c == '@':
            return Op('global', self.name()[1:], ty)
        if c == '!':
            # metadata operand
            if s.startswith('!', self.i):
                m = re.compile(r'![A-Za-z0-9_.]*').match(s, self.i)
                self.i = m.end()
                t = m.group(0)
                self.ws()
                if self.i < len(s) and s[self.i] in '({':
                    t += self.bracket()
                return Op('meta', t, ty)
        m = self.RE_NUM.match(s, self.i)
        if m:
            self.i = m.end()
            return Op('const', m.group(0), ty)
        if c == 'c' and s.startswith('c"', self.i):
            j = s.index('"', self.i + 2)
            t = s[self.i + 2:j]
            self.i = j + 1
            return Op('str', t, ty)
        if c in '[{<':
            return Op('agg', self.bracket(), ty)
        w = self.word()
        if w in ('true', 'false'):
            return Op('const', '1' if w == 'true' else '0', ty)
        if w in ('null', 'none'):
            return Op('null', None, ty)
        if w in ('undef', 'poison'):
            return Op('undef', w, ty)
        if w == 'zeroinitializer':
            return Op('agg', 'zeroinitializer', ty)
        if w in ('blockaddress', 'dso_local_equivalent', 'no_cfi'):
            return Op('cexpr', (w, self.bracket()), ty)
        if w in ('getelementptr', 'bitcast', 'ptrtoint', 'inttoptr', 'add', 'sub', 'trunc', 'zext', 'sext',
                 'icmp', 'select', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'addrspacecast'):
            while self.peekword() in ('inbounds', 'nuw', 'nsw', 'inrange', 'exact'):
                x = self.word()
                if x == 'inrange' and self.peek('('):
                    self.bracket()
            g = self.bracket()
            return Op('cexpr', (w, g), ty)
        if w == 'asm':
            return Op('asm', s[self.i:], ty)
        raise IRError('value %r at %r in %r' % (w, s[self.i:self.i + 40], s[:200]))

    def typed(self):
        t = self.type()
        self.attrs()
        return self.value(t)


def parse_cexpr_gep(mod, op):
    """constant getelementptr -> (global, offset) or None"""
    if op.kind == 'global':
        return (op.val, 0)
    if op.kind != 'cexpr' or op.val[0] != 'getelementptr':
        return None
    parts = split_top(op.val[1][1:-1])
    bty = parts[0]
    c = Cur(parts[1])
    base = c.typed()
    b = parse_cexpr_gep(mod, base)
    if b is None:
        return None
    off = b[1]
    cur = bty
    for k, p in enumerate(parts[2:]):
        p = p.replace('inrange ', '')
        cc = Cur(p)
        o = cc.typed()
        if o.kind != 'const':
            return None
        n = int(o.val)
        if k == 0:
            off += n * mod.sizeof(bty)
        else:
            d, cur = mod.elem(cur, n)
            off += d
    return (b[0], off)


BINOPS = set('add sub mul sdiv udiv srem urem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CASTS = set('trunc zext sext fptrunc fpext fptoui fptosi uitofp sitofp ptrtoint inttoptr bitcast addrspacecast'.split())
FLAGS = set('nuw nsw exact disjoint nneg fast nnan ninf nsz arcp contract afn reassoc inbounds volatile samesign'.split())
CALLPFX = set('tail musttail notail'.split())
CCS = set('ccc fastcc coldcc'.split())

RE_DBG = re.compile(r'!dbg (![0-9]+)')
RE_FN_ATTRREF = re.compile(r'#\d+')


def strip_md(text):
    """remove trailing ', !tag !N' attachments, returning (text, dbg)"""
    dbg = None
    m = RE_DBG.search(text)
    if m:
        dbg = m.group(1)
    # trailing metadata attachments
    while True:
        m = re.search(r'(,)?\s*![a-zA-Z_.][-a-zA-Z_.0-9]* (?:!\d+|!DILocation\([^)]*\)|!\{[^}]*\})\s*$', text)
        if not m:
            break
        text = text[:m.start()].rstrip()
    return text, dbg


def parse_instr(text):
    I = Instr()
    I.raw = text
    text, I.dbg = strip_md(text)
    c = Cur(text)
    c.ws()
    if text[c.i] == '%':
        I.res = c.name()
        c.need('=')
    w = c.word()
    while w in CALLPFX:
        w = c.word()
    I.op = w
    if w in BINOPS:
        while c.peekword() in FLAGS:
            c.word()
        t = c.type()
        a = c.value(t)
        c.need(',')
        b = c.value(t)
        I.ty = t
        I.ops = [a, b]
    elif w == 'fneg' or w == 'freeze':
        while c.peekword() in FLAGS:
            c.word()
        a = c.typed()
        I.ty = a.ty
        I.ops = [a]
    elif w in ('icmp', 'fcmp'):
        while c.peekword() in FLAGS:
            c.word()
        I.x['pred'] = c.word()
        t = c.type()
        a = c.value(t)
        c.need(',')
        b = c.value(t)
        I.ty = 'i1'
        I.ops = [a, b]
    elif w in CASTS:
        while c.peekword() in FLAGS:
            c.word()
        a = c.typed()
        c.need('to')
        I.ty = c.type()
        I.ops = [a]
    elif w == 'load':
        if c.peekword() == 'atomic':
            c.word()
            I.x['atomic'] = 1
        if c.peekword() == 'volatile':
            c.word()
            I.x['volatile'] = 1
        I.ty = c.type()
        c.need(',')
        I.ops = [c.typed()]
    elif w == 'store':
        if c.peekword() == 'atomic':
            c.word()
            I.x['atomic'] = 1
        if c.peekword() == 'volatile':
            c.word()
            I.x['volatile'] = 1
        v = c.typed()
        c.need(',')
        p = c.typed()
        I.ty = 'void'
        I.ops = [v, p]
    elif w == 'getelementptr':
        while c.peekword() in FLAGS or c.peekword() == 'inrange':
            c.word()
        I.x['ety'] = c.type()
        I.ty = 'ptr'
        ops = []
        while c.eat(','):
            ops.append(c.typed())
        I.ops = ops
    elif w == 'alloca':
        if c.peekword() == 'inalloca':
            c.word()
        I.x['aty'] = c.type()
        I.ty = 'ptr'
        while c.eat(','):
            if c.peekword() == 'align':
                c.word()
                c.value('i32')
            else:
                I.ops.append(c.typed())
    elif w == 'phi':
        while c.peekword() in FLAGS:
            c.word()
        I.ty = c.type()
        inc = []
        while True:
            c.need('[')
            v = c.value(I.ty)
            c.need(',')
            b = c.name()[1:]
            c.need(']')
            inc.append((v, b))
            if not c.eat(','):
                break
        I.x['inc'] = inc
        I.ops = [v for v, b in inc]
    elif w == 'select':
        while c.peekword() in FLAGS:
            c.word()
        a = c.typed()
        c.need(',')
        b = c.typed()
        c.need(',')
        d = c.typed()
        I.ty = b.ty
        I.ops = [a, b, d]
    elif w == 'br':
        I.ty = 'void'
        if c.peekword() == 'label':
            c.word()
            I.x['succ'] = [c.name()[1:]]
        else:
            a = c.typed()
            c.need(',')
            c.need('label')
            t = c.name()[1:]
            c.need(',')
            c.need('label')
            f = c.name()[1:]
            I.ops = [a]
            I.x['succ'] = [t, f]
    elif w == 'switch':
        I.ty = 'void'
        a = c.typed()
        c.need(',')
        c.need('label')
        d = c.name()[1:]
        I.ops = [a]
        c.need('[')
        cases = []
        while not c.peek(']'):
            v = c.typed()
            c.need(',')
            c.need('label')
            cases.append((int(v.val), c.name()[1:]))
        I.x['cases'] = cases
        I.x['default'] = d
        I.x['succ'] = [d] + [b for _, b in cases]
    elif w == 'ret':
        I.ty = 'void'
        if c.peekword() == 'void':
            pass
        else:
            I.ops = [c.typed()]
        I.x['succ'] = []
    elif w == 'unreachable':
        I.ty = 'void'
        I.x['succ'] = []
    elif w == 'resume':
        I.ty = 'void'
        I.ops = [c.typed()]
        I.x['succ'] = []
    elif w in ('call', 'invoke'):
        while True:
            pw = c.peekword()
            if pw in FLAGS or pw in CCS:
                c.word()
            elif pw == 'cc':
                c.word()
            else:
                break
        c.attrs()
        I.ty = c.type()
        # "type" may have swallowed "(args)" when callee type is a bare
        # function type; that only happens for varargs: "i32 (ptr, ...)"
        m = re.match(r'^(\S.*?) \((.*)\)$', I.ty, re.S)
        if m and not I.ty.startswith(('%', '{', '[', '<')):
            I.x['fty'] = I.ty
            I.ty = m.group(1)
        c.ws()
        if c.peekword() == 'asm':
            I.x['asm'] = True
            callee = Op('asm', None)
            # skip to the argument list: find '"' '"' then '('
            m = re.compile(r'asm[^"]*"(?:[^"])*"\s*,\s*"(?:[^"])*"').match(c.s, c.i)
            c.i = m.end()
        else:
            callee = c.value('ptr')
        c.ws()
        args = []
        g = c.bracket()
        for p in split_top(g[1:-1]):
            if p == '...':
                continue
            cc = Cur(p)
            t = cc.type()
            at = cc.attrs()
            v = cc.value(t)
            if at:
                v = Op(v.kind, v.val, v.ty)
            args.append(v)
            I.x.setdefault('pattrs', []).append(at)
        I.x['callee'] = callee
        I.ops = args
        rest = c.s[c.i:]
        if w == 'invoke':
            m = re.search(r'to label %(' + NAME + r')\s+unwind label %(' + NAME + ')', rest)
            if not m:
                raise IRError('invoke: ' + text[:200])
            I.x['succ'] = [unq(m.group(1)), unq(m.group(2))]
        I.x['rest'] = rest
    elif w == 'landingpad':
        I.ty = c.type()
        I.x['rest'] = c.s[c.i:]
    elif w == 'extractvalue':
        a = c.typed()
        idx = []
        while c.eat(','):
            idx.append(int(c.value('i32').val))
        I.ops = [a]
        I.x['idx'] = idx
        I.ty = None
    elif w == 'insertvalue':
        a = c.typed()
        c.need(',')
        b = c.typed()
        idx = []
        while c.eat(','):
            idx.append(int(c.value('i32').val))
        I.ops = [a, b]
        I.x['idx'] = idx
        I.ty = a.ty
    elif w in ('extractelement', 'insertelement', 'shufflevector'):
        ops = [c.typed()]
        while c.eat(','):
            ops.append(c.typed())
        I.ops = ops
        I.ty = ops[0].ty
    elif w in ('fence', 'atomicrmw', 'cmpxchg', 'va_arg', 'catchpad', 'cleanupret', 'indirectbr'):
        I.ty = 'void'
        I.x['opaque'] = text
        if w == 'atomicrmw':
            I.ty = 'i32'
    else:
        raise IRError('instr %r: %s' % (w, text[:200]))
    return I


def unq(n):
    if n.startswith('"'):
        return n[1:-1]
    return n


RE_DEFINE = re.compile(r'^define (.*?)@(' + NAME + r')\(', re.S)
RE_LABEL = re.compile(r'^(' + NAME + r'):')


def parse_module(text, want=None):
    """want: predicate on the (mangled) function name deciding which function
    bodies are parsed; others are kept as raw text and parsed on demand"""
    mod = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        if not ln or ln[0] in '; ':
            i += 1
            continue
        c0 = ln[0]
        if c0 == '%':
            m = re.match(r'^(%' + NAME + r') = type (.*)$', ln)
            if m:
                nm = m.group(1)
                if nm[1] == '"':
                    nm = '%' + nm[2:-1]
                body = re.sub(r'%"([^"]*)"', r'%\1', m.group(2).strip())
                if body == 'opaque':
                    mod.types[nm] = None
                elif body.startswith('<{'):
                    mod.types[nm] = (split_top(body[2:-2]), True)
                elif body.startswith('{'):
                    mod.types[nm] = (split_top(body[1:-1]), False)
                else:
                    mod.types[nm] = ([body], False)
            i += 1
        elif c0 == '@':
            m = re.match(r'^@(' + NAME + r') = (.*)$', ln)
            nm = unq(m.group(1))
            al = re.search(r'\balias\b.*, ptr @(' + NAME + r')', m.group(2))
            if al:
                mod.aliases[nm] = unq(al.group(1))
            else:
                mod.globals[nm] = m.group(2)
            i += 1
        elif c0 == '!':
            j = ln.find(' = ')
            if j > 0:
                mod.md[ln[:j]] = ln[j + 3:]
            i += 1
        elif ln.startswith('define '):
            j = i
            while lines[j] != '}':
                j += 1
            m = RE_DEFINE.match(ln)
            nm = unq(m.group(2))
            F = Function(nm)
            F.mod = mod
            F.text = lines[i:j + 1]
            F.linkage = m.group(1)
            mod.functions[nm] = F
            i = j + 1
        elif ln.startswith('declare '):
            m = re.match(r'^declare (.*?)@(' + NAME + r')\(', ln)
            if m:
                mod.declared[unq(m.group(2))] = ln
            i += 1
        else:
            i += 1
    return mod


def body(F):
    """parse the body of F on first use"""
    if F.blocks:
        return F
    lines = F.text
    hdr = lines[0]
    m = RE_DEFINE.match(hdr)
    c = Cur(hdr)
    c.i = m.end() - 1
    g = c.bracket()
    tail = hdr[c.i:]
    md = RE_DBG.search(tail)
    F.dbg = md.group(1) if md else None
    F.attrs = tail
    # return type
    pre = m.group(1)
    rc = Cur(pre)
    while True:
        w = rc.peekword()
        if w in ('linkonce_odr', 'internal', 'private', 'weak_odr', 'weak', 'dso_local', 'hidden', 'protected',
                 'local_unnamed_addr', 'unnamed_addr', 'available_externally', 'external', 'fastcc', 'ccc',
                 'default', 'coldcc', 'linkonce', 'common', 'appending', 'extern_weak', 'dllexport'):
            rc.word()
        else:
            break
    rc.attrs()
    F.ret = rc.type()
    k = 0
    for p in split_top(g[1:-1]):
        if p == '...':
            continue
        cc = Cur(p)
        t = cc.type()
        at = cc.attrs()
        cc.ws()
        if cc.end():
            nm = '%' + str(k)
        else:
            nm = cc.name()
        k += 1
        F.params.append((t, nm, at))
    blk = None
    nunnamed = len([1 for p in F.params if re.match(r'^%\d+$', p[1])])
    i = 1
    L = len(lines) - 1
    while i < L:
        ln = lines[i]
        if not ln.strip() or ln.lstrip().startswith(';'):
            i += 1
            continue
        if ln[0] != ' ':
            mm = RE_LABEL.match(ln)
            if not mm:
                raise IRError('label? ' + ln)
            blk = Block(unq(mm.group(1)))
            blk.fn = F
            blk.i = len(F.blocks)
            F.blocks.append(blk)
            F.bmap[blk.name] = blk
            i += 1
            continue
        if blk is None:
            blk = Block(str(nunnamed))
            blk.fn = F
            F.blocks.append(blk)
            F.bmap[blk.name] = blk
        t = ln.strip()
        # continuation lines: switch tables, landingpad clauses, invoke
        if t.startswith('switch ') and t.endswith('['):
            while not lines[i].strip().startswith(']'):
                i += 1
                t += ' ' + lines[i].strip()
        else:
            while i + 1 < L and lines[i + 1].startswith('          '):
                i += 1
                t += ' ' + lines[i].strip()
        t = re.sub(r'\s+;[^"]*$', '', t) if ' ; preds' in t else t
        I = parse_instr(t)
        I.blk = blk
        I.idx = len(blk.ins)
        blk.ins.append(I)
        i += 1
    for b in F.blocks:
        s = b.term.x.get('succ')
        if s is None:
            raise IRError('no terminator in %s %s' % (F.name, b.name))
        for x in s:
            t = F.bmap[x]
            if t not in b.succ:
                b.succ.append(t)
            if b not in t.pred:
                t.pred.append(b)
    return F


def rpo(F):
    seen = set()
    out = []
    st = [(F.blocks[0], iter(F.blocks[0].succ))]
    seen.add(F.blocks[0])
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(s.succ)))
                break
        else:
            out.append(b)
            st.pop()
    out.reverse()
    return out


def dominators(F):
    """immediate dominators {block: idom}"""
    if F._dom is not None:
        return F._dom
    order = rpo(F)
    pos = {b: i for i, b in enumerate(order)}
    idom = {order[0]: order[0]}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in b.pred:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x is not y:
                            while pos[x] > pos[y]:
                                x = idom[x]
                            while pos[y] > pos[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) is not new:
                idom[b] = new
                ch = True
    F._dom = idom
    return idom


def dominates(F, a, b):
    idom = dominators(F)
    if b not in idom:
        return True
    while True:
        if a is b:
            return True
        n = idom[b]
        if n is b:
            return False
        b = n
