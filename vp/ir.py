"""Parser for textual LLVM IR (LLVM 18), struct layout, vtables and debug-info member tables."""
import re, struct, subprocess
from fractions import Fraction

TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"\\]|\\.)*")|
  (?P<loc>%"(?:[^"\\]|\\.)*"|%[-\w.$]+)|
  (?P<glo>@"(?:[^"\\]|\\.)*"|@[-\w.$]+)|
  (?P<md>!"(?:[^"\\]|\\.)*"|![-\w.$]+|!)|
  (?P<num>0x[KLMHR]?[0-9A-Fa-f]+|-?\d+\.\d*(?:[eE][-+]?\d+)?|-?\d+(?![\w.]))|
  (?P<id>[A-Za-z_$][\w.$]*)|
  (?P<att>\#\d+)|
  (?P<p>\.\.\.|[()\[\]{}<>,=*|:])
)''', re.X)

def tokenize(s):
    out = []; pos = 0; n = len(s)
    m = TOK.match
    while pos < n:
        r = m(s, pos)
        if not r:
            if s[pos:].strip() == '': break
            raise SyntaxError('token: ' + s[pos:pos + 60])
        out.append((r.lastgroup, r.group(r.lastgroup))); pos = r.end()
    return out

# types: ('i',n) ('f','double') ('ptr',) ('void',) ('arr',n,t) ('st',[..],packed) ('named',name) ('vec',n,t) ('fn',..) ('md',) ('label',)
PTR = ('ptr',); VOID = ('void',); DBL = ('f', 'double')
ATTRS = set('''noundef nonnull zeroext signext noalias nocapture readonly readnone writeonly returned inreg immarg
 nofree nest swiftself swifterror noext range nofpclass dead_on_unwind writable allocptr allocalign
 fast nnan ninf nsz arcp contract afn reassoc nuw nsw exact inbounds volatile inrange disjoint nneg tail musttail notail
 local_unnamed_addr unnamed_addr dso_local dso_preemptable internal external linkonce_odr linkonce weak weak_odr available_externally private
 hidden protected default constant global thread_local fastcc ccc coldcc mustprogress comdat prefix prologue personality'''.split())
PARATTR = set('dereferenceable dereferenceable_or_null sret byval byref inalloca preallocated elementtype align memory captures range nofpclass initializes'.split())

class P:
    def __init__(self, toks): self.t = toks; self.i = 0
    def peek(self, k=0): return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)
    def next(self): x = self.t[self.i]; self.i += 1; return x
    def acc(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v: self.i += 1; return True
        return False
    def exp(self, v):
        k, x = self.next()
        if x != v: raise SyntaxError('expected %s got %s in %s' % (v, x, ' '.join(t[1] for t in self.t)[:300]))
    def skip_attrs(self):
        r = []
        while True:
            k, v = self.peek()
            if k == 'id' and v in PARATTR:
                self.next()
                if self.peek()[1] == '(':
                    d = 0; a = []
                    while True:
                        kk, x = self.next()
                        a.append(x)
                        if x == '(': d += 1
                        elif x == ')':
                            d -= 1
                            if d == 0: break
                    r.append((v, a))
                elif v == 'align': self.next()
                else: r.append(v)
            elif k == 'id' and v in ATTRS: self.next(); r.append(v)
            elif k == 'att': self.next()
            else: return r
    def type(self):
        k, v = self.next()
        if k == 'id':
            if v == 'ptr': t = PTR
            elif v == 'void': t = VOID
            elif re.fullmatch(r'i\d+', v): t = ('i', int(v[1:]))
            elif v in ('double', 'float', 'x86_fp80', 'half', 'fp128'): t = ('f', v)
            elif v == 'metadata': t = ('md',)
            elif v == 'label': t = ('label',)
            elif v == 'token': t = ('token',)
            elif v == 'opaque': t = ('opaque',)
            else: raise SyntaxError('type ' + v + ' in ' + ' '.join(x[1] for x in self.t)[:200])
        elif k == 'loc': t = ('named', v)
        elif v == '[':
            n = int(self.next()[1]); self.exp('x'); e = self.type(); self.exp(']'); t = ('arr', n, e)
        elif v == '{': t = ('st', self._tl('}'), False)
        elif v == '<':
            if self.peek()[1] == '{':
                self.next(); l = self._tl('}'); self.exp('>'); t = ('st', l, True)
            else:
                n = int(self.next()[1]); self.exp('x'); e = self.type(); self.exp('>'); t = ('vec', n, e)
        else: raise SyntaxError('type %r in %s' % (v, ' '.join(x[1] for x in self.t)[:300]))
        while True:
            if self.peek()[1] == '(' and k != 'never':
                # function type
                self.next(); a = []
                while not self.acc(')'):
                    if self.acc('...'): a.append('...')
                    else: a.append(self.type()); self.skip_attrs()
                    self.acc(',')
                t = ('fn', t, tuple(a))
            elif self.peek()[1] == '*': self.next(); t = PTR
            elif self.peek() == ('id', 'addrspace'):
                self.next(); self.exp('('); self.next(); self.exp(')')
            else: return t
    def _tl(self, end):
        l = []
        while not self.acc(end):
            l.append(self.type()); self.acc(',')
        return tuple(l)
    def value(self, ty):
        """-> tuple value"""
        k, v = self.next()
        if k == 'loc': return ('loc', v)
        if k == 'glo': return ('glo', unq(v))
        if k == 'num':
            if ty[0] == 'f': return ('fp', fpconst(v, ty))
            return ('int', int(v))
        if k == 'str': return ('cstr', v)
        if k == 'md':
            # metadata operand: skip
            if self.peek()[1] == '(':
                self._bal()
            elif self.peek()[1] == '{': self._balc()
            return ('md', v)
        if k == 'id':
            if v == 'null': return ('null',)
            if v in ('undef', 'poison'): return ('undef',)
            if v == 'true': return ('int', 1)
            if v == 'false': return ('int', 0)
            if v == 'zeroinitializer': return ('zero',)
            if v == 'none': return ('undef',)
            if v == 'getelementptr':
                self.skip_attrs()
                self._opt_inrange()
                self.exp('('); st = self.type(); self.exp(',')
                ops = []
                while True:
                    while self.acc('inrange'):
                        if self.peek()[1] == '(': self._bal()
                    t = self.type(); ops.append((t, self.value(t)))
                    if not self.acc(','): break
                self.exp(')')
                return ('cgep', st, ops)
            if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'addrspacecast'):
                self.exp('('); t = self.type(); x = self.value(t); self.exp('to'); t2 = self.type(); self.exp(')')
                return ('ccast', v, t, x, t2)
            if v in ('sub', 'add', 'mul', 'icmp'):
                self.skip_attrs()
                if v == 'icmp': self.next()
                self.exp('('); t = self.type(); a = self.value(t); self.exp(','); t2 = self.type(); b = self.value(t2); self.exp(')')
                return ('cbin', v, t, a, b)
            if v == 'blockaddress': self._bal(); return ('undef',)
            if v == 'asm':
                while self.peek()[0] != 'str': self.next()
                s1 = self.next(); self.acc(','); s2 = self.next()
                return ('asm', s1[1], s2[1])
            if ty[0] == 'md':
                # e.g. metadata ptr %x  / metadata double 0.0
                self.i -= 1; t = self.type(); return ('mdv', t, self.value(t))
            raise SyntaxError('value ' + v + ' in ' + ' '.join(x[1] for x in self.t)[:300])
        if v in ('[', '{'):
            end = {'[': ']', '{': '}'}[v]; l = []
            while not self.acc(end):
                t = self.type(); l.append((t, self.value(t))); self.acc(',')
            return ('agg', l)
        if v == '<':
            if self.peek()[1] == '{':
                self.next(); l = []
                while not self.acc('}'):
                    t = self.type(); l.append((t, self.value(t))); self.acc(',')
                self.exp('>'); return ('agg', l)
            l = []
            while not self.acc('>'):
                t = self.type(); l.append((t, self.value(t))); self.acc(',')
            return ('vec', l)
        raise SyntaxError('value %r in %s' % (v, ' '.join(x[1] for x in self.t)[:300]))
    def _opt_inrange(self):
        if self.peek() == ('id', 'inrange'):
            self.next()
            if self.peek()[1] == '(': self._bal()
    def _bal(self):
        d = 0
        while True:
            k, x = self.next()
            if x == '(': d += 1
            elif x == ')':
                d -= 1
                if d == 0: return
    def _balc(self):
        d = 0
        while True:
            k, x = self.next()
            if x == '{': d += 1
            elif x == '}':
                d -= 1
                if d == 0: return
    def tv(self):
        t = self.type(); self.skip_attrs()
        if t[0] == 'md':
            k, v = self.peek()
            if k == 'md':
                self.next()
                if self.peek()[1] == '(': self._bal()
                elif self.peek()[1] == '{': self._balc()
                return (t, ('md', v))
            return (t, self.value(t))
        return (t, self.value(t))

def unq(v):
    v = v[1:]
    return v[1:-1] if v.startswith('"') else v
def fpconst(v, ty):
    if v.startswith('0x'):
        if v[2] in 'KLMHR':
            if v[2] == 'K':
                h = int(v[3:], 16); exp = (h >> 64) & 0x7fff; man = h & ((1 << 64) - 1); sg = -1 if h >> 79 else 1
                if exp == 0x7fff: return ('inf', sg)
                return sg * Fraction(man) * Fraction(2) ** (exp - 16383 - 63)
            raise SyntaxError(v)
        d = struct.unpack('>d', bytes.fromhex(v[2:].rjust(16, '0')))[0]
        if d != d: return ('nan',)
        if d in (float('inf'), float('-inf')): return ('inf', 1 if d > 0 else -1)
        return Fraction(d)
    return Fraction(float(v))

class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'dbg', 'text')
    def __repr__(s): return s.text
class Block:
    __slots__ = ('name', 'ins', 'succ', 'pred')
class Func:
    def __init__(s): s.blocks = {}; s.order = []

TERM = ('ret', 'br', 'switch', 'invoke', 'unreachable', 'resume', 'indirectbr')
BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CAST = set('trunc zext sext fptrunc fpext fptoui fptosi uitofp sitofp ptrtoint inttoptr bitcast addrspacecast'.split())

def parse_instr(line):
    I = Instr(); I.text = line; I.res = None; I.x = None; I.ty = None; I.a = ()
    m = re.search(r', !dbg !(\d+)', line)
    I.dbg = int(m.group(1)) if m else None
    line = re.sub(r'(, ![\w.]+ ![\w]+)+\s*$', '', line)
    p = P(tokenize(line))
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        I.res = p.next()[1]; p.next()
    k, op = p.next()
    if op in ('tail', 'musttail', 'notail'): k, op = p.next()
    I.op = op
    if op in BIN:
        p.skip_attrs(); t = p.type(); a = p.value(t); p.exp(','); b = p.value(t); I.ty = t; I.a = ((t, a), (t, b))
    elif op in CAST:
        p.skip_attrs(); t = p.type(); a = p.value(t); p.exp('to'); t2 = p.type(); I.ty = t2; I.a = ((t, a),)
    elif op in ('icmp', 'fcmp'):
        p.skip_attrs(); I.x = p.next()[1]; t = p.type(); a = p.value(t); p.exp(','); b = p.value(t); I.ty = ('i', 1); I.a = ((t, a), (t, b))
    elif op == 'alloca':
        p.acc('inalloca'); t = p.type(); I.x = t; I.ty = PTR; I.a = ()
        if p.acc(','):
            if p.peek()[1] != 'align': I.a = (p.tv(),)
    elif op == 'load':
        p.acc('atomic'); p.acc('volatile'); t = p.type(); p.exp(','); I.ty = t; I.a = (p.tv(),)
    elif op == 'store':
        p.acc('atomic'); p.acc('volatile'); v = p.tv(); p.exp(','); I.a = (v, p.tv())
    elif op == 'getelementptr':
        p.skip_attrs(); I.x = p.type(); ops = []
        while p.acc(','): ops.append(p.tv())
        I.a = tuple(ops); I.ty = PTR
    elif op in ('call', 'invoke'):
        p.skip_attrs()
        t = p.type()
        fnty = None
        if t[0] == 'fn': fnty = t; t = t[1]
        I.ty = t
        callee = p.value(PTR)
        p.exp('('); args = []; at = []
        while not p.acc(')'):
            ty = p.type(); aa = p.skip_attrs()
            if ty[0] == 'md':
                k, v = p.peek()
                if k == 'md':
                    p.next()
                    if p.peek()[1] == '(': p._bal()
                    elif p.peek()[1] == '{': p._balc()
                    args.append((ty, ('md', v)))
                else: args.append((ty, p.value(ty)))
            else: args.append((ty, p.value(ty)))
            at.append(aa); p.acc(',')
        I.a = tuple(args); I.x = dict(callee=callee, attrs=at)
        if op == 'invoke':
            while p.peek()[1] != 'to': p.next()
            p.exp('to'); p.exp('label'); I.x['normal'] = p.next()[1]
            p.exp('unwind'); p.exp('label'); I.x['unwind'] = p.next()[1]
    elif op == 'br':
        if p.acc('label'): I.x = [p.next()[1]]; I.a = ()
        else:
            t = p.type(); c = p.value(t); p.exp(','); p.exp('label'); a = p.next()[1]; p.exp(','); p.exp('label'); b = p.next()[1]
            I.a = ((t, c),); I.x = [a, b]
    elif op == 'switch':
        t = p.type(); c = p.value(t); p.exp(','); p.exp('label'); d = p.next()[1]; p.exp('['); cs = []
        while not p.acc(']'):
            ty = p.type(); v = p.value(ty); p.exp(','); p.exp('label'); cs.append((v[1], p.next()[1]))
        I.a = ((t, c),); I.x = (d, cs)
    elif op == 'ret':
        t = p.type()
        I.a = () if t == VOID else ((t, p.value(t)),)
    elif op == 'phi':
        p.skip_attrs(); t = p.type(); l = []
        while True:
            p.exp('['); v = p.value(t); p.exp(','); b = p.next()[1]; p.exp(']'); l.append((v, b))
            if not p.acc(','): break
        I.ty = t; I.x = l
    elif op == 'select':
        p.skip_attrs(); c = p.tv(); p.exp(','); a = p.tv(); p.exp(','); b = p.tv(); I.a = (c, a, b); I.ty = a[0]
    elif op in ('extractvalue',):
        a = p.tv(); ix = []
        while p.acc(','): ix.append(int(p.next()[1]))
        I.a = (a,); I.x = ix
    elif op == 'insertvalue':
        a = p.tv(); p.exp(','); b = p.tv(); ix = []
        while p.acc(','): ix.append(int(p.next()[1]))
        I.a = (a, b); I.x = ix; I.ty = a[0]
    elif op == 'freeze': I.a = (p.tv(),); I.ty = I.a[0][0]
    elif op == 'fneg': p.skip_attrs(); I.a = (p.tv(),); I.ty = I.a[0][0]
    elif op in ('unreachable', 'resume', 'landingpad', 'fence', 'cleanuppad', 'catchpad'): pass
    elif op in ('extractelement', 'insertelement', 'shufflevector'): I.x = 'unsupported'
    elif op in ('atomicrmw', 'cmpxchg', 'va_arg'): I.x = 'unsupported'
    else: raise SyntaxError('op ' + op)
    return I

class Module:
    def __init__(self, path):
        self.path = path
        txt = open(path).read()
        # private/internal data is per translation unit: qualify its name
        priv = set(re.findall(r'^@("[^"\n]+"|[-\w.$]+) = (?:private|internal)\b', txt, re.M))
        if priv:
            Module._n = getattr(Module, '_n', 0) + 1; k = '.tu%d' % Module._n
            txt = re.sub(r'@("[^"\n]+"|[-\w.$]+)', lambda m: '@' + (m.group(1) + k if m.group(1)[0] != '"' else m.group(1)[:-1] + k + '"') if m.group(1) in priv else m.group(0), txt)
        self.ftxt = {}; self.decl = set(); self.gtxt = {}; self.ttxt = {}; self.mtxt = {}
        self._f = {}; self._t = {}; self._g = {}
        cur = None; al = []
        for line in txt.split('\n'):
            if cur is not None:
                if line == '}': self.ftxt[cur[0]] = cur[1]; cur = None
                else: cur[1].append(line)
                continue
            if line.startswith('define '):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', line)
                cur = (unq('@' + m.group(1)), [line])
            elif line.startswith('@'):
                i = line.index(' = ')
                if re.search(r'\balias\b', line[i:i + 80]):
                    m = re.search(r'ptr @("(?:[^"\\]|\\.)*"|[-\w.$]+)$', line.rstrip()); al.append((unq(line[:i]), unq('@' + m.group(1)))) if m else None
                self.gtxt[unq(line[:i])] = line[i + 3:]
            elif line.startswith('%'):
                i = line.index(' = type '); self.ttxt[line[:i]] = line[i + 8:]
            elif line.startswith('!'):
                i = line.find(' = ')
                if i > 0: self.mtxt[line[1:i]] = line[i + 3:]
            elif line.startswith('declare '):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', line); self.decl.add(unq('@' + m.group(1)))
        for a, b in al:
            if b in self.ftxt: self.ftxt[a] = self.ftxt[b]; self.gtxt.pop(a, None)
        self._cls = None
    def typ(self, name):
        t = self._t.get(name)
        if t is None:
            s = self.ttxt.get(name)
            if s is None or s == 'opaque': t = ('opaque',)
            else: t = P(tokenize(s)).type()
            self._t[name] = t
        return t
    def res(self, t):
        while t[0] == 'named': t = self.typ(t[1])
        return t
    def size_align(self, t):
        k = t[0]
        if k == 'i':
            b = max(1, (t[1] + 7) // 8)
            a = 1
            while a < b: a *= 2
            return a if t[1] != 128 else 16, min(a, 16)
        if k == 'f': return {'double': (8, 8), 'float': (4, 4), 'x86_fp80': (16, 16), 'half': (2, 2), 'fp128': (16, 16)}[t[1]]
        if k == 'ptr': return 8, 8
        if k == 'arr':
            s, a = self.size_align(t[2]); return s * t[1], a
        if k == 'vec':
            s, a = self.size_align(t[2]); return s * t[1], s * t[1]
        if k == 'named': return self.size_align(self.typ(t[1]))
        if k == 'st':
            o = 0; al = 1
            for e in t[1]:
                s, a = self.size_align(e)
                if t[2]: a = 1
                o = (o + a - 1) // a * a + s; al = max(al, a)
            return (o + al - 1) // al * al, al
        if k == 'opaque': return 0, 1
        raise ValueError(t)
    def size(self, t): return self.size_align(t)[0]
    def offsets(self, t):
        t = self.res(t); o = 0; r = []
        for e in t[1]:
            s, a = self.size_align(e)
            if t[2]: a = 1
            o = (o + a - 1) // a * a; r.append(o); o += s
        return r
    def func(self, name):
        f = self._f.get(name)
        if f is not None: return f
        lines = self.ftxt.get(name)
        if lines is None: return None
        f = Func(); f.name = name; f.mod = self
        h = lines[0]
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', h)
        md = re.search(r'!dbg !(\d+)', h); f.dbg = int(md.group(1)) if md else None
        pre = h[len('define '):m.start()]
        p = P(tokenize(pre)); 
        while True:
            n0 = p.i; p.skip_attrs()
            if p.i == n0: break
        f.ret = p.type()
        # params
        i = m.end() - 1; d = 0
        for j in range(i, len(h)):
            if h[j] == '(': d += 1
            elif h[j] == ')':
                d -= 1
                if d == 0: break
        p = P(tokenize(h[i + 1:j])); f.params = []; f.pattrs = []
        while p.i < len(p.t):
            if p.acc('...'): break
            t = p.type(); at = p.skip_attrs(); nm = p.next()[1]; f.params.append((t, nm)); f.pattrs.append(at); p.acc(',')
        label = '%' + str(len(f.params)); cur = Block(); cur.name = label; cur.ins = []
        f.blocks[label] = cur; f.order.append(label); f.entry = label
        k = 1; n = len(lines)
        first = True
        while k < n:
            line = lines[k]; k += 1
            if not line or line.startswith(';'): continue
            if not line.startswith(' '):
                m = re.match(r'("(?:[^"\\]|\\.)*"|[-\w.$]+):', line)
                if m:
                    label = '%' + m.group(1)
                    if first:  # entry has explicit label
                        del f.blocks[f.entry]; f.order = []; f.entry = label
                    cur = Block(); cur.name = label; cur.ins = []; f.blocks[label] = cur; f.order.append(label); first = False
                    continue
            first = False
            s = line.strip()
            if 'call void @llvm.dbg.' in s:
                continue
            if s.startswith('switch') and s.endswith('['):
                while not lines[k].strip().startswith(']'): s += ' ' + lines[k].strip(); k += 1
                s += ' ' + lines[k].strip(); k += 1
            while (' invoke ' in s or s.startswith('invoke')) and ' unwind label ' not in s:
                s += ' ' + lines[k].strip(); k += 1
            if 'landingpad' in s:
                while k < n and re.match(r'\s+(catch|filter|cleanup)', lines[k]): k += 1
            cur.ins.append(parse_instr(s))
        for b in f.blocks.values():
            t = b.ins[-1]
            if t.op == 'br': b.succ = list(dict.fromkeys(t.x))
            elif t.op == 'switch': b.succ = list(dict.fromkeys([t.x[0]] + [c[1] for c in t.x[1]]))
            elif t.op == 'invoke': b.succ = [t.x['normal']]
            else: b.succ = []
        # drop blocks unreachable without exceptions
        reach = set(); st = [f.entry]
        while st:
            x = st.pop()
            if x in reach: continue
            reach.add(x); st.extend(f.blocks[x].succ)
        f.order = [x for x in f.order if x in reach]
        f.blocks = {x: f.blocks[x] for x in f.order}
        for b in f.blocks.values(): b.pred = []
        for b in f.blocks.values():
            for s_ in b.succ: f.blocks[s_].pred.append(b.name)
        self._f[name] = f
        return f
    def glob(self, name):
        g = self._g.get(name)
        if g is not None: return g
        s = self.gtxt.get(name)
        if s is None: return None
        s = re.sub(r'(, (?:comdat|align \d+|section "[^"]*"|!\w+ !\d+|partition "[^"]*"))+(\([^)]*\))?\s*(?=$)', '', s)
        s = re.sub(r'(, !dbg !\d+)+', '', s); s = re.sub(r', align \d+$', '', s); s = re.sub(r', comdat(\([^)]*\))?(, align \d+)?$', '', s)
        p = P(tokenize(s)); ext = False; constant = False
        while True:
            k, v = p.peek()
            if v in ('external', 'extern_weak'): ext = True; p.next()
            elif v in ('constant',): constant = True; p.next(); break
            elif v == 'global': p.next(); break
            elif v == 'thread_local':
                p.next()
                if p.peek()[1] == '(': p._bal()
            elif v in ATTRS or k == 'att': p.next()
            elif v == 'alias': return None
            else: raise SyntaxError('global ' + s[:100])
        t = p.type(); val = None
        if not ext and p.i < len(p.t): val = p.value(t)
        g = (t, val, constant)
        self._g[name] = g
        return g
    def vtable(self, name):
        """list of slots (function names or None) after the address point"""
        g = self.glob(name)
        if g is None or g[1] is None: return None
        arr = g[1][1][0][1][1]
        out = []
        for t, v in arr[2:]:
            out.append(v[1] if v[0] == 'glo' else None)
        return out
    # ------------------------------------------------------ debug info
    def _attr(self, s, k):
        m = re.search(r'\b' + k + r': ("(?:[^"\\]|\\.)*"|![0-9]+|[-\w.| ]+)', s)
        if not m: return None
        v = m.group(1)
        return v[1:-1] if v.startswith('"') else v.strip()
    def qual(self, k):
        s = self.mtxt.get(k, '')
        n = self._attr(s, 'name') or ''
        sc = self._attr(s, 'scope')
        if sc and sc.startswith('!'):
            ss = self.mtxt.get(sc[1:], '')
            if 'DINamespace' in ss or 'DICompositeType' in ss:
                q = self.qual(sc[1:])
                return (q + '::' + n) if q else n
        return n
    def classes(self):
        if self._cls is None:
            self._cls = {}
            for k, s in self.mtxt.items():
                if 'DICompositeType(tag: DW_TAG_' in s and 'DIFlagFwdDecl' not in s and 'elements:' in s and 'array_type' not in s:
                    self._cls.setdefault(self.qual(k), k)
        return self._cls
    def members(self, ident, base=0, out=None, depth=0):
        """ident: 'hiop::hiopVectorPar' -> dict name -> (offset, size, typekind, typestr)"""
        out = {} if out is None else out
        k = self.classes().get(ident)
        if k is None: return None
        s = self.mtxt[k]
        e = self._attr(s, 'elements')
        if not e: return out
        lst = re.findall(r'!(\d+)', self.mtxt[e[1:]])
        for x in lst:
            d = self.mtxt[x]
            if 'DW_TAG_inheritance' in d:
                bt = self._attr(d, 'baseType'); off = int(self._attr(d, 'offset') or 0) // 8
                self.members(self.qual(bt[1:]), base + off, out, depth + 1)
            elif 'DW_TAG_member' in d and 'DIFlagStaticMember' not in d:
                nm = self._attr(d, 'name') or '?'
                off = int(self._attr(d, 'offset') or 0) // 8; sz = int(self._attr(d, 'size') or 0) // 8
                if nm.startswith('_vptr'): nm = '_vptr'
                out[nm] = (base + off, sz, self.tdesc(self._attr(d, 'baseType')))
        return out
    def tdesc(self, ref, d=0):
        """type description: ('ptr',x) ('cls',ident) ('int',bits) ('bool',) ('dbl',) ('enum',bits) ('arr',..)"""
        if ref is None: return ('void',)
        s = self.mtxt.get(ref[1:], '')
        if 'DW_TAG_pointer_type' in s or 'DW_TAG_reference_type' in s or 'DW_TAG_rvalue_reference' in s:
            return ('ptr', self.tdesc(self._attr(s, 'baseType'), d + 1) if d < 3 else ('?',))
        if 'DIDerivedType' in s: return self.tdesc(self._attr(s, 'baseType'), d)
        if 'DIBasicType' in s:
            n = self._attr(s, 'name'); sz = int(self._attr(s, 'size') or 0)
            if n == 'bool': return ('bool',)
            if n in ('double',): return ('dbl',)
            if n in ('float', 'long double'): return ('f', n)
            return ('int', sz)
        if 'DW_TAG_enumeration_type' in s: return ('enum', int(self._attr(s, 'size') or 32))
        if 'DICompositeType' in s: return ('cls', self.qual(ref[1:]))
        return ('?',)
    def class_size(self, ident):
        k = self.classes().get(ident)
        if k is None: return None
        return int(self._attr(self.mtxt[k], 'size')) // 8

def demangle(names):
    names = list(names)
    r = subprocess.run(['c++filt'], input='\n'.join(names) + '\n', capture_output=True, text=True).stdout.split('\n')
    return dict(zip(names, r))
