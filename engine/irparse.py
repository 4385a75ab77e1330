"""Parser for the textual LLVM IR that clang-18 -O0 emits for the code."""
import re
import struct

TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))
 |(?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))
 |(?P<meta>!(?:"(?:[^"\\]|\\.)*"|[-\w.$]+)?)
 |(?P<attr>\#\d+)
 |(?P<num>-?(?:0x[0-9A-Fa-f]+|\d+\.\d+(?:e[+-]?\d+)?|\d+))
 |(?P<id>[A-Za-z_][\w.$]*)
 |(?P<p>\.\.\.|[()\[\]{}<>,=*:|])
)''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        if s[pos:pos + 1].isspace():
            pos += 1
            continue
        if s[pos] == ';':
            break
        m = TOK.match(s, pos)
        if not m:
            raise SyntaxError('token at %r' % s[pos:pos + 60])
        out.append(m.group(m.lastgroup))
        pos = m.end()
    return out


class TS(object):
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.accept(x):
            raise SyntaxError('expected %r at %r' % (x, self.t[max(0, self.i - 6):self.i + 6]))

    def end(self):
        return self.i >= len(self.t)


def unq(s):
    if s[1:2] == '"':
        return s[0] + s[2:-1]
    return s


def parse_type(ts):
    t = ts.next()
    if t == 'ptr':
        r = 'ptr'
    elif t == 'void':
        r = 'void'
    elif t in ('double', 'float', 'label', 'metadata', 'token', 'x86_fp80'):
        r = t
    elif re.match(r'i\d+$', t):
        r = ('i', int(t[1:]))
    elif t[0] == '%':
        r = ('s', unq(t)[1:])
    elif t == '[':
        n = int(ts.next())
        ts.expect('x')
        e = parse_type(ts)
        ts.expect(']')
        r = ('arr', n, e)
    elif t == '{':
        es = []
        while not ts.accept('}'):
            es.append(parse_type(ts))
            ts.accept(',')
        r = ('lit', tuple(es), False)
    elif t == '<':
        if ts.accept('{'):
            es = []
            while not ts.accept('}'):
                es.append(parse_type(ts))
                ts.accept(',')
            ts.expect('>')
            r = ('lit', tuple(es), True)
        else:
            n = int(ts.next())
            ts.expect('x')
            e = parse_type(ts)
            ts.expect('>')
            r = ('vec', n, e)
    elif t == 'opaque':
        r = 'opaque'
    else:
        raise SyntaxError('type %r' % t)
    # function types "void (i32)" appear only in variadic calls
    return r


ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'inreg', 'noalias', 'nocapture', 'readonly',
         'writeonly', 'readnone', 'returned', 'immarg', 'nest', 'writable', 'dead_on_unwind',
         'nofpclass', 'swiftself', 'noreturn', 'nounwind', 'inbounds', 'nuw', 'nsw', 'exact', 'fast',
         'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'volatile', 'tail', 'musttail',
         'notail', 'allocptr', 'allocalign', 'dso_local', 'unnamed_addr', 'local_unnamed_addr', 'nneg',
         'disjoint', 'hot', 'cold', 'nofree', 'noinline', 'mustprogress', 'willreturn'}


def skip_attrs(ts):
    found = {}
    while True:
        t = ts.peek()
        if t in ATTRS:
            ts.next()
            found[t] = True
        elif t == 'align' and ts.peek(1) and re.match(r'\d+$', ts.peek(1)):
            ts.next()
            ts.next()
        elif t in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'align', 'elementtype',
                   'memory', 'allocsize', 'captures', 'range', 'preallocated', 'inalloca'):
            k = ts.next()
            ts.expect('(')
            depth = 1
            start = ts.i
            if k in ('sret', 'byval'):
                found[k] = parse_type(ts)
                ts.expect(')')
                continue
            while depth:
                x = ts.next()
                if x == '(':
                    depth += 1
                elif x == ')':
                    depth -= 1
            found[k] = ts.t[start:ts.i - 1]
        else:
            return found


def fconst(tok, ty):
    if tok.startswith('0x'):
        if tok[2] in 'KLMHR':
            raise SyntaxError('fp const')
        return struct.unpack('>d', int(tok[2:], 16).to_bytes(8, 'big'))[0]
    return float(tok)


def parse_value(ts, ty):
    """value token(s) of known type -> tuple"""
    t = ts.next()
    if t[0] == '%':
        return ('l', unq(t)[1:])
    if t[0] == '@':
        return ('g', unq(t)[1:])
    if t == 'true':
        return ('c', 1)
    if t == 'false':
        return ('c', 0)
    if t == 'null':
        return ('null',)
    if t in ('undef', 'poison'):
        return ('undef',)
    if t == 'zeroinitializer':
        return ('zero',)
    if t in ('getelementptr',):
        ts.accept('inbounds')
        ts.expect('(')
        sty = parse_type(ts)
        ts.expect(',')
        parse_type(ts)
        base = parse_value(ts, 'ptr')
        idx = []
        while ts.accept(','):
            ts.accept('inrange')
            it = parse_type(ts)
            idx.append((it, parse_value(ts, it)))
        ts.expect(')')
        return ('gep', sty, base, idx)
    if t in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast'):
        ts.expect('(')
        it = parse_type(ts)
        v = parse_value(ts, it)
        ts.expect('to')
        parse_type(ts)
        ts.expect(')')
        return v
    if t == 'c' or t.startswith('c"'):
        return ('cstr', decode_cstr(t))
    if t in ('{', '[', '<'):
        close = {'{': '}', '[': ']', '<': '>'}[t]
        vals = []
        while not ts.accept(close):
            et = parse_type(ts)
            skip_attrs(ts)
            vals.append((et, parse_value(ts, et)))
            ts.accept(',')
        return ('agg', vals)
    if ty in ('double', 'float'):
        return ('f', fconst(t, ty))
    if t == 'none':
        return ('undef',)
    return ('c', int(t, 0))


def decode_cstr(t):
    s = t[t.index('"') + 1:-1]
    out = []
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(0x5c)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return out


class Inst(object):
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'text')

    def __init__(self, op, res=None, ty=None, a=None):
        self.op, self.res, self.ty, self.a = op, res, ty, a
        self.dbg = None
        self.text = None


class Func(object):
    def __init__(self, name):
        self.name = name
        self.params = []      # (type, name, attrs)
        self.ret = None
        self.retattrs = None
        self.blocks = {}      # label -> [Inst]
        self.order = []
        self.dbg = None
        self.module = None
        self._cfg = None


class Module(object):
    def __init__(self, name):
        self.name = name
        self.types = {}
        self.funcs = {}
        self.globals = {}
        self.aliases = {}
        self.md = {}


BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'zext', 'sext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'bitcast',
        'ptrtoint', 'inttoptr'}


def parse_call(ts):
    while ts.peek() in ('fastcc', 'ccc', 'coldcc'):
        ts.next()
    fl = skip_attrs(ts)
    rty = parse_type(ts)
    if ts.peek() == '(':        # variadic function type
        depth = 0
        while True:
            x = ts.next()
            if x == '(':
                depth += 1
            elif x == ')':
                depth -= 1
                if depth == 0:
                    break
    callee = parse_value(ts, 'ptr')
    ts.expect('(')
    args = []
    while not ts.accept(')'):
        at = parse_type(ts)
        if at == 'metadata':
            depth = 0
            while not (depth == 0 and ts.peek() in (',', ')')):
                x = ts.next()
                if x in '({':
                    depth += 1
                elif x in ')}':
                    depth -= 1
            args.append((at, None, {}))
        else:
            attrs = skip_attrs(ts)
            args.append((at, parse_value(ts, at), attrs))
        ts.accept(',')
    return rty, callee, args


def parse_inst(line):
    dbg = None
    m = re.search(r', !dbg !(\d+)', line)
    if m:
        dbg = int(m.group(1))
        line = line[:m.start()] + line[m.end():]
    m = re.search(r', !(?:range|tbaa|llvm\.loop|srcloc|nonnull|noundef|heapallocsite|nosanitize) !\d+', line)
    while m:
        line = line[:m.start()] + line[m.end():]
        m = re.search(r', !(?:range|tbaa|llvm\.loop|srcloc|nonnull|noundef|heapallocsite|nosanitize) !\d+', line)
    ts = TS(tokenize(line))
    res = None
    if ts.peek(1) == '=':
        res = unq(ts.next())[1:]
        ts.next()
    op = ts.next()
    if op in ('tail', 'notail', 'musttail'):
        op = ts.next()
    fl = skip_attrs(ts)
    i = Inst(op, res)
    i.dbg = dbg
    i.text = line
    if op == 'alloca':
        i.ty = parse_type(ts)
        i.a = None
        if ts.accept(','):
            if ts.peek() != 'align':
                t = parse_type(ts)
                i.a = parse_value(ts, t)
    elif op == 'load':
        i.ty = parse_type(ts)
        ts.expect(',')
        parse_type(ts)
        i.a = parse_value(ts, 'ptr')
    elif op == 'store':
        i.ty = parse_type(ts)
        v = parse_value(ts, i.ty)
        ts.expect(',')
        parse_type(ts)
        i.a = (v, parse_value(ts, 'ptr'))
    elif op == 'getelementptr':
        sty = parse_type(ts)
        ts.expect(',')
        parse_type(ts)
        base = parse_value(ts, 'ptr')
        idx = []
        while ts.accept(','):
            it = parse_type(ts)
            idx.append((it, parse_value(ts, it)))
        i.a = (sty, base, idx)
    elif op in BIN:
        i.ty = parse_type(ts)
        x = parse_value(ts, i.ty)
        ts.expect(',')
        i.a = (x, parse_value(ts, i.ty), fl)
    elif op == 'fneg':
        i.ty = parse_type(ts)
        i.a = parse_value(ts, i.ty)
    elif op in ('icmp', 'fcmp'):
        pred = ts.next()
        skip_attrs(ts)
        i.ty = parse_type(ts)
        x = parse_value(ts, i.ty)
        ts.expect(',')
        i.a = (pred, x, parse_value(ts, i.ty))
    elif op in CAST:
        t = parse_type(ts)
        v = parse_value(ts, t)
        ts.expect('to')
        i.ty = parse_type(ts)
        i.a = (t, v)
    elif op == 'br':
        if ts.accept('label'):
            i.a = (None, unq(ts.next())[1:])
        else:
            parse_type(ts)
            c = parse_value(ts, ('i', 1))
            ts.expect(',')
            ts.expect('label')
            t = unq(ts.next())[1:]
            ts.expect(',')
            ts.expect('label')
            f = unq(ts.next())[1:]
            i.a = (c, t, f)
    elif op == 'ret':
        if ts.accept('void'):
            i.ty, i.a = 'void', None
        else:
            i.ty = parse_type(ts)
            i.a = parse_value(ts, i.ty)
    elif op == 'phi':
        i.ty = parse_type(ts)
        inc = []
        while ts.accept('['):
            v = parse_value(ts, i.ty)
            ts.expect(',')
            inc.append((v, unq(ts.next())[1:]))
            ts.expect(']')
            ts.accept(',')
        i.a = inc
    elif op == 'select':
        ct = parse_type(ts)
        c = parse_value(ts, ct)
        ts.expect(',')
        i.ty = parse_type(ts)
        x = parse_value(ts, i.ty)
        ts.expect(',')
        parse_type(ts)
        i.a = (c, x, parse_value(ts, i.ty))
    elif op in ('extractvalue',):
        i.ty = parse_type(ts)
        v = parse_value(ts, i.ty)
        idx = []
        while ts.accept(','):
            idx.append(int(ts.next()))
        i.a = (v, idx)
    elif op == 'insertvalue':
        i.ty = parse_type(ts)
        v = parse_value(ts, i.ty)
        ts.expect(',')
        et = parse_type(ts)
        e = parse_value(ts, et)
        idx = []
        while ts.accept(','):
            idx.append(int(ts.next()))
        i.a = (v, et, e, idx)
    elif op == 'call':
        ts2 = TS(ts.t)
        ts2.i = ts.i
        i.ty, callee, args = parse_call(ts2)
        i.a = (callee, args)
    elif op == 'switch':
        t = parse_type(ts)
        v = parse_value(ts, t)
        ts.expect(',')
        ts.expect('label')
        d = unq(ts.next())[1:]
        ts.expect('[')
        cases = []
        while not ts.accept(']'):
            parse_type(ts)
            c = parse_value(ts, t)
            ts.expect(',')
            ts.expect('label')
            cases.append((c[1], unq(ts.next())[1:]))
        i.ty = t
        i.a = (v, d, cases)
    elif op == 'unreachable':
        pass
    elif op == 'freeze':
        i.ty = parse_type(ts)
        i.a = parse_value(ts, i.ty)
    else:
        i.op = 'unsupported'
        i.a = line
    return i


def parse_module(path, name=None):
    m = Module(name or path)
    cur = None
    label = None
    pend = None
    with open(path) as f:
        lines = f.read().split('\n')
    k = 0
    n = len(lines)
    while k < n:
        line = lines[k]
        k += 1
        if cur is None:
            if not line:
                continue
            c0 = line[0]
            if c0 == '%':
                mm = re.match(r'(%"(?:[^"\\]|\\.)*"|%[-\w.$]+) = type (.*)$', line)
                if mm:
                    m.types[unq(mm.group(1))[1:]] = mm.group(2)
                continue
            if c0 == '@':
                mm = re.match(r'(@"(?:[^"\\]|\\.)*"|@[-\w.$]+) = (.*)$', line)
                gname, rest = unq(mm.group(1))[1:], mm.group(2)
                if re.search(r'\balias\b', rest.split('"')[0]):
                    al = re.search(r'alias .*?, ptr (@"(?:[^"\\]|\\.)*"|@[-\w.$]+)', rest)
                    if al:
                        m.aliases[gname] = unq(al.group(1))[1:]
                else:
                    m.globals[gname] = rest
                continue
            if line.startswith('define'):
                cur = parse_header(line, m)
                label = None
                pend = []
                continue
            if c0 == '!':
                mm = re.match(r'!(\d+) = (.*)$', line)
                if mm:
                    m.md[int(mm.group(1))] = mm.group(2)
                continue
            continue
        if line.startswith('}'):
            cur.text = pend
            m.funcs[cur.name] = cur
            cur = None
            continue
        pend.append(line)
    return m


def parse_header(line, m):
    mm = re.search(r'(@"(?:[^"\\]|\\.)*"|@[-\w.$]+)\(', line)
    f = Func(unq(mm.group(1))[1:])
    f.module = m
    f.header = line
    f.parsed = False
    d = re.search(r'!dbg !(\d+)', line)
    if d:
        f.dbg = int(d.group(1))
    return f


def ensure_parsed(f):
    if f.parsed:
        return f
    line = f.header
    mm = re.search(r'(@"(?:[^"\\]|\\.)*"|@[-\w.$]+)\(', line)
    pre = re.sub(r'^define\s+', '', line[:mm.start()])
    pre = re.sub(r'\b(dso_local|linkonce_odr|weak_odr|internal|hidden|private|available_externally|fastcc)\b', '', pre)
    ts = TS(tokenize(pre))
    f.retattrs = skip_attrs(ts)
    f.ret = parse_type(ts)
    ts = TS(tokenize(line[mm.end():].split(' !dbg')[0].rstrip('{ ')))
    params = []
    depth = 0
    while not ts.accept(')'):
        if ts.accept('...'):
            break
        t = parse_type(ts)
        attrs = skip_attrs(ts)
        nm = ts.peek()
        if nm and nm[0] == '%':
            ts.next()
            nm = unq(nm)[1:]
        else:
            nm = str(len(params))
        params.append((t, nm, attrs))
        ts.accept(',')
    f.params = params
    label = None
    text = f.text
    k = 0
    implicit = True
    while k < len(text):
        line = text[k]
        k += 1
        if not line.strip():
            continue
        if line[0] not in ' \t':
            mm = re.match(r'("(?:[^"\\]|\\.)*"|[-\w.$]+):', line)
            if mm:
                label = mm.group(1).strip('"')
                f.blocks[label] = []
                f.order.append(label)
                continue
        if label is None:
            label = str(len(params))
            f.blocks[label] = []
            f.order.append(label)
        s = line.strip()
        if s.startswith('switch') and not s.rstrip().endswith(']') and '[' in s and ']' not in s:
            while True:
                s += ' ' + text[k].strip()
                k += 1
                if text[k - 1].strip().startswith(']'):
                    break
        if 'llvm.dbg.' in s:
            continue
        f.blocks[label].append(parse_inst(s))
    f.parsed = True
    return f


# ------------------------------------------------------------------ layouts

class Layout(object):
    def __init__(self):
        self.types = {}
        self.cache = {}

    def add(self, module):
        for k, v in module.types.items():
            if k not in self.types:
                self.types[k] = v

    def resolve(self, module, name):
        key = (module.name, name)
        r = self.cache.get(key)
        if r is None:
            ts = TS(tokenize(module.types[name]))
            r = parse_type(ts)
            self.cache[key] = r
        return r

    def size_align(self, m, t):
        key = ('sa', m.name, t)
        r = self.cache.get(key)
        if r is None:
            r = self._sa(m, t)
            self.cache[key] = r
        return r

    def _sa(self, m, t):
        if t == 'ptr' or t == 'double':
            return 8, 8
        if t == 'float':
            return 4, 4
        if t == 'x86_fp80':
            return 16, 16
        if t[0] == 'i':
            b = (t[1] + 7) // 8
            a = 1
            while a < b:
                a *= 2
            return a, min(a, 16)
        if t[0] == 'arr':
            s, a = self.size_align(m, t[2])
            return s * t[1], a
        if t[0] == 's':
            return self.size_align(m, self.resolve(m, t[1]))
        if t[0] == 'lit':
            offs, size, al = self.fields(m, t)
            return size, al
        if t == 'opaque':
            return 0, 1
        raise ValueError('size of %r' % (t,))

    def fields(self, m, t):
        if t[0] == 's':
            t = self.resolve(m, t[1])
        off = 0
        al = 1
        offs = []
        for e in t[1]:
            s, a = self.size_align(m, e)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            offs.append(off)
            off += s
            al = max(al, a)
        off = (off + al - 1) // al * al
        return offs, off, al

    def subtype(self, m, t):
        if t[0] == 's':
            return self.resolve(m, t[1])
        return t

    def scalars(self, m, t, base=0):
        """flat list of (offset, scalar type) of an LLVM type"""
        if t == 'ptr' or t in ('double', 'float') or t[0] == 'i':
            return [(base, t)]
        if t[0] == 's':
            return self.scalars(m, self.resolve(m, t[1]), base)
        if t[0] == 'arr':
            s, a = self.size_align(m, t[2])
            out = []
            for k in range(t[1]):
                out += self.scalars(m, t[2], base + k * s)
            return out
        if t[0] == 'lit':
            offs, size, al = self.fields(m, t)
            out = []
            for o, e in zip(offs, t[1]):
                out += self.scalars(m, e, base + o)
            return out
        raise ValueError(t)


# ------------------------------------------------------------------ debug info

class DI(object):
    """class layouts (field names, offsets, C++ types) from debug metadata"""

    def __init__(self):
        self.cls = {}       # identifier or name -> dict
        self.byname = {}

    def add(self, module):
        md = module.md
        for k, v in md.items():
            if 'DICompositeType' in v and 'elements:' in v and 'DIFlagFwdDecl' not in v:
                d = self.fields(v)
                name = d.get('name')
                if not name:
                    continue
                full = self.fullname(md, d)
                if full in self.byname:
                    continue
                self.byname[full] = (module, k, d)

    _fre = re.compile(r'(\w+): ("(?:[^"\\]|\\.)*"|![\w]+|[^,()]+)')

    def fields(self, v):
        out = {}
        for mm in self._fre.finditer(v[v.index('(') + 1:]):
            val = mm.group(2)
            if val.startswith('"'):
                val = val[1:-1]
            out[mm.group(1)] = val.strip()
        return out

    def fullname(self, md, d):
        names = [d.get('name', '')]
        sc = d.get('scope')
        while sc and sc.startswith('!'):
            v = md.get(int(sc[1:]))
            if v is None or 'DIFile' in v or 'DICompileUnit' in v:
                break
            f = self.fields(v)
            if 'exportSymbols: true' in v and 'DINamespace' in v:
                sc = f.get('scope')
                if f.get('name'):
                    names.insert(0, f['name'])
                continue
            if f.get('name'):
                names.insert(0, f['name'])
            sc = f.get('scope')
        return '::'.join(names)

    def node(self, module, ref):
        if not ref or not ref.startswith('!'):
            return None
        return module.md.get(int(ref[1:]))

    def typestr(self, module, ref):
        """C++-ish type name of a DI type reference"""
        if not ref or ref == 'null':
            return 'void'
        v = self.node(module, ref)
        if v is None:
            return '?'
        f = self.fields(v)
        if 'DIBasicType' in v:
            return f['name']
        if 'DICompositeType' in v:
            if 'DW_TAG_array_type' in v:
                return self.typestr(module, f.get('baseType')) + '[]'
            return self.fullname(module.md, f)
        if 'DIDerivedType' in v:
            b = f.get('baseType')
            if 'DW_TAG_pointer_type' in v:
                return self.typestr(module, b) + '*'
            if 'DW_TAG_reference_type' in v or 'DW_TAG_rvalue_reference_type' in v:
                return self.typestr(module, b) + '&'
            return self.typestr(module, b)
        return '?'

    def members(self, name):
        """[(offset, fieldname, typestring)] including bases (flattened one level)"""
        r = self.byname.get(name)
        if r is None:
            return None
        module, k, d = r
        els = self.node(module, d.get('elements'))
        out = []
        if els:
            for ref in re.findall(r'!\d+', els):
                v = self.node(module, ref)
                if v is None or 'DIDerivedType' not in v:
                    continue
                f = self.fields(v)
                if 'DW_TAG_member' in v and 'DIFlagStaticMember' not in v:
                    if 'DIFlagArtificial' in v:
                        out.append((int(f.get('offset', '0')) // 8, f.get('name', '_vptr'), 'vptr'))
                        continue
                    off = int(f.get('offset', '0')) // 8
                    out.append((off, f.get('name', '?'), self.typestr(module, f.get('baseType'))))
                elif 'DW_TAG_inheritance' in v:
                    off = int(f.get('offset', '0')) // 8
                    out.append((off, '<base>', self.typestr(module, f.get('baseType'))))
        return out

    def kind(self, name):
        r = self.byname.get(name)
        if r is None:
            return None
        return r[2].get('tag')

    def enumerators(self, name):
        """values of an enumeration type or None"""
        r = self.byname.get(name)
        if r is None or 'enumeration' not in (r[2].get('tag') or ''):
            return None
        module, k, d = r
        els = self.node(module, d.get('elements'))
        out = []
        for ref in re.findall(r'!\d+', els or ''):
            v = self.node(module, ref)
            if v and 'DIEnumerator' in v:
                out.append(int(self.fields(v).get('value', '0')))
        return out or None
