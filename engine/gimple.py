"""Parser for GCC's GIMPLE dumps (-fdump-tree-optimized-gimple-uid)."""
import re


class ParseError(Exception):
    pass


TOK = re.compile(r'''\s*(?:
  (?P<str>"(?:[^"\\]|\\.)*") |
  (?P<flt>-?(?:\d+\.\d*(?:[eE][+-]?\d+)?|\d+[eE][+-]\d+)[fFlLdD]*(?:16|32|64|128)?x?) |
  (?P<hex>0x[0-9a-fA-F]+(?:_cst)?[uUlL]*) |
  (?P<num>-?\d+(?:u|l|L|U|ul|ll|ull|LL|UL|ULL)*\b) |
  (?P<id>[A-Za-z_.$][A-Za-z_0-9.$:]*(?:\#\d+[A-Za-z_0-9.$:]*)?(?:\(D\))?) |
  (?P<op>\{\ ?ref-all\}|\{v\}|<<|>>|<=|>=|==|!=|->|\|\||&&|[-+*/%&|^~!=<>(){}\[\],;:?@])
)''', re.X)


# 'x.field' is printed without spaces; clone suffixes are part of the name
FIELD = re.compile(r'\.(?=[A-Za-z_])(?!isra|constprop|part\.|cold|lto_priv)')


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == '':
                break
            raise ParseError('token: %r' % s[pos:pos + 60])
        pos = m.end()
        if m.lastgroup == 'id':
            v = m.group('id')
            if '.' in v[1:] and v[0] != '.':
                f = FIELD.search(v)
                if f:
                    out.append(('id', v[:f.start()]))
                    out.append(('id', v[f.start():]))
                    continue
        out.append((m.lastgroup, m.group(m.lastgroup)))
    out.append(('end', ''))
    return out


QUAL = {'const', 'volatile', 'restrict', '__restrict__', '__restrict'}
WORDS = {'signed', 'unsigned', 'short', 'long', 'int', 'char', 'float', 'double', 'bool', '__int128', '_Float16',
         '_Bool', 'wchar_t', 'char8_t', 'char16_t', 'char32_t', 'void', '_Float32', '_Float64', '__bf16', '_Float32x',
         '_Float64x', '_Float128', '__float128', 'intD', 'complex', '_Complex'}
BASEW = {
    'char': (8, 'i', True), 'signed char': (8, 'i', True), 'unsigned char': (8, 'i', False),
    'bool': (8, 'b', False), '_Bool': (8, 'b', False),
    'char8_t': (8, 'i', False), 'char16_t': (16, 'i', False), 'char32_t': (32, 'i', False), 'wchar_t': (32, 'i', True),
    'short': (16, 'i', True), 'short int': (16, 'i', True), 'short unsigned int': (16, 'i', False),
    'unsigned short': (16, 'i', False),
    'int': (32, 'i', True), 'unsigned int': (32, 'i', False), 'unsigned': (32, 'i', False),
    'signed int': (32, 'i', True), 'signed short': (16, 'i', True), 'signed long': (64, 'i', True),
    'signed long long': (64, 'i', True), 'unsigned long int': (64, 'i', False), 'unsigned short int': (16, 'i', False),
    'long': (64, 'i', True), 'long int': (64, 'i', True), 'long unsigned int': (64, 'i', False),
    'unsigned long': (64, 'i', False),
    'long long': (64, 'i', True), 'long long int': (64, 'i', True), 'long long unsigned int': (64, 'i', False),
    'unsigned long long': (64, 'i', False),
    'float': (32, 'f', True), 'double': (64, 'f', True), '_Float16': (16, 'f', True), '_Float32': (32, 'f', True),
    '_Float64': (64, 'f', True), 'long double': (80, 'f', True), '__float128': (128, 'f', True),
    '_Float128': (128, 'f', True), '__int128': (128, 'i', True), '__int128 unsigned': (128, 'i', False),
    'unsigned __int128': (128, 'i', False), 'void': (0, 'v', False),
    'uint128_t': (128, 'i', False), 'uint256_t': (256, 'i', False), 'uint512_t': (512, 'i', False),
    'sizetype': (64, 'i', False), 'ssizetype': (64, 'i', True), 'bitsizetype': (64, 'i', False),
    'int8_t': (8, 'i', True), 'int16_t': (16, 'i', True), 'int32_t': (32, 'i', True), 'int64_t': (64, 'i', True),
    'uint8_t': (8, 'i', False), 'uint16_t': (16, 'i', False), 'uint32_t': (32, 'i', False),
    'uint64_t': (64, 'i', False),
    'size_t': (64, 'i', False), 'ptrdiff_t': (64, 'i', True), '__mmask8': (8, 'i', False),
    '__mmask16': (16, 'i', False), '__mmask32': (32, 'i', False), '__mmask64': (64, 'i', False),
    '__m64': None,
}
BASEW = {k: v for k, v in BASEW.items() if v}
# vector typedefs whose structure is fixed by the compiler's own headers
VEC = {}
for nm, (n, el) in {
    '__v16qi': (16, 'char'), '__v16qs': (16, 'signed char'), '__v16qu': (16, 'unsigned char'),
    '__v8hi': (8, 'short int'), '__v8hu': (8, 'short unsigned int'), '__v4si': (4, 'int'),
    '__v4su': (4, 'unsigned int'), '__v2di': (2, 'long long int'), '__v2du': (2, 'long long unsigned int'),
    '__v4sf': (4, 'float'), '__v2df': (2, 'double'), '__m128i': (2, 'long long int'), '__m128': (4, 'float'),
    '__m128d': (2, 'double'), '__m128i_u': (2, 'long long int'), '__m128_u': (4, 'float'), '__m128d_u': (2, 'double'),
    '__v32qi': (32, 'char'), '__v32qs': (32, 'signed char'), '__v32qu': (32, 'unsigned char'),
    '__v16hi': (16, 'short int'), '__v16hu': (16, 'short unsigned int'), '__v8si': (8, 'int'),
    '__v8su': (8, 'unsigned int'), '__v4di': (4, 'long long int'), '__v4du': (4, 'long long unsigned int'),
    '__v8sf': (8, 'float'), '__v4df': (4, 'double'), '__m256i': (4, 'long long int'), '__m256': (8, 'float'),
    '__m256d': (4, 'double'), '__m256i_u': (4, 'long long int'), '__m256_u': (8, 'float'),
    '__m256d_u': (4, 'double'),
    '__v64qi': (64, 'char'), '__v64qs': (64, 'signed char'), '__v64qu': (64, 'unsigned char'),
    '__v32hi': (32, 'short int'), '__v32hu': (32, 'short unsigned int'), '__v16si': (16, 'int'),
    '__v16su': (16, 'unsigned int'), '__v8di': (8, 'long long int'), '__v8du': (8, 'long long unsigned int'),
    '__v16sf': (16, 'float'), '__v8df': (8, 'double'), '__m512i': (8, 'long long int'), '__m512': (16, 'float'),
    '__m512d': (8, 'double'), '__m512i_u': (8, 'long long int'), '__m512_u': (16, 'float'),
    '__m512d_u': (8, 'double'), '__v8qi': (8, 'char'), '__v4hi': (4, 'short int'), '__v2si': (2, 'int'),
    '__v2sf': (2, 'float'),
    # ARM
    'int8x16_t': (16, 'signed char'), 'int16x8_t': (8, 'short int'), 'int32x4_t': (4, 'int'),
    'int64x2_t': (2, 'long int'), 'uint8x16_t': (16, 'unsigned char'), 'uint16x8_t': (8, 'short unsigned int'),
    'uint32x4_t': (4, 'unsigned int'), 'uint64x2_t': (2, 'long unsigned int'), 'float32x4_t': (4, 'float'),
    'float64x2_t': (2, 'double'), 'int8x8_t': (8, 'signed char'), 'int16x4_t': (4, 'short int'),
    'int32x2_t': (2, 'int'), 'int64x1_t': (1, 'long int'), 'uint8x8_t': (8, 'unsigned char'),
    'uint16x4_t': (4, 'short unsigned int'), 'uint32x2_t': (2, 'unsigned int'),
    'uint64x1_t': (1, 'long unsigned int'), 'float32x2_t': (2, 'float'), 'float64x1_t': (1, 'double'),
}.items():
    w, k, s = BASEW[el]
    VEC[nm] = ('vec', n, ('s', w, k, s))

def set_target(target):
    """char and wchar_t are unsigned on the ARM and POWER ABIs"""
    u = target in ('neon', 'arm', 'ppc')
    BASEW['char'] = (8, 'i', not u)
    BASEW['wchar_t'] = (32, 'i', target not in ('neon', 'arm'))
    w = 32 if target == 'arm' else 64
    for n in ('long', 'long int', 'signed long', 'ssizetype', 'ptrdiff_t'):
        BASEW[n] = (w, 'i', True)
    for n in ('long unsigned int', 'unsigned long', 'unsigned long int', 'sizetype', 'size_t'):
        BASEW[n] = (w, 'i', False)
    e = ('s', 64, 'i', True)
    VEC['int64x1_t'], VEC['int64x2_t'] = ('vec', 1, e), ('vec', 2, e)
    e = ('s', 64, 'i', False)
    VEC['uint64x1_t'], VEC['uint64x2_t'] = ('vec', 1, e), ('vec', 2, e)


UID = re.compile(r'D[._]?(\d+)$')
UIDSPLIT = re.compile(r'^(.*?)D_(\d+)$')


def strip_uid(name):
    m = UIDSPLIT.match(name)
    return m.group(1) if m else name


def scalar(w, k, s):
    return ('s', w, k, s)


class P:
    """recursive descent over one statement"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else ''

    def kind(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else 'end'

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r[1]

    def expect(self, x):
        if self.peek() != x:
            raise ParseError('expected %r got %r in %r' % (x, self.peek(), ' '.join(t[1] for t in self.t)))
        self.i += 1

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    # -- types
    def type(self):
        while self.peek() in QUAL:
            self.next()
        p = self.peek()
        if p == 'vector':
            self.next()
            self.expect('(')
            n = int(self.next())
            self.expect(')')
            el = self.type_base()
            ty = ('vec', n, el)
        else:
            ty = self.type_base()
        while True:
            if self.peek() in QUAL:
                self.next()
            elif self.peek() in ('*', '&'):
                self.next()
                if self.kind() == 'op' and self.peek().startswith('{') and 'ref-all' in self.peek():
                    self.next()
                ty = ('ptr', ty)
            elif self.peek().startswith('{') and 'ref-all' in self.peek():
                self.next()
            elif self.peek() == '[':
                self.next()
                n = None if self.peek() == ']' else self.num(self.next())
                self.expect(']')
                ty = ('arr', n, ty)
            else:
                break
        return ty

    def type_base(self):
        while self.peek() in QUAL:
            self.next()
        p = self.peek()
        if p == '__vector' and self.kind(1) == 'id':
            self.next()
            el = self.type_base()
            return ('vec', 128 // el[1], el)
        if p == '<':
            self.next()
            nm = ''
            while self.peek() != '>':
                nm += self.next()
            self.next()
            m = re.match(r'(?:signed-boolean|unnamed-signed|unnamed-unsigned|boolean)[:](\d+)$', nm)
            if not m:
                # e.g. 'signed-boolean:8' tokenised differently
                m = re.search(r':(\d+)$', nm)
            if m:
                return ('s', int(m.group(1)), 'B' if 'bool' in nm else 'i', 'unsigned' not in nm)
            raise ParseError('type <%s>' % nm)
        if p in ('struct', 'union', 'class', 'enum'):
            self.next()
            nm = self.next()
            return ('rec', nm) if p != 'enum' else ('s', 32, 'i', False)
        if p == 'vector':
            return self.type()
        # multi-word builtin
        words = []
        while self.kind() == 'id':
            w = self.peek()
            b = strip_uid(w)
            if b in WORDS:
                words.append(b)
                self.next()
                if b != w:
                    break
                continue
            break
        if words:
            nm = ' '.join(words)
            if nm in BASEW:
                w, k, s = BASEW[nm]
                if k == 'v':
                    return ('void',)
                return ('s', w, k, s)
            if nm.startswith('complex'):
                return ('rec', nm)
            raise ParseError('type words %r' % nm)
        nm = self.next()
        b = strip_uid(nm)
        if b in BASEW:
            w, k, s = BASEW[b]
            return ('s', w, k, s)
        if b in VEC:
            return VEC[b]
        return ('td', nm)

    def num(self, s):
        s = re.sub(r'(?<![xX0-9a-fA-F])[uUlL]+$', '', s) if s.startswith('0x') else re.sub(r'[uUlL]+$', '', s)
        return int(s, 0)

    # -- values
    def literal_elem(self):
        r = self.literal_elem1()
        if self.peek() == '(' and self.peek(1) == 'OVF':
            for x in ('(', 'OVF', ')'):
                self.expect(x)
        return r

    def literal_elem1(self):
        k, v = self.kind(), self.peek()
        if v == '_Literal':
            return self.value()
        if v == '-' :
            self.next()
            r = self.literal_elem()
            return ('neg', r)
        if k == 'flt':
            self.next()
            return ('flt', v)
        if k == 'num':
            self.next()
            if self.peek() == 'x' or (self.kind() == 'id' and re.match(r'x\d+u?$', self.peek())):
                raise ParseError('big')
            return ('int', self.num(v), v)
        if k == 'hex':
            self.next()
            return ('int', int(re.sub('(_cst)?[uUlL]*$', '', v), 16), v)
        if v in ('Nan', 'Inf', 'QNan', 'SNan'):
            self.next()
            return ('flt', v)
        return self.value()

    def initlist(self):
        self.expect('{')
        out = []
        while not self.accept('}'):
            if self.peek() == '...' or self.peek().startswith('...'):
                raise ParseError('ellipsis')
            out.append(self.literal_elem())
            self.accept(',')
        return out

    def value(self):
        """operand or lvalue"""
        k, v = self.kind(), self.peek()
        if v == '_Literal':
            self.next()
            self.expect('(')
            ty = self.type()
            self.expect(')')
            if self.peek() == '{':
                # CLOBBER ?
                if self.peek(1) == 'CLOBBER':
                    while self.next() != '}':
                        pass
                    return ('clobber',)
                return ('lit', ty, self.initlist())
            if self.peek() == '&':
                return self.value()
            e = self.literal_elem()
            return ('lit', ty, e)
        if v == '{':
            return ('lit', None, self.initlist())
        if v == '&':
            self.next()
            return ('addr', self.value())
        if v == '__MEM':
            self.next()
            self.expect('<')
            ty = self.type()
            al = None
            if self.accept(','):
                al = int(self.next())
            self.expect('>')
            self.expect('(')
            # optional (type)ptr
            cast = None
            if self.peek() == '(':
                self.next()
                cast = self.type()
                self.expect(')')
            b = self.value()
            off = 0
            if self.accept('+'):
                o = self.value()
                off = self.litint(o)
            self.expect(')')
            return self.postfix(('mem', ty, al, b, off))
        if v == '__VIEW_CONVERT':
            self.next()
            self.expect('<')
            ty = self.type()
            self.expect('>')
            self.expect('(')
            e = self.value()
            self.expect(')')
            return self.postfix(('view', ty, e))
        if v == '__BIT_FIELD_REF':
            self.next()
            if self.peek() == '<<':
                # '<<signed-boolean:8>' is the unnamed type inside the angle brackets of the reference
                self.t = self.t[:self.i] + [('op', '<'), ('op', '<')] + self.t[self.i + 1:]
                k = next(j for j in range(self.i, len(self.t)) if self.t[j][1] in ('>', '>>'))
                if self.t[k][1] == '>>':
                    self.t = self.t[:k] + [('op', '>'), ('op', '>')] + self.t[k + 1:]
            self.expect('<')
            ty = self.type()
            if self.accept(','):
                self.next()
            self.expect('>')
            self.expect('(')
            e = self.value()
            self.expect(',')
            n = self.num(self.next())
            self.expect(',')
            p = self.num(self.next())
            self.expect(')')
            return self.postfix(('bfr', ty, e, n, p))
        if v in ('__REAL', '__IMAG', '__real', '__imag'):
            self.next()
            if self.accept('('):
                e = self.value()
                self.expect(')')
            else:
                e = self.value()
            return (v.strip('_').lower(), e)
        if v == '__PHI':
            raise ParseError('phi')
        if k in ('num', 'flt', 'hex'):
            return self.literal_elem()
        if v in ('Nan', 'Inf'):
            return self.literal_elem()
        if k == 'str':
            self.next()
            return ('str', v)
        if v == '-' and self.kind(1) in ('num', 'flt') or (v == '-' and self.peek(1) in ('Nan', 'Inf')):
            self.next()
            return ('neg', self.literal_elem())
        if k == 'id':
            self.next()
            return self.postfix(('var', v))
        if v == '*':
            self.next()
            e = self.value()
            return self.postfix(('deref', e))
        if v == '(':
            # (type)value nested, as in MEM pointer operands
            self.next()
            ty = self.type()
            self.expect(')')
            return ('conv', ty, self.value())
        raise ParseError('value at %r in %r' % (v, ' '.join(t[1] for t in self.t)))

    def litint(self, o):
        if o[0] == 'lit':
            o = o[2]
        if o[0] == 'neg':
            return -self.litint(o[1])
        if o[0] == 'int':
            return o[1]
        raise ParseError('litint %r' % (o,))

    def postfix(self, e):
        while True:
            v = self.peek()
            if v == '[':
                self.next()
                i = self.value()
                self.expect(']')
                e = ('idx', e, i)
            elif self.kind() == 'id' and v.startswith('.') and len(v) > 1:
                self.next()
                for f in v[1:].split('.'):
                    e = ('fld', e, f)
            elif v == '->':
                self.next()
                e = ('fld', ('deref', e), self.next())
            else:
                return e

    BIN = {'+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '<', '>', '<=', '>=', '==', '!=', '__UNLT', '__UNLE',
           '__UNGT', '__UNGE', '__UNEQ', '__LTGT', '__UNORDERED', '__ORDERED', '&&', '||'}

    UOPS = {('u', '<'): '__UNLT', ('u', '<='): '__UNLE', ('u', '>'): '__UNGT', ('u', '>='): '__UNGE', ('u', '=='): '__UNEQ',
            ('unord',): '__UNORDERED', ('ord',): '__ORDERED', ('<', '>'): '__LTGT'}

    def rhs(self):
        v = self.peek()
        if v in ('-', '~', '!') and not (v == '-' and self.kind(1) in ('num', 'flt')):
            self.next()
            e = self.value()
            return ('un', v, e)
        if v == '(':
            # cast
            self.next()
            ty = self.type()
            self.expect(')')
            return ('cast', ty, self.value())
        if v == '[' and str(self.peek(1)).startswith('vec_unpack'):
            self.next()
            n = self.next()
            self.expect(']')
            return ('fn', n, [self.value()])
        if v in ('VEC_PACK_TRUNC_EXPR', 'VEC_PACK_FIX_TRUNC_EXPR', 'VEC_PACK_FLOAT_EXPR'):
            self.next()
            self.expect('<')
            x = self.value()
            self.expect(',')
            y = self.value()
            self.expect('>')
            return ('fn', v, [x, y])
        if v in ('WIDEN_MULT_PLUS_EXPR', 'WIDEN_MULT_MINUS_EXPR'):
            self.next()
            self.expect('<')
            xs = [self.value()]
            for k in range(2):
                self.expect(',')
                xs.append(self.value())
            self.expect('>')
            return ('fn', 'w+' if 'PLUS' in v else 'w-', xs)
        if v in ('__ABS', '__ABSU') and self.peek(1) != '(':
            self.next()
            return ('fn', v, [self.value()])
        if self.kind() == 'id' and v in ('__MIN', '__MAX', '__ABS', '__ABSU', '__VEC_PERM', '__BIT_INSERT',
                                         '__ROTATE_LEFT', '__ROTATE_RIGHT', '__UNORDERED', '__ORDERED', '__FMA',
                                         '__LTGT', '__UNLT', '__UNLE', '__UNGT', '__UNGE', '__UNEQ', '__MULT_HIGHPART'):
            self.next()
            self.expect('(')
            args = []
            while not self.accept(')'):
                args.append(self.value())
                self.accept(',')
            return ('fn', v, args)
        if self.kind() == 'id' and self.peek(1) == '(' and not v.startswith('__MEM') and \
                v not in ('_Literal', '__VIEW_CONVERT', '__BIT_FIELD_REF'):
            return self.call()
        a = self.value()
        v = self.peek()
        if v == 'r' and self.peek(1) in ('<<', '>>'):
            self.next()
            return ('fn', '__ROTATE_LEFT' if self.next() == '<<' else '__ROTATE_RIGHT', [a, self.value()])
        if v == 'h' and self.peek(1) == '*':
            self.next()
            self.next()
            return ('fn', '__MULT_HIGHPART', [a, self.value()])
        if v == 'w' and self.peek(1) == '*':
            self.next()
            self.next()
            return ('fn', 'w*', [a, self.value()])
        u = self.UOPS.get((v, self.peek(1))) or self.UOPS.get((v,))
        if u:
            self.next()
            if (v, self.peek()) in self.UOPS:
                self.next()
            self.t.insert(self.i, ('op', u))
            v = u
        if self.kind() == 'num' and v.startswith('-'):
            # a -1 tokenised as number
            raise ParseError('neg num')
        if v in self.BIN:
            self.next()
            b = self.value()
            if self.peek() == '?':
                self.next()
                x = self.value()
                self.expect(':')
                y = self.value()
                return ('cond', ('bin', v, a, b), x, y)
            return ('bin', v, a, b)
        if v == '?':
            self.next()
            x = self.value()
            self.expect(':')
            y = self.value()
            return ('cond', a, x, y)
        return ('val', a)

    def call(self):
        name = self.next()
        self.expect('(')
        args = []
        while not self.accept(')'):
            args.append(self.value())
            self.accept(',')
        return ('call', name, args)


class Fn:
    def __init__(self, name):
        self.name = name
        self.params = []     # (name, type)
        self.ret = None
        self.decls = {}      # full name -> type
        self.base = {}       # base name -> set of types
        self.blocks = {}     # id -> list of stmts
        self.order = []
        self.edges = {}


class Module:
    def __init__(self, text):
        self.fns = {}
        self.errors = {}
        self.parse(text)

    def parse(self, text):
        text = re.sub(r'^Removing basic block.*$', '', text, flags=re.M)
        # calls of declared function templates: a plain name
        text = re.sub(r'\bstd::(\w+)<(float|double)>(?=D_\d+ ?\()', r'std::\1_\2', text)
        text = re.sub(r' \[(tail call|return slot optimization|must tail call)\]', '', text)
        # split on functions: a line matching  '... __GIMPLE ('
        parts = re.split(r'^(?=[^\n]*__GIMPLE \()', text, flags=re.M)
        for p in parts[1:]:
            m = re.match(r'([^\n]*?) ?__GIMPLE \([^\n]*\)\n([^\n(]*?) \(', p)
            if not m:
                continue
            name = m.group(2).strip()
            nm = strip_uid(name)
            try:
                self.fns[nm] = self.parse_fn(nm, m.group(1), p[m.start(2):])
                self.fns[nm].fullname = name
            except ParseError as e:
                self.errors[nm] = str(e)

    def mkp(self, s):
        return P(tokenize(s), self)

    def parse_fn(self, name, ret, body):
        f = Fn(name)
        try:
            f.ret = self.mkp(ret).type() if ret.strip() else ('void',)
        except ParseError:
            f.ret = ('void',)
        i = body.index('(')
        depth = 0
        for j in range(i, len(body)):
            if body[j] == '(':
                depth += 1
            elif body[j] == ')':
                depth -= 1
                if depth == 0:
                    break
        plist = body[i + 1:j]
        p = self.mkp(plist)
        while p.kind() != 'end':
            if p.peek() == 'void' and p.kind(1) == 'end':
                break
            ty = p.type()
            if p.kind() == 'id' and p.peek() not in (',',):
                nm = p.next()
            else:
                nm = '<anon>'
            f.params.append((nm, ty))
            p.accept(',')
        k = body.index('{', j)
        lines = f.text = body[k + 1:]
        # join statements up to ';' or ':' labels
        cur = []
        blk = None
        stmts = self.split_stmts(lines)
        pend = None
        for s in stmts:
            if s.startswith('__BB('):
                m = re.match(r'__BB\((\d+)(.*)\)$', s, re.S)
                blk = int(m.group(1))
                f.blocks[blk] = []
                f.order.append(blk)
                lm = re.search(r'loop_header\((\d+)\)', m.group(2))
                if lm:
                    f.base.setdefault('#loops', set()).add(blk)
                continue
            if blk is None:
                self.decl(f, s)
                continue
            st = self.stmt(s)
            if st:
                f.blocks[blk] += st[1] if st[0] == 'multi' else [st]
        return f

    def split_stmts(self, text):
        out = []
        buf = ''
        instr = False
        depth = 0
        i = 0
        n = len(text)
        while i < n:
            ch = text[i]
            if instr:
                buf += ch
                if ch == '\\':
                    buf += text[i + 1]
                    i += 1
                elif ch == '"':
                    instr = False
            elif ch == '"':
                instr = True
                buf += ch
            elif ch == '{':
                depth += 1
                buf += ch
            elif ch == '}':
                if depth == 0:
                    break
                depth -= 1
                buf += ch
            elif ch == ';' and depth == 0:
                out.append(buf.strip())
                buf = ''
            elif ch == ':' and depth == 0 and buf.strip().startswith('__BB(') and buf.count('(') == buf.count(')'):
                out.append(buf.strip())
                buf = ''
            else:
                buf += ch
            i += 1
        return [s for s in out if s]

    def decl(self, f, s):
        if s.startswith('goto '):
            return
        s = re.sub(r'\[\d+\]$', lambda m: ' ' + m.group(0), s)
        s = re.sub(r'^(static|register|extern)\s+', '', s)
        s = re.sub(r'\s*=\s*.*$', '', s, flags=re.S)
        try:
            p = self.mkp(s)
            ty = p.type()
            nm = p.next()
            if p.accept('['):
                n = p.num(p.next())
                p.expect(']')
                ty = ('arr', n, ty)
        except (ParseError, ValueError):
            nm = s.split()[-1]
            ty = ('opaque',)
        f.decls[nm] = ty
        f.base.setdefault(strip_uid(nm), set()).add(ty)

    def stmt(self, s):
        s = re.sub(r'^L\d+:\s*', '', s)
        if s.startswith('goto '):
            m = re.match(r'goto __BB(\d+)', s)
            return ('goto', int(m.group(1)))
        if s.startswith('if ('):
            m = re.match(r'if \((.*)\)\s*goto __BB(\d+)(?:\([^)]*\))*$', s, re.S)
            if not m:
                m = re.match(r'if \((.*)\)\s+goto __BB(\d+)', s, re.S)
            p = self.mkp(m.group(1))
            return ('if', p.rhs(), int(m.group(2)))
        if s.startswith('else'):
            m = re.match(r'else\s+goto __BB(\d+)', s)
            return ('else', int(m.group(1)))
        if s.startswith('switch'):
            raise ParseError('switch: ' + s[:80])
        if s == 'return':
            return ('ret', None)
        if s.startswith('return'):
            return ('ret', self.mkp(s[6:]).rhs())
        s = re.sub(r'\s*\[(tail call|return slot optimization|must tail call)\]', '', s)
        if s.startswith('# DEBUG') or s.startswith('__builtin_unreachable') or s == '':
            return ('unreach',) if 'unreach' in s else None
        if re.match(r'__asm__\s+(__volatile__)?\s*\(""\s*:\s*:\s*:\s*("memory")?\)$', s):
            return None
        if re.match(r'__asm__\b', s):
            return self.asm(s)
        if re.match(r'(__builtin_trap|__builtin_abort|abort|__glibcxx_assert_fail|std::__glibcxx_assert_fail)D?[_.]?\d* ?\(', s):
            return ('trap',)
        m = re.match(r'(.+?) =(\{v\})? (.*)$', s, re.S)
        p = None
        if m and self.balanced(m.group(1)):
            r = m.group(3)
            if '{CLOBBER' in r:
                return None
            lhs = self.mkp(m.group(1)).value()
            if r.startswith('__PHI'):
                args = []
                inner = r[r.index('(') + 1:r.rindex(')')]
                for a in self.commas(inner):
                    mm = re.match(r'\s*__BB(\d+): (.*)$', a, re.S)
                    args.append((int(mm.group(1)), self.mkp(mm.group(2)).value()))
                return ('phi', lhs, args)
            p = self.mkp(self.fixneg(r))
            e = p.rhs()
            if p.kind() != 'end':
                raise ParseError('trailing %r in %r' % (p.peek(), s))
            return ('set', lhs, e)
        p = self.mkp(s)
        e = p.rhs()
        if p.kind() != 'end':
            raise ParseError('trailing %r in %r' % (p.peek(), s))
        return ('eval', e)

    def asm(self, s):
        """optimisation barriers and the packed divisions; an output that is not tied to an input is written by the
        template only, so a template that reads it (or is empty) reads an undefined register"""
        m = re.match(r'__asm__\s*(?:__volatile__)?\s*\("((?:[^"\\]|\\.)*)"\s*:(.*)\)$', s, re.S)
        if not m:
            raise ParseError('asm: ' + s[:80])
        secs = m.group(2).split(':')
        if len(secs) > 2 and secs[2].strip() not in ('', '"memory"'):
            raise ParseError('asm clobbers')
        def operands(t):
            out = []
            for a in self.commas(t):
                a = a.strip()
                mm = re.match(r'"([^"]*)"\s*(.*)$', a, re.S)
                if not mm:
                    raise ParseError('asm operand ' + a)
                e = mm.group(2).strip()
                if e.startswith('(') and e.endswith(')'):
                    e = e[1:-1]
                out.append((mm.group(1), self.mkp(e).value()))
            return out
        outs, ins = operands(secs[0]), operands(secs[1] if len(secs) > 1 else '')
        tied = {int(k): e for k, e in ins if k.isdigit()}
        free = [e for k, e in ins if not k.isdigit()]
        st = []
        for j, (k, lhs) in enumerate(outs):
            if k.startswith('=') and 'm' in k and j not in tied and any(q == lhs for q in free):
                free = [q for q in free if q != lhs]
                continue
            st.append(('set', lhs, ('val', tied[j]) if j in tied else ('asmundef',)))
        t = m.group(1).split('|')[0]
        if not t.strip():
            if free:
                raise ParseError('asm inputs')
            return ('multi', st)
        mm = re.match(r'v?divp[sd]\s*\{((?:%\d(?:, )?)+)$', t.replace('\\t', ' '))
        if not mm or len(outs) != 1:
            raise ParseError('asm template ' + t)
        ops = [outs[0][1]] + [e for k, e in ins if not k.isdigit()]
        ix = [int(x) for x in re.findall(r'%(\d)', mm.group(1))]
        # AT&T order: divisor, dividend, destination (two operands: the destination is the dividend)
        if ix[-1] != 0 or len(ix) != (3 if t.startswith('v') else 2):
            raise ParseError('asm operands ' + t)
        st.append(('set', outs[0][1], ('bin', '/', ops[ix[1]], ops[ix[0]])))
        return ('multi', st)

    def fixneg(self, r):
        return r

    def balanced(self, s):
        return s.count('(') == s.count(')') and s.count('<') == s.count('>')

    def commas(self, s):
        out = []
        d = 0
        b = ''
        for ch in s:
            if ch in '({[':
                d += 1
            elif ch in ')}]':
                d -= 1
            if ch == ',' and d == 0:
                out.append(b)
                b = ''
            else:
                b += ch
        if b.strip():
            out.append(b)
        return out


if __name__ == '__main__':
    import sys
    for fn in sys.argv[1:]:
        m = Module(open(fn).read())
        for k, e in m.errors.items():
            print(fn, k, e[:300])
        print(fn, len(m.fns), len(m.errors))
