"""Front end for the part of the project that is written in its own language: the library below
Projects/Library.  The scripts are parsed with the grammar of Core/AST/TreeGenerator.cpp and written down in
the same form the C++ front end produces, so that one engine judges both."""
import os

KEYWORDS = {'assert', 'break', 'case', 'cast', 'catch', 'continue', 'copy', 'default', 'delete', 'do', 'else', 'exit', 'finally', 'for', 'foreach', 'if',
            'new', 'print', 'return', 'streval', 'switch', 'throw', 'try', 'typeid', 'var', 'while'}
VISIBILITY = {'public', 'protected', 'private'}
LAYOUT = {'abstract', 'final', 'static', 'virtual'}
FEATURE = {'deprecated', 'notimplemented', 'stable', 'unknown', 'unstable'}
MUTABILITY = {'const', 'modify'}
ACCESS = {'ref', 'val', 'ByReference', 'ByValue', 'reference', 'value!'}
NUMERIC = {'int', 'int16', 'int32', 'int64', 'integer', 'short', 'float', 'double'}
ATOMIC = NUMERIC | {'bool', 'string', 'char', 'void'}
ASSIGN = {'=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '~='}
# extension functions without an effect of their own
PURE = {'strlen', 'strfind', 'substr', 'ltrim', 'rtrim', 'trim', 'tolower', 'toupper', 'to_lower', 'to_upper', 'charat', 'char_at', 'replace', 'replace_all', 'ascii', 'chr',
        'is_digit', 'abs', 'pow', 'sqrt', 'floor', 'ceil', 'round', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'ln', 'log', 'log10', 'mod', 'fmod', 'cbrt', 'nan',
        'sinh', 'cosh', 'tanh', 'json_has_member', 'atoi', 'atof', 'rand_max', 'strftime', 'PathSeparator', 'to_json', 'EOF', 'is_bool', 'is_string',
        'toLower', 'toUpper', 'strltrim', 'strrtrim', 'strlpad', 'strrpad', 'strcmp', 'strncmp', 'strcasecmp', 'strncasecmp', 'acosh', 'asinh', 'atanh', 'atan2', 'copysign',
        'exp2', 'expm1', 'fabs', 'fdim', 'fma', 'fmax', 'fmin', 'hypot', 'log2', 'log1p', 'trunc'}
# result types of extension functions with one variant
RESULT = {'strlen': 'int', 'strfind': 'int', 'substr': 'string', 'ltrim': 'string', 'rtrim': 'string', 'trim': 'string', 'tolower': 'string', 'toupper': 'string',
          'toLower': 'string', 'toUpper': 'string', 'strltrim': 'string', 'strrtrim': 'string', 'strlpad': 'string', 'strrpad': 'string', 'ascii': 'string', 'strcmp': 'int', 'strncmp': 'int',
          'strcasecmp': 'int', 'strncasecmp': 'int', 'getenv': 'string', 'fopen': 'int', 'fclose': 'int', 'feof': 'int', 'ftell': 'int', 'freads': 'string', 'freadi': 'int',
          'freadb': 'bool', 'freadd': 'double', 'freadf': 'float', 'fwriteb': 'int', 'fwrited': 'int', 'fwritef': 'int', 'fwritei': 'int', 'fwrites': 'int', 'accept': 'int', 'bind': 'int',
          'close': 'int', 'connect': 'int', 'listen': 'int', 'socket': 'int', 'shutdown': 'int', 'reads': 'string', 'readi': 'int', 'readb': 'bool', 'readd': 'double', 'readf': 'float',
          'writeb': 'int', 'writed': 'int', 'writef': 'int', 'writei': 'int', 'writes': 'int', 'rand': 'int', 'fork': 'int', 'wait': 'int', 'remove': 'int', 'rename': 'int', 'system': 'string'}


class ParseError(Exception):
    pass


# ------------------------------------------------------------------------------------ tokens
THREE = ('===', '!==')
TWO = ('==', '!=', '<=', '>=', '&&', '||', '!&', '!|', '++', '--', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '~=', '..', '<<')


class Tok:
    __slots__ = ('t', 'v', 'l')

    def __init__(self, t, v, l):
        self.t, self.v, self.l = t, v, l

    def __repr__(self):
        return '%s:%r@%d' % (self.t, self.v, self.l)


def tokenize(s):
    out, i, line, n = [], 0, 1, len(s)
    while i < n:
        c = s[i]
        if c == '\n':
            line += 1
            i += 1
        elif c.isspace() or c == '﻿':
            i += 1
        elif c == '#' or s.startswith('//', i):
            while i < n and s[i] != '\n':
                i += 1
        elif s.startswith('/*', i):
            j = s.find('*/', i + 1)         # like the tokenizer: the opening star may close the comment
            j = n if j < 0 else j + 2
            line += s.count('\n', i, j)
            i = j
        elif c == '"':
            j, buf, l = i + 1, [], line
            while j < n and s[j] != '"':
                if s[j] == '\\' and j + 1 < n:
                    buf.append('\\' + s[j + 1])
                    j += 2
                    continue
                if s[j] == '\n':
                    line += 1
                buf.append(s[j])
                j += 1
            out.append(Tok('str', ''.join(buf), l))
            i = j + 1
        elif c.isdigit():
            j = i
            while j < n and s[j].isdigit():
                j += 1
            fl = False
            if j + 1 < n and s[j] == '.' and s[j + 1].isdigit():
                fl = True
                j += 1
                while j < n and s[j].isdigit():
                    j += 1
            v = s[i:j]
            t = 'float' if fl else 'int'
            ty = 'float' if fl else 'int'
            if j < n and s[j] in 'dfisl' and not (j + 1 < n and (s[j + 1].isalnum() or s[j + 1] == '_')):
                if s[j] in 'df':
                    t = 'float'
                    ty = 'double' if s[j] == 'd' else 'float'
                j += 1
            out.append(Tok(t, (v, ty), line))
            i = j
        elif c.isalpha() or c == '_':
            j = i
            while j < n and (s[j].isalnum() or s[j] == '_'):
                j += 1
            w = s[i:j]
            i = j
            if w == 'operator':
                while i < n and s[i] in ' \t':
                    i += 1
                k = i
                if s[k] in '[(':
                    m = s.index(')' if s[k] == '(' else ']', k)
                    if s[k + 1:m].strip() == '':
                        i = m + 1
                        w += s[k] + (')' if s[k] == '(' else ']')
                else:
                    while k < n and s[k] in '+-*/%=<>!&|~^':
                        k += 1
                    w += s[i:k]
                    i = k
                if w == 'operator' and out and out[-1].t == 'op' and out[-1].v == '=':
                    out.pop()
                    w = '=operator'
            out.append(Tok('id', w, line))
        else:
            for ops in (THREE, TWO):
                m = s[i:i + len(ops[0])]
                if m in ops:
                    out.append(Tok('op', m, line))
                    i += len(m)
                    break
            else:
                out.append(Tok('op', c, line))
                i += 1
    out.append(Tok('eof', '', line))
    return out


# ------------------------------------------------------------------------------------ parser
class Parser:
    """-> declarations with raw statement and expression trees (names not yet looked up)"""

    def __init__(self, text):
        self.k = tokenize(text)
        self.i = 0

    def p(self, n=0):
        j = self.i + n
        return self.k[j] if j < len(self.k) else self.k[-1]

    def nx(self):
        t = self.p()
        self.i += 1
        return t

    def is_(self, v, n=0):
        t = self.p(n)
        return t.v == v and t.t in ('op', 'id')

    def take(self, v):
        if self.is_(v):
            return self.nx()
        return None

    def need(self, v):
        t = self.take(v)
        if t is None:
            raise ParseError("line %d: '%s' expected but '%s' found" % (self.p().l, v, self.p().v))
        return t

    def ident(self):
        t = self.nx()
        if t.t != 'id':
            raise ParseError("line %d: name expected but '%s' found" % (t.l, t.v))
        return t.v

    # ---- declarations
    def file(self):
        out = []
        while self.p().t != 'eof':
            d = self.decl()
            if d is not None:
                out.append(d)
        return out

    def decl(self):
        if self.take(';'):
            return None
        l = self.p().l
        if self.is_('import') or self.is_('using'):
            while not self.take(';'):
                self.nx()
            return None
        mods = set()
        while self.p().t == 'id' and self.p().v in VISIBILITY | LAYOUT | FEATURE | {'extern', 'override', 'replicate', 'replicated', 'stringify'}:
            mods.add(self.nx().v)
        if self.take('namespace'):
            name = self.ident()
            while self.take('.'):
                name += '.' + self.ident()
            return {'d': 'ns', 'n': name, 'm': self.members(), 'l': l}
        if self.is_('enum'):
            self.nx()
            name = self.ident()
            items, v = [], 0
            self.need('{')
            while not self.take('}'):
                n = self.ident()
                if self.take('='):
                    sign = -1 if self.take('-') else 1
                    v = sign * int(self.nx().v[0])
                items.append([n, v])
                v += 1
                if not self.take(','):
                    self.take(';')
            return {'d': 'enum', 'n': name, 'c': items, 'l': l}
        if self.is_('object') or self.is_('interface'):
            kind = self.nx().v
            name = self.ident()
            gen = self.generics() if self.is_('<') else []
            while self.p().t == 'id' and self.p().v in MUTABILITY:
                mods.add(self.nx().v)
            bases = []
            while self.is_('extends') or self.is_('implements') or self.is_('replicates'):
                self.nx()
                while True:
                    while self.p().t == 'id' and self.p().v in VISIBILITY:
                        self.nx()
                    bases.append(self.type())
                    if not self.take(','):
                        break
            if self.take(';'):
                if not bases:
                    return None
                return {'d': 'class', 'n': name, 'b': bases, 'm': [], 'l': l, 'if': kind == 'interface', 'g': [g['n'] for g in gen], 'mods': mods}
            return {'d': 'class', 'n': name, 'b': bases, 'm': self.members(), 'l': l, 'if': kind == 'interface', 'g': [g['n'] for g in gen], 'mods': mods}
        t = self.type()
        while self.p().t == 'id' and self.p().v in MUTABILITY:
            self.nx()
        name = self.ident()
        if self.is_('('):
            ps = self.params()
            while self.p().t == 'id' and self.p().v in MUTABILITY | {'throws', 'throw', 'nothrow'} | LAYOUT:
                mods.add(self.nx().v)
            body, end = None, self.p().l
            if self.is_('{'):
                body = self.block()
                end = self.k[self.i - 1].l
            else:
                self.need(';')
            return {'d': 'func', 'n': name, 't': t, 'p': ps, 'mods': mods, 'b': body, 'l': l, 'e': end}
        while self.p().t == 'id' and self.p().v in MUTABILITY | ACCESS:
            mods.add(self.nx().v)
        init = None
        if self.take('='):
            init = self.expr()
        self.need(';')
        return {'d': 'field', 'n': name, 't': t, 'i': init, 'l': l, 'mods': mods}

    def members(self):
        out = []
        self.need('{')
        while not self.take('}'):
            if self.p().t == 'eof':
                raise ParseError('line %d: unexpected end of file' % self.p().l)
            d = self.decl()
            if d is not None:
                out.append(d)
        return out

    def type(self):
        n = self.ident()
        while self.is_('.') and self.p(1).t == 'id':
            self.nx()
            n += '.' + self.ident()
        return {'n': n, 'g': self.generics() if self.is_('<') else []}

    def generics(self):
        self.need('<')
        out = []
        while True:
            out.append(self.type())
            while self.p().t == 'id' and self.p().v in MUTABILITY:
                self.nx()
            if self.take(':'):          # a constraint of the parameter
                self.type()
            if self.take(','):
                continue
            self.need('>')
            return out

    def params(self):
        out = []
        self.need('(')
        while not self.take(')'):
            t = self.type()
            n, ref = '', False
            while self.p().t == 'id' and self.p().v in MUTABILITY:
                self.nx()
            if self.p().t == 'id':
                n = self.nx().v
            while self.p().t == 'id' and self.p().v in MUTABILITY | ACCESS:
                ref |= self.nx().v in ('ref', 'reference', 'ByReference')
            d = self.expr() if self.take('=') else None
            out.append({'n': n, 't': t, 'ref': ref, 'd': d, 'l': self.p().l})
            self.take(',')
        return out

    # ---- statements
    def block(self):
        l = self.need('{').l
        out = []
        while not self.take('}'):
            if self.p().t == 'eof':
                raise ParseError('line %d: unexpected end of file' % self.p().l)
            out.append(self.stmt())
        return {'k': 'block', 'b': out, 'l': l}

    def paren(self):
        self.need('(')
        e = self.expr()
        self.need(')')
        return e

    def stmt(self):
        t = self.p()
        l = t.l
        if t.t == 'op':
            if t.v == '{':
                return self.block()
            if t.v == ';':
                self.nx()
                return {'k': 'nop', 'l': l}
        if t.t == 'id' and t.v in KEYWORDS and t.v not in ('cast', 'copy', 'new', 'streval', 'typeid'):
            self.nx()
            if t.v == 'if':
                r = {'k': 'if', 'c': self.paren(), 'l': l}
                r['a'] = self.stmt()
                if self.take('else'):
                    r['b'] = self.stmt()
                return r
            if t.v == 'while':
                c = self.paren()
                return {'k': 'while', 'c': c, 'b': self.stmt(), 'l': l}
            if t.v == 'for':
                self.need('(')
                r = {'k': 'for', 'l': l}
                if not self.take(';'):
                    r['init'] = self.simple()
                    self.need(';')
                if not self.is_(';'):
                    r['c'] = self.expr()
                self.need(';')
                if not self.is_(')'):
                    r['inc'] = self.expr()
                self.need(')')
                r['b'] = self.stmt()
                return r
            if t.v == 'foreach':
                self.need('(')
                ty = None if self.take('var') else self.type()
                n = self.ident()
                while self.p().t == 'id' and self.p().v in MUTABILITY | ACCESS:
                    self.nx()
                self.need(':')
                r = self.expr()
                self.need(')')
                return {'k': 'foreach', 't': ty, 'n': n, 'r': r, 'b': self.stmt(), 'l': l}
            if t.v == 'switch':
                r = {'k': 'switch', 'c': self.paren(), 'cases': [], 'l': l}
                self.need('{')
                while not self.take('}'):
                    c = None
                    cl = self.p().l
                    if self.take('default') is None:
                        self.need('case')
                        c = self.expr()
                    self.need(':')
                    r['cases'].append((c, self.block(), cl))
                return r
            if t.v == 'try':
                r = {'k': 'try', 'b': self.block(), 'h': [], 'l': l}
                while self.is_('catch') or self.is_('finally'):
                    if self.nx().v == 'finally':
                        r['fin'] = self.block()
                        continue
                    h = {}
                    if self.take('('):
                        h['t'] = self.type()
                        if self.p().t == 'id':
                            h['n'] = self.ident()
                        while self.p().t == 'id' and self.p().v in MUTABILITY | ACCESS:
                            self.nx()
                        self.need(')')
                    h['b'] = self.block()
                    r['h'].append(h)
                return r
            if t.v in ('break', 'continue'):
                self.need(';')
                return {'k': t.v, 'l': l}
            if t.v in ('return', 'throw'):
                r = {'k': t.v, 'l': l}
                if not self.is_(';'):
                    r['e'] = self.expr()
                self.need(';')
                return r
            if t.v in ('print', 'assert', 'delete', 'exit'):
                r = {'k': t.v, 'l': l}
                if not self.is_(';'):
                    if t.v == 'print' and self.is_('(') and self.is_(')', 1):
                        self.i += 2
                    else:
                        r['e'] = self.expr()
                self.need(';')
                return r
            if t.v == 'var':
                self.i -= 1
            else:
                raise ParseError("line %d: unexpected keyword '%s'" % (l, t.v))
        s = self.simple()
        self.take(';')
        return s

    def is_decl(self):
        """a type followed by a name"""
        if self.p().t != 'id' or self.p().v in ('new', 'cast', 'copy', 'typeid', 'this', 'base'):
            return False
        save = self.i
        try:
            self.type()
            return self.p().t == 'id' and self.p().v not in ('is',) and (self.p(1).v in (';', '=', ':') or self.p(1).v in MUTABILITY | ACCESS)
        except (ParseError, IndexError):
            return False
        finally:
            self.i = save

    def simple(self):
        l = self.p().l
        if self.is_('var') or self.is_decl():
            ty = None if self.take('var') else self.type()
            n = self.ident()
            ref = False
            while self.p().t == 'id' and self.p().v in MUTABILITY | ACCESS:
                ref |= self.nx().v in ('ref', 'reference')
            return {'k': 'vdecl', 't': ty, 'n': n, 'ref': ref, 'i': self.expr() if self.take('=') else None, 'l': l}
        return {'k': 'expr', 'e': self.expr(), 'l': l}

    # ---- expressions
    def expr(self):
        e = self.condition()
        while self.p().t == 'op' and self.p().v in ('&&', '||', '!&', '!|'):
            o = self.nx()
            e = {'k': 'bin', 'op': o.v, 'a': e, 'b': self.condition(), 'l': o.l}
        return e

    def condition(self):
        e = self.sum()
        while self.p().t == 'op' and self.p().v in ('==', '!=', '<', '<=', '>', '>=', '===', '!=='):
            o = self.nx()
            e = {'k': 'bin', 'op': o.v, 'a': e, 'b': self.sum(), 'l': o.l}
        return e

    def sum(self):
        e = self.factor()
        while self.p().t == 'op' and (self.p().v in ('+', '-', '&', '|', '~', '<<') or self.is_('>') and self.is_('>', 1)):
            o = self.nx()
            v = o.v
            if v == '>':
                self.nx()
                v = '>>'
            e = {'k': 'bin', 'op': v, 'a': e, 'b': self.factor(), 'l': o.l}
        return e

    def factor(self):
        e = self.infix()
        while self.p().t == 'op' and self.p().v in ('*', '/', '%'):
            o = self.nx()
            e = {'k': 'bin', 'op': o.v, 'a': e, 'b': self.infix(), 'l': o.l}
        return e

    def infix(self):
        t = self.p()
        if t.t == 'op' and t.v in ('+', '-', '!', '~'):
            self.nx()
            e = self.suffix(self.term())
            return self.postfix({'k': 'un', 'op': t.v, 'e': e, 'l': t.l})
        if t.t == 'op' and t.v in ('++', '--'):
            self.nx()
            return {'k': 'un', 'op': t.v, 'e': self.suffix(self.term()), 'l': t.l}
        return self.postfix(self.suffix(self.term()))

    def postfix(self, e):
        while True:
            t = self.p()
            if t.t == 'id' and t.v == 'is':
                self.nx()
                e = {'k': 'is', 'e': e, 't': self.type(), 'l': t.l}
            elif t.t == 'op' and t.v == '..':
                self.nx()
                e = {'k': 'bin', 'op': '..', 'a': e, 'b': self.sum(), 'l': t.l}
            elif t.t == 'op' and t.v == '?':
                self.nx()
                a = e if self.is_(':') else self.expr()
                self.need(':')
                return {'k': 'cond', 'c': e, 'a': a, 'b': self.expr(), 'l': t.l}
            elif t.t == 'op' and t.v == '!' and not (self.p(1).t == 'op' and self.p(1).v in ('=', '&', '|')):
                self.nx()
                e = {'k': 'un', 'op': 'p!', 'e': e, 'l': t.l}
            else:
                n = self.suffix(e)
                if n is e:
                    return e
                e = n

    def suffix(self, e):
        while True:
            t = self.p()
            if t.t != 'op':
                return e
            if t.v == '.' and self.p(1).t == 'id':
                self.nx()
                e = {'k': 'dot', 'b': e, 'n': self.ident(), 'l': t.l}
            elif t.v == '(' and e['k'] in ('name', 'dot'):
                e = {'k': 'callx', 'f': e, 'a': self.args(), 'l': t.l}
            elif t.v == '[':
                self.nx()
                i = self.expr()
                self.need(']')
                e = {'k': 'sub', 'b': e, 'i': i, 'l': t.l}
            elif t.v in ('++', '--'):
                self.nx()
                e = {'k': 'un', 'op': 'p' + t.v, 'e': e, 'l': t.l}
            elif t.v in ASSIGN:
                self.nx()
                return {'k': 'asg', 'op': t.v, 'a': e, 'b': self.expr(), 'l': t.l}
            else:
                return e

    def args(self):
        out = []
        self.need('(')
        while not self.take(')'):
            out.append(self.expr())
            if not self.take(',') and not self.is_(')'):
                raise ParseError("line %d: ')' expected but '%s' found" % (self.p().l, self.p().v))
        return out

    def starts_value(self):
        t = self.p()
        if t.t in ('int', 'float', 'str'):
            return True
        return t.t == 'id' and t.v not in ('is',) and (t.v not in KEYWORDS or t.v in ('new', 'copy', 'cast', 'streval', 'typeid'))

    def term(self):
        t = self.p()
        l = t.l
        if t.t == 'op' and t.v == '(':
            self.nx()
            e = self.expr()
            self.need(')')
            return e
        self.nx()
        if t.t == 'str':
            return {'k': 'str', 'v': t.v, 'l': l}
        if t.t == 'int':
            return {'k': 'int', 'v': int(t.v[0]), 't': 'int', 'l': l}
        if t.t == 'float':
            return {'k': 'float', 'v': float(t.v[0]), 't': t.v[1], 'l': l}
        if t.t != 'id':
            raise ParseError("line %d: expression expected but '%s' found" % (l, t.v))
        if t.v in ('true', 'false'):
            return {'k': 'bool', 'v': t.v == 'true', 'l': l}
        if t.v == 'null':
            return {'k': 'null', 'l': l}
        if t.v == 'new':
            ty = self.type()
            return {'k': 'newx', 't': ty, 'a': self.args() if self.is_('(') else [], 'l': l}
        if t.v == 'cast':
            self.need('<')
            ty = self.type()
            self.need('>')
            return {'k': 'castx', 't': ty, 'e': self.paren(), 'l': l}
        if t.v == 'copy':
            return {'k': 'copyx', 'e': self.expr(), 'l': l}
        if t.v == 'streval':
            return {'k': 'castx', 't': {'n': 'string', 'g': []}, 'e': self.paren(), 'l': l}
        if t.v == 'typeid':
            return {'k': 'typeidx', 'e': self.paren(), 'l': l}
        if t.v in KEYWORDS:
            raise ParseError("line %d: unexpected '%s'" % (l, t.v))
        # a type name in front of a value converts it
        if t.v not in ('this', 'base'):
            save = self.i
            self.i -= 1
            try:
                ty = self.type()
                if self.starts_value():
                    return {'k': 'castx', 't': ty, 'e': self.expr(), 'l': l}
                if ty['g'] and self.is_('.'):
                    return {'k': 'name', 'n': ty['n'], 'l': l}
            except (ParseError, IndexError):
                pass
            self.i = save
        return {'k': 'name', 'n': t.v, 'l': l}


# ------------------------------------------------------------------------------------ lowering
class Instance(str):
    """name of a class together with its type arguments"""
    g = ()


class Library:
    def __init__(self):
        self.classes = {}       # q -> {name, proj, bases, fields, methods, g, file}
        self.byname = {}        # name -> [q]
        self.enums = {}         # q -> {name: value}
        self.funcs = {}         # name -> [record]
        self.globals = {}       # name -> [record]
        self.files = []

    # ---- collecting
    def add(self, file, decls):
        proj = file.split('/')[2] if file.count('/') > 2 else 'Main'
        self.files.append((file, proj, decls))
        self.collect(file, proj, decls, '')

    def collect(self, file, proj, decls, outer):
        for d in decls:
            if d['d'] == 'ns':
                self.collect(file, proj, d['m'], outer)
            elif d['d'] == 'enum':
                q = self.unique('os::%s::%s%s' % (proj, outer, d['n']), self.enums, file)
                d['q'] = q
                d['file'] = file
                self.enums[q] = d
                self.byname.setdefault(d['n'], []).append(q)
            elif d['d'] == 'class':
                q = self.unique('os::%s::%s%s' % (proj, outer, d['n']), self.classes, file)
                d['q'], d['file'], d['proj'] = q, file, proj
                self.classes[q] = d
                self.byname.setdefault(d['n'], []).append(q)
                d['fields'] = {m['n']: m for m in d['m'] if m['d'] == 'field'}
                d['methods'] = {}
                for m in d['m']:
                    if m['d'] == 'func':
                        d['methods'].setdefault(m['n'], []).append(m)
                        m['cls'] = d
                        m['file'] = file
                self.collect(file, proj, [m for m in d['m'] if m['d'] in ('class', 'enum')], outer + d['n'] + '::')
            elif d['d'] == 'func':
                d['cls'] = None
                d['file'], d['proj'] = file, proj
                self.funcs.setdefault(d['n'], []).append(d)
            elif d['d'] == 'field':
                d['file'], d['proj'] = file, proj
                self.globals.setdefault(d['n'], []).append(d)

    @staticmethod
    def unique(q, table, file):
        if q not in table:
            return q
        parts = q.rsplit('::', 1)
        stem = os.path.basename(os.path.dirname(file)) + '_' + os.path.basename(file)[:-3]
        return '%s::%s::%s' % (parts[0], stem.replace('-', '_').replace('.', '_'), parts[1])

    # ---- looking up
    def nearest(self, cands, file, get):
        """of several declarations with one name the one closest to the file that uses it"""
        if len(cands) <= 1:
            return cands[0] if cands else None

        def common(c):
            f = get(c)
            n = 0
            for a, b in zip(f.split('/'), file.split('/')):
                if a != b:
                    break
                n += 1
            return (f == file, n, f.split('/')[2] == 'System')
        return max(cands, key=common)

    def type_q(self, name, file):
        n = name.rsplit('.', 1)[-1]
        return self.nearest(self.byname.get(n, []), file, lambda q: (self.classes.get(q) or self.enums.get(q))['file'])

    def resolve_type(self, t, file, gens=(), bound=None):
        """-> atomic name, 'os::…' of a class or enum, or None"""
        if t is None:
            return None
        n = t['n']
        if n in ATOMIC:
            return {'integer': 'int', 'int32': 'int'}.get(n, n)
        if n in gens:
            return (bound or {}).get(n)
        q = self.type_q(n, file)
        if q and t['g']:
            q = Instance(q)
            q.g = tuple(self.resolve_type(g, file, gens, bound) for g in t['g'])
        return q

    def bound(self, ty, c, depth=0):
        """the types that stand for the type parameters of class c in an object of type ty"""
        d = self.classes.get(ty)
        if d is None or depth > 8:
            return {}
        own = dict(zip(d['g'], getattr(ty, 'g', ())))
        if d is c:
            return own
        for b in d['b']:
            t = self.resolve_type(b, d['file'], d['g'], own)
            if t in self.classes and c in self.ancestors(t):
                return self.bound(t, c, depth + 1)
        return {}

    def cspell(self, q):
        """C++ type of values of a known type"""
        if q in self.classes:
            return q + ' *'
        return {'string': 'std::string', 'int16': 'short', 'int64': 'long'}.get(q, str(q))

    def member_type(self, t, c, ty):
        """-> (C++ type, type) of a member of class c with declared type t in an object of type ty"""
        q = self.resolve_type(t, c['file'], c['g'], self.bound(ty, c))
        if t is not None and t['n'] in c['g'] and q is not None:
            return self.cspell(q), q
        return self.ctype(t, c['file'], c['g']), q

    def ancestors(self, q):
        """the class and the ones it is derived from, nearest first"""
        out, todo = [], [q]
        while todo:
            x = todo.pop(0)
            c = self.classes.get(x)
            if c is None or c in out:
                continue
            out.append(c)
            for b in c['b']:
                y = self.type_q(b['n'], c['file'])
                if y:
                    todo.append(y)
        return out

    def field(self, q, name):
        for c in self.ancestors(q):
            if name in c['fields']:
                return c, c['fields'][name]
        return None

    def method(self, q, name, types, skip_own=False):
        for c in self.ancestors(q)[1 if skip_own else 0:]:
            m = self.choose(c['methods'].get(name, []), types, c['file'], c['g'])
            if m is not None:
                return m
        return None

    def conversion(self, q, to):
        """the typecast operator of a class"""
        for c in self.ancestors(q):
            for m in c['methods'].get('=operator', []):
                if len(m['p']) == 1 and self.resolve_type(m['p'][0]['t'], m['file'], c['g']) == to:
                    return m
        return None

    def choose(self, cands, types, file, gens=()):
        ok = []
        for m in cands:
            need = sum(1 for p in m['p'] if p['d'] is None)
            if not need <= len(types) <= len(m['p']):
                continue
            score = 0
            for p, t in zip(m['p'], types):
                pt = self.resolve_type(p['t'], m['file'], gens)
                if pt is not None and t is not None:
                    if pt == t:
                        score += 2
                    elif pt in NUMERIC and t in NUMERIC:
                        score += 1
                    elif t in self.classes and pt in self.classes and any(c['q'] == pt for c in self.ancestors(t)):
                        score += 1
                    else:
                        score -= 4
            ok.append((score, -len(m['p']), m))
        if not ok:
            return None
        best = max(ok, key=lambda x: x[:2])
        return best[2]

    # ---- names
    def ctype(self, t, file, gens, ref=False):
        q = self.resolve_type(t, file, gens)
        if q is None:
            s = 'os::T *' if t is not None and t['n'] in gens else 'os::%s *' % (t['n'].replace('.', '::') if t else 'var')
        elif q == 'string':
            s = 'std::string'
        elif q in self.classes:
            s = q + ' *'
        elif q in self.enums:
            s = q
        else:
            s = {'int16': 'short', 'int64': 'long'}.get(q, q)
        return s + ' &' if ref and not s.endswith('*') else s

    def fid(self, m):
        if 'id' not in m:
            c = m['cls']
            gens = c['g'] if c else ()
            m['q'] = (c['q'] if c else 'os::%s' % m['proj']) + '::' + m['n']
            m['id'] = m['q'] + '(' + ','.join(self.ctype(p['t'], m['file'], gens, p['ref']) for p in m['p']) + ')'
            if 'const' in m['mods'] or (m['cls'] and 'modify' not in m['mods'] and m['n'] not in ('Constructor', 'Destructor')):
                m['id'] += ' const'
        return m['id']

    # ---- records
    def records(self):
        out = []
        for q, e in self.enums.items():
            out.append({'kind': 'enum', 'q': q, 'file': e['file'], 'line': e['l'], 'c': e['c']})
        for q, c in self.classes.items():
            ms = []
            for m in (m for l in c['methods'].values() for m in l):
                acc = next((v for v in VISIBILITY if v in m['mods']), 'private')
                ms.append({'id': self.fid(m), 'n': m['n'], 'v': 0 if 'static' in m['mods'] else 1, 'pure': 1 if m['b'] is None else 0, 'acc': acc,
                           'st': 1 if 'static' in m['mods'] else 0, 'del': 0, 'dft': 0})
            lo = Lower(self, c, None, c['file'])
            fields = []
            for f in c['fields'].values():
                r = {'n': f['n'], 't': self.ctype(f['t'], c['file'], c['g'])}
                if f['i'] is not None:
                    r['i'] = lo.e(f['i'])[0]
                fields.append(r)
            bases = [b for b in (self.type_q(x['n'], c['file']) for x in c['b']) if b]
            out.append({'kind': 'class', 'q': q, 'file': c['file'], 'line': c['l'], 'bases': bases, 'fields': fields, 'methods': ms})
            for l in c['methods'].values():
                for m in l:
                    if m['b'] is not None:
                        out.append(self.function(m))
        for l in self.funcs.values():
            for m in l:
                if m['b'] is not None:
                    out.append(self.function(m))
        for l in self.globals.values():
            for g in l:
                r = {'kind': 'global', 'q': 'os::%s::%s' % (g['proj'], g['n']), 't': self.ctype(g['t'], g['file'], ()), 'file': g['file'], 'line': g['l']}
                if g['i'] is not None:
                    r['i'] = Lower(self, None, None, g['file']).e(g['i'])[0]
                out.append(r)
        return out

    def function(self, m):
        fid = self.fid(m)
        c = m['cls']
        r = {'kind': 'func', 'f': m['q'], 'id': fid, 'file': m['file'], 'line': m['l'], 'end': m['e'], 'name': m['n'],
             'ret': self.ctype(m['t'], m['file'], c['g'] if c else ()), 'p': [], 'ov': []}
        if c:
            r['cls'] = c['q']
            r['acc'] = next((v for v in VISIBILITY if v in m['mods']), 'private')
            r['v'] = 0 if 'static' in m['mods'] or m['n'] in ('Constructor', 'Destructor') else 1
            r['st'] = 1 if 'static' in m['mods'] else 0
            r['c'] = 1 if fid.endswith(' const') else 0
            if r['v']:
                for b in self.ancestors(c['q'])[1:]:
                    for o in b['methods'].get(m['n'], []):
                        if len(o['p']) == len(m['p']):
                            r['ov'].append(self.fid(o))
        lo = Lower(self, c, m, m['file'])
        for i, p in enumerate(m['p']):
            r['p'].append(lo.param(p, i))
        r['body'] = lo.s(m['b'])
        return r


class Lower:
    def __init__(self, lib, cls, m, file):
        self.L, self.c, self.m, self.file = lib, cls, m, file
        self.gens = cls['g'] if cls else ()
        self.scopes = [{}]
        self.n = 0
        self.ret = lib.resolve_type(m['t'], file, self.gens) if m else None
        self.inswitch = []

    # ---- variables
    def new(self, name, ty, ct):
        self.n += 1
        self.scopes[-1][name] = (self.n, ty, ct)
        return self.n

    def param(self, p, i):
        ty = self.L.resolve_type(p['t'], self.file, self.gens)
        ct = self.L.ctype(p['t'], self.file, self.gens, p['ref'])
        r = {'n': p['n'], 't': ct, 'id': self.new(p['n'] or '#%d' % i, ty, ct)}
        if p['d'] is not None:
            r['d'] = self.e(p['d'])[0]
        return r

    def local(self, name):
        for s in reversed(self.scopes):
            if name in s:
                return s[name]
        return None

    # ---- expressions: -> (node, type)
    def e(self, x):
        return getattr(self, 'e_' + x['k'])(x)

    def e_null(self, x):
        return {'k': 'null', 'l': x['l']}, None

    def e_int(self, x):
        return {'k': 'int', 'v': x['v'], 't': 'int', 'l': x['l']}, 'int'

    def e_float(self, x):
        return {'k': 'float', 'v': x['v'], 't': x['t'], 'l': x['l']}, x['t']

    def e_str(self, x):
        return {'k': 'str', 'v': x['v'], 't': 'std::string', 'l': x['l']}, 'string'

    def e_bool(self, x):
        return {'k': 'bool', 'v': x['v'], 'l': x['l']}, 'bool'

    def this(self, l):
        return {'k': 'this', 't': (self.c['q'] if self.c else 'os::T') + ' *', 'l': l}

    def mem(self, base, cq, name, ct, l):
        return {'k': 'mem', 'n': name, 'q': '%s::%s' % (cq, name), 't': ct, 'b': base, 'l': l}

    def e_name(self, x):
        n, l = x['n'], x['l']
        if n in ('this', 'base') and self.c:
            return self.this(l), self.c['q']
        v = self.local(n)
        if v:
            return {'k': 'var', 'n': n, 't': v[2], 'id': v[0], 'l': l}, v[1]
        if self.c:
            f = self.L.field(self.c['q'], n)
            if f:
                c, d = f
                ct, q = self.L.member_type(d['t'], c, self.c['q'])
                if 'static' in d['mods']:
                    return {'k': 'gl', 'n': '%s::%s' % (c['q'], n), 't': ct, 'l': l}, q
                return self.mem(self.this(l), c['q'], n, ct, l), q
        g = self.L.nearest(self.L.globals.get(n, []), self.file, lambda d: d['file'])
        if g:
            return {'k': 'gl', 'n': 'os::%s::%s' % (g['proj'], n), 't': self.L.ctype(g['t'], g['file'], ()), 'l': l}, self.L.resolve_type(g['t'], g['file'])
        return {'k': 'gl', 'n': 'os::' + n, 't': 'os::var *', 'l': l}, None

    def scope_of(self, x):
        """class, enum or namespace a name (path) stands for"""
        if x['k'] == 'name':
            n = x['n']
            if n in ('this', 'base') or self.local(n) or self.c and self.L.field(self.c['q'], n) or n in self.L.globals:
                return None
            return self.L.type_q(n, self.file) or 'ns'
        if x['k'] == 'dot':
            b = self.scope_of(x['b'])
            if b is None:
                return None
            return self.L.type_q(x['n'], self.file) or ('ns' if b == 'ns' and x['n'] not in self.L.funcs and x['n'] not in self.L.globals else None)
        return None

    def e_dot(self, x):
        n, l = x['n'], x['l']
        b = self.scope_of(x['b'])
        if b in self.L.enums:
            en = dict(map(tuple, self.L.enums[b]['c']))
            if n in en:
                return {'k': 'enum', 'n': '%s::%s' % (b, n), 'v': en[n], 't': b, 'l': l}, b
        if b in self.L.classes:
            f = self.L.field(b, n)
            if f:
                c, d = f
                return {'k': 'gl', 'n': '%s::%s' % (c['q'], n), 't': self.L.ctype(d['t'], c['file'], c['g']), 'l': l}, self.L.resolve_type(d['t'], c['file'], c['g'])
            return {'k': 'gl', 'n': '%s::%s' % (b, n), 't': 'os::var *', 'l': l}, None
        if b == 'ns':
            return self.e_name({'n': n, 'l': l})
        o, ty = self.e(x['b'])
        if ty in self.L.classes:
            f = self.L.field(ty, n)
            if f:
                c, d = f
                ct, q = self.L.member_type(d['t'], c, ty)
                return self.mem(o, c['q'], n, ct, l), q
        # the type of the object is not known: the only class with such a member
        cs = [c for c in self.L.classes.values() if n in c['fields'] and not c.get('if')]
        if len(cs) == 1:
            d = cs[0]['fields'][n]
            return self.mem(o, cs[0]['q'], n, self.L.ctype(d['t'], cs[0]['file'], cs[0]['g']), l), self.L.resolve_type(d['t'], cs[0]['file'], cs[0]['g'])
        return self.mem(o, 'os::T', n, 'os::var *', l), None

    def call_of(self, m, args, l, recv=None, extra=None, ty=None):
        """call of a known function; missing arguments take their default values"""
        fid = self.L.fid(m)
        args = list(args)
        gens = m['cls']['g'] if m['cls'] else ()
        for p in m['p'][len(args):]:
            args.append(Lower(self.L, m['cls'], None, m['file']).e(p['d'])[0])
        if m['cls'] and ty is None and recv is not None and recv['k'] == 'this' and self.c:
            ty = self.c['q']
        ct, q = self.L.member_type(m['t'], m['cls'], ty) if m['cls'] else (self.L.ctype(m['t'], m['file'], gens), self.L.resolve_type(m['t'], m['file'], gens))
        r = {'f': m['q'], 'id': fid, 'a': args, 't': ct, 'l': l}
        if m['cls'] and 'static' not in m['mods'] and recv is not None:
            r.update({'k': 'mcall', 'o': recv, 'ot': m['cls']['q']})
            if fid.endswith(' const'):
                r['c'] = 0
            if m['n'] not in ('Constructor', 'Destructor') and not extra:
                r['dv'] = 1
        else:
            r['k'] = 'call'
        return r, q

    def e_callx(self, x):
        f, l = x['f'], x['l']
        ar = [self.e(a) for a in x['a']]
        args, types = [a for a, _ in ar], [t for _, t in ar]
        if f['k'] == 'name':
            n = f['n']
            if self.c:
                m = self.L.method(self.c['q'], n, types)
                if m is not None:
                    return self.call_of(m, args, l, self.this(l))
            m = self.L.choose([d for d in self.L.funcs.get(n, []) if d['file'] == self.file], types, self.file) or self.L.choose(self.L.funcs.get(n, []), types, self.file)
            if m is not None:
                return self.call_of(m, args, l)
            if n in self.L.byname and n not in self.L.enums:      # a value of a type
                return {'k': 'call', 'f': 'os::make<%s>' % n, 'id': '', 'a': args, 't': 'os::var *', 'c': 1, 'l': l}, self.L.type_q(n, self.file)
            r = {'k': 'call', 'f': 'os::ext::' + n, 'id': 'os::ext::' + n, 'a': args, 't': 'os::var', 'l': l}
            ty = RESULT.get(n)
            if n in PURE:
                r['c'] = 1
            if ty:
                r['t'] = self.ct(ty)
            return r, ty
        n = f['n']
        if f['b']['k'] == 'name' and f['b']['n'] == 'base' and self.c:
            m = self.L.method(self.c['q'], n, types, True)
            if m is not None:
                return self.call_of(m, args, l, self.this(l), True)
        b = self.scope_of(f['b'])
        if b in self.L.classes:
            m = self.L.method(b, n, types)
            if m is not None:
                return self.call_of(m, args, l)
            return {'k': 'call', 'f': '%s::%s' % (b, n), 'id': '%s::%s' % (b, n), 'a': args, 't': 'os::var', 'l': l}, None
        if b in self.L.enums:
            return {'k': 'call', 'f': '%s::%s' % (b, n), 'id': '%s::%s' % (b, n), 'a': args, 't': b, 'c': 1, 'l': l}, b
        if b == 'ns':
            return self.e_callx({'f': {'k': 'name', 'n': n}, 'a': x['a'], 'l': l}) if not self.c or not self.L.method(self.c['q'], n, types) else self.ext(n, args, l)
        o, ty = self.e(f['b'])
        return self.method_call(o, ty, n, args, types, l)

    def ext(self, n, args, l):
        return {'k': 'call', 'f': 'os::ext::' + n, 'id': 'os::ext::' + n, 'a': args, 't': 'os::var', 'l': l}, None

    def method_call(self, o, ty, n, args, types, l):
        if ty in self.L.classes:
            m = self.L.method(ty, n, types)
            if m is not None:
                return self.call_of(m, args, l, o, ty=ty)
        q = '%s::%s' % (ty if ty in self.L.classes else 'os::T', n)
        r = {'k': 'mcall', 'f': q, 'id': q, 'o': o, 'ot': ty or 'os::T', 'a': args, 't': 'os::var', 'l': l}
        return r, {'size': 'int', 'length': 'int', 'empty': 'bool', 'hasNext': 'bool', 'Length': 'int', 'contains': 'bool', 'indexOf': 'int', 'toString': 'string'}.get(n)

    def e_sub(self, x):
        o, ty = self.e(x['b'])
        i, it = self.e(x['i'])
        if ty == 'string':
            return {'k': 'call', 'f': 'os::charat', 'id': '', 'a': [o, i], 't': 'std::string', 'c': 1, 'l': x['l']}, 'string'
        return self.method_call(o, ty, 'operator[]', [i], [it], x['l'])

    def lt(self, a, b):
        if a == 'string' or b == 'string':
            return 'std::string'
        if a in NUMERIC and b in NUMERIC:
            return next((t for t in ('double', 'float') if t in (a, b)), 'int')
        if a in NUMERIC and b is None or b in NUMERIC and a is None:
            return 'int'
        return (a or b or 'os::T') if (a or b) not in NUMERIC else 'int'

    def e_bin(self, x):
        op, l = x['op'], x['l']
        a, ta = self.e(x['a'])
        b, tb = self.e(x['b'])
        if op in ('&&', '||'):
            return {'k': 'bin', 'op': op, 'a': self.boolean(a, ta), 'b': self.boolean(b, tb), 't': 'bool', 'lt': 'bool', 'l': l}, 'bool'
        if op in ('!&', '!|'):
            return {'k': 'call', 'f': 'os::' + ('nand' if op == '!&' else 'nor'), 'id': '', 'a': [a, b], 't': 'bool', 'c': 1, 'l': l}, 'bool'
        if op == '..':
            return {'k': 'call', 'f': 'os::range', 'id': '', 'a': [a, b], 't': 'os::Range *', 'c': 1, 'l': l}, self.L.type_q('Range', self.file)
        if op in ('==', '!=', '<', '<=', '>', '>=', '===', '!=='):
            name = {'!=': '==', '===': '==', '!==': '=='}.get(op, op)
            if ta in self.L.classes:
                m = self.L.method(ta, 'operator' + name, [tb])
                if m is not None and not (a['k'] == 'null' or b['k'] == 'null'):
                    r, t = self.call_of(m, [b], l, a, ty=ta)
                    if op in ('!=', '!=='):
                        r = {'k': 'un', 'op': '!', 'e': r, 't': 'bool', 'l': l}
                    return r, 'bool'
            return {'k': 'bin', 'op': op[:2], 'a': a, 'b': b, 't': 'bool', 'lt': self.lt(ta, tb), 'l': l}, 'bool'
        if ta in self.L.classes:
            m = self.L.method(ta, 'operator' + op, [tb])
            if m is not None:
                return self.call_of(m, [b], l, a, ty=ta)
        lt = self.lt(ta, tb)
        t = 'string' if 'string' in lt else lt if lt in NUMERIC else None
        if op == '~' or t is None and op == '+':
            return {'k': 'call', 'f': 'os::operator' + op, 'id': '', 'a': [a, b], 't': 'os::var', 'c': 1, 'l': l}, t
        return {'k': 'bin', 'op': op, 'a': a, 'b': b, 't': lt, 'lt': lt, 'l': l}, t

    def e_asg(self, x):
        op, l = x['op'], x['l']
        b, tb = self.e(x['b'])
        if x['a']['k'] == 'sub':
            o, ty = self.e(x['a']['b'])
            i, it = self.e(x['a']['i'])
            return {'k': 'mcall', 'f': 'os::T::setitem', 'id': 'os::T::setitem', 'o': o, 'ot': ty or 'os::T', 'a': [i, b], 't': 'os::var', 'l': l}, None
        a, ta = self.e(x['a'])
        if ta in self.L.classes and b['k'] != 'null':
            m = self.L.method(ta, 'operator' + op, [tb])
            if m is not None and (tb != ta or op != '='):
                return self.call_of(m, [b], l, a)
        if op == '~=' or op != '=' and ta in self.L.classes:
            b = {'k': 'call', 'f': 'os::operator' + op[:-1], 'id': '', 'a': [a, b], 't': 'os::var', 'c': 1, 'l': l}
            op = '='
        if op == '=':
            b = self.adapt(b, tb, ta)
        lt = self.lt(ta, tb)
        return {'k': 'bin', 'op': op, 'a': a, 'b': b, 't': a.get('t', ''), 'lt': 'std::string' if ta == 'string' else lt, 'l': l}, ta

    def adapt(self, b, tb, ta):
        """value stored in a variable of another atomic type"""
        if ta in ATOMIC and tb is not None and tb != ta and not (ta in NUMERIC and tb in NUMERIC and b['k'] in ('int', 'float')):
            if tb in self.L.classes or tb in self.L.enums:
                return b
            return {'k': 'call', 'f': 'os::cast<%s>' % ta, 'id': '', 'a': [b], 't': self.ct(ta), 'c': 1, 'l': b['l']}
        return b

    @staticmethod
    def ct(t):
        return {'string': 'std::string', 'int16': 'short', 'int64': 'long'}.get(t, t)

    def e_un(self, x):
        op, l = x['op'], x['l']
        e, t = self.e(x['e'])
        if op == '!':
            return {'k': 'un', 'op': '!', 'e': self.boolean(e, t), 't': 'bool', 'l': l}, 'bool'
        if op == 'p!':
            return {'k': 'call', 'f': 'os::operator!', 'id': '', 'a': [e], 't': 'os::var', 'c': 1, 'l': l}, 'bool'
        if op in ('p++', 'p--', '++', '--'):        # the interpreter's value of both forms is the new one
            return {'k': 'un', 'op': op[-2:], 'e': e, 't': e.get('t', 'int'), 'l': l}, t
        if e['k'] in ('int', 'float') and op == '-':
            return dict(e, v=-e['v']), t
        return {'k': 'un', 'op': op, 'e': e, 't': e.get('t', 'int'), 'l': l}, t

    def boolean(self, e, t):
        """value used as a condition"""
        if t == 'bool' or t is None and e['k'] in ('call', 'mcall') or e['k'] == 'bool':
            return e
        if t == 'int' or t in ('int16', 'int64', 'short'):
            return {'k': 'cast', 'ck': 'IntegralToBoolean', 't': 'bool', 'ft': 'int', 'e': e, 'l': e['l']}
        if t in ('float', 'double'):
            return {'k': 'cast', 'ck': 'FloatingToBoolean', 't': 'bool', 'ft': t, 'e': e, 'l': e['l']}
        if t == 'string' or t in self.L.enums:
            return {'k': 'call', 'f': 'os::cast<bool>', 'id': '', 'a': [e], 't': 'bool', 'c': 1, 'l': e['l']}
        if t in self.L.classes:
            m = self.L.conversion(t, 'bool')
            if m is not None:
                return self.call_of(m, [{'k': 'null', 'l': e['l']}], e['l'], e)[0]
        return {'k': 'cast', 'ck': 'PointerToBoolean', 't': 'bool', 'ft': 'os::T *', 'e': e, 'l': e['l']}

    def e_cond(self, x):
        c, t = self.e(x['c'])
        a, ta = self.e(x['a'])
        b, tb = self.e(x['b'])
        return {'k': 'cond', 'c': self.boolean(c, t), 'a': a, 'b': b, 't': a.get('t', ''), 'l': x['l']}, ta or tb

    def e_is(self, x):
        e, _ = self.e(x['e'])
        q = self.L.resolve_type(x['t'], self.file, self.gens) or x['t']['n']
        return {'k': 'call', 'f': 'os::is<%s>' % q, 'id': '', 'a': [e], 't': 'bool', 'c': 1, 'l': x['l']}, 'bool'

    def spell(self, t):
        q = self.L.resolve_type(t, self.file, self.gens) or t['n']
        return q + ('<%s>' % ','.join(self.spell(g) for g in t['g']) if t['g'] else '')

    def e_newx(self, x):
        ar = [self.e(a) for a in x['a']]
        q = self.L.resolve_type(x['t'], self.file, self.gens)
        args = [a for a, _ in ar]
        fid = ''
        if q in self.L.classes:
            c = self.L.classes[q]
            m = self.L.choose(c['methods'].get('Constructor', []), [t for _, t in ar], c['file'], c['g'])
            if m is not None:
                for p in m['p'][len(args):]:
                    args.append(Lower(self.L, m['cls'], None, m['file']).e(p['d'])[0])
        t = self.spell(x['t'])
        return {'k': 'new', 't': (q or t) + ' *', 'i': {'k': 'ctor', 't': t, 'id': fid, 'a': args, 'l': x['l']}, 'l': x['l']}, q

    def e_castx(self, x):
        q = self.L.resolve_type(x['t'], self.file, self.gens)
        e, t = self.e(x['e'])
        if e['k'] == 'null' or q is None:
            return e, q
        if q in self.L.classes:
            return dict(e), q
        if q == t:
            return e, t
        if q in self.L.enums:
            return {'k': 'call', 'f': 'os::cast<%s>' % q, 'id': '', 'a': [e], 't': q, 'c': 1, 'l': x['l']}, q
        if t in self.L.classes:
            m = self.L.conversion(t, q)
            if m is not None:
                return self.call_of(m, [{'k': 'null', 'l': x['l']}], x['l'], e)[0], q
        return {'k': 'call', 'f': 'os::cast<%s>' % q, 'id': '', 'a': [e], 't': self.ct(q), 'c': 1, 'l': x['l']}, q

    def e_copyx(self, x):
        e, t = self.e(x['e'])
        if t in self.L.classes:
            m = self.L.method(t, 'Copy', [])
            if m is not None:
                return self.call_of(m, [], x['l'], e, ty=t)
        return {'k': 'call', 'f': 'os::copy', 'id': '', 'a': [e], 't': e.get('t', ''), 'c': 1, 'l': x['l']}, t

    def e_typeidx(self, x):
        e, _ = self.e(x['e'])
        return {'k': 'call', 'f': 'os::typeid', 'id': '', 'a': [e], 't': 'std::string', 'c': 1, 'l': x['l']}, 'string'

    # ---- statements
    def s(self, x):
        return getattr(self, 's_' + x['k'])(x)

    def s_block(self, x):
        self.scopes.append({})
        r = {'k': 'block', 'b': [self.s(y) for y in x['b']], 'l': x['l']}
        self.scopes.pop()
        return r

    def s_nop(self, x):
        return {'k': 'nop', 'l': x['l']}

    def s_if(self, x):
        c, t = self.e(x['c'])
        r = {'k': 'if', 'c': self.boolean(c, t), 'l': x['l']}
        r['a'] = self.inner(x['a'])
        if 'b' in x:
            r['b'] = self.inner(x['b'])
        return r

    def inner(self, x, loop=False):
        self.scopes.append({})
        if loop:
            self.inswitch.append(False)
        r = self.s(x)
        if loop:
            self.inswitch.pop()
        self.scopes.pop()
        return r

    def s_while(self, x):
        c, t = self.e(x['c'])
        return {'k': 'while', 'c': self.boolean(c, t), 'b': self.inner(x['b'], True), 'l': x['l']}

    def s_for(self, x):
        self.scopes.append({})
        r = {'k': 'for', 'l': x['l']}
        if 'init' in x:
            r['init'] = self.s(x['init'])
        if 'c' in x:
            c, t = self.e(x['c'])
            r['c'] = self.boolean(c, t)
        if 'inc' in x:
            r['inc'] = self.e(x['inc'])[0]
        r['b'] = self.inner(x['b'], True)
        self.scopes.pop()
        return r

    def s_foreach(self, x):
        e, t = self.e(x['r'])
        self.scopes.append({})
        ty = self.L.resolve_type(x['t'], self.file, self.gens)
        ct = self.L.ctype(x['t'], self.file, self.gens) if x['t'] else 'os::var *'
        v = {'n': x['n'], 't': ct, 'id': self.new(x['n'], ty, ct), 'l': x['l']}
        r = {'k': 'range', 'v': v, 'r': e, 'rt': (t + ' *' if t in self.L.classes else 'os::T *'), 'b': self.inner(x['b'], True), 'l': x['l']}
        self.scopes.pop()
        return r

    def s_switch(self, x):
        c, t = self.e(x['c'])
        items, dflt = [], None
        self.inswitch.append(True)
        for v, b, l in x['cases']:
            if v is None:
                dflt = (b, l)
                continue
            items.append({'case': self.e(v)[0], 'l': l})
            items.append({'s': self.inner(b)})
            items.append({'s': {'k': 'break', 'l': l}})
        if dflt:
            items.append({'default': 1, 'l': dflt[1]})
            items.append({'s': self.inner(dflt[0])})
        self.inswitch.pop()
        return {'k': 'switch', 'c': c, 't': self.ct(t) if t else '', 'items': items, 'l': x['l']}

    def s_try(self, x):
        r = {'k': 'try', 'b': self.s(x['b']), 'h': [], 'l': x['l']}
        for h in x['h']:
            self.scopes.append({})
            y = {}
            if 't' in h:
                q = self.L.resolve_type(h['t'], self.file, self.gens)
                y['t'] = q or h['t']['n']
                if 'n' in h:
                    ct = self.L.ctype(h['t'], self.file, self.gens)
                    y['v'] = {'n': h['n'], 't': ct, 'id': self.new(h['n'], q, ct)}
            y['b'] = self.s(h['b'])
            self.scopes.pop()
            r['h'].append(y)
        if not x['h']:
            r['h'].append({'b': {'k': 'block', 'b': [], 'l': x['l']}})      # a block without handlers catches everything
        if 'fin' in x:
            r['fin'] = self.s(x['fin'])
        return r

    def s_break(self, x):
        return {'k': 'break', 'l': x['l']}

    def s_continue(self, x):
        if self.inswitch and self.inswitch[-1]:         # evaluates the switch again
            return {'k': 'expr', 'e': {'k': 'throw', 'e': {'k': 'str', 'v': 'again', 'l': x['l']}, 't': 'os::again', 'l': x['l']}, 'l': x['l']}
        return {'k': 'continue', 'l': x['l']}

    def s_return(self, x):
        r = {'k': 'return', 'l': x['l']}
        if 'e' in x:
            e, t = self.e(x['e'])
            r['e'] = self.adapt(e, t, self.ret) if self.ret != 'bool' else self.boolean(e, t)
        return r

    def s_throw(self, x):
        r = {'k': 'throw', 'l': x['l'], 't': ''}
        if 'e' in x:
            e, t = self.e(x['e'])
            r['e'], r['t'] = e, t or 'os::T'
        return {'k': 'expr', 'e': r, 'l': x['l']}

    def effect(self, name, x):
        a = [self.e(x['e'])[0]] if 'e' in x else []
        return {'k': 'expr', 'e': {'k': 'call', 'f': 'os::' + name, 'id': 'os::' + name, 'a': a, 't': 'void', 'l': x['l']}, 'l': x['l']}

    def s_print(self, x):
        return self.effect('print', x)

    def s_assert(self, x):
        e, t = self.e(x['e']) if 'e' in x else ({'k': 'bool', 'v': True, 'l': x['l']}, 'bool')
        fail = {'k': 'expr', 'e': {'k': 'throw', 'e': {'k': 'str', 'v': 'assert', 'l': x['l']}, 't': 'os::AssertionFailed', 'l': x['l']}, 'l': x['l']}
        return {'k': 'if', 'c': self.boolean(e, t), 'a': {'k': 'nop', 'l': x['l']}, 'b': fail, 'l': x['l']}

    def s_delete(self, x):
        e, t = self.e(x['e'])
        return {'k': 'expr', 'e': {'k': 'delete', 'e': e, 'l': x['l']}, 'l': x['l']}

    def s_exit(self, x):
        e = [self.e(x['e'])[0]] if 'e' in x else []
        return {'k': 'expr', 'e': {'k': 'call', 'f': 'exit', 'id': 'exit(int)', 'a': e, 't': 'void', 'nr': 1, 'l': x['l']}, 'l': x['l']}

    def s_vdecl(self, x):
        l = x['l']
        i = ti = None
        if x['i'] is not None:
            i, ti = self.e(x['i'])
        ty = self.L.resolve_type(x['t'], self.file, self.gens) if x['t'] else ti
        if x['t']:
            ct = self.L.ctype(x['t'], self.file, self.gens)
        else:
            ct = self.ct(ty) if ty in ATOMIC or ty in self.L.enums else (ty or 'os::var') + ' *'
        if i is None:
            i = {'int': {'k': 'int', 'v': 0, 't': 'int'}, 'string': {'k': 'str', 'v': '', 't': 'std::string'}, 'bool': {'k': 'bool', 'v': False},
                 'float': {'k': 'float', 'v': 0.0, 't': 'float'}, 'double': {'k': 'float', 'v': 0.0, 't': 'double'}}.get(ty, {'k': 'null'})
            i = dict(i, l=l)
        else:
            i = self.adapt(i, ti, ty)
        return {'k': 'decl', 'v': [{'n': x['n'], 't': ct, 'id': self.new(x['n'], ty, ct), 'l': l, 'i': i}], 'l': l}

    def s_expr(self, x):
        return {'k': 'expr', 'e': self.e(x['e'])[0], 'l': x['l']}


# ------------------------------------------------------------------------------------ entry
def sources(repo):
    base = os.path.join(repo, 'Projects', 'Library')
    out = []
    for d, ds, fs in os.walk(base):
        ds[:] = sorted(x for x in ds if x.lower() not in ('tests', 'test', 'examples', '.git'))
        out += [os.path.join(d, f) for f in sorted(fs) if f.endswith(('.os', '.slang')) and not f.lower().startswith('test') and not os.path.islink(os.path.join(d, f))]
    return out


def extract(repo):
    lib = Library()
    broken = []
    for f in sources(repo):
        with open(f, encoding='utf-8', errors='replace') as i:
            text = i.read()
        try:
            lib.add(os.path.relpath(f, repo), Parser(text).file())
        except ParseError as e:
            broken.append({'kind': 'broken', 'file': os.path.relpath(f, repo), 'text': str(e)})
    return lib.records() + broken
