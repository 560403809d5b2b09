"""A small interpreter for the subset of the Tera template language that acados' templates use.

acados renders its C templates with the external program `t_renderer`, which is not available offline.
This module stands in for it (same command line), so that the real templates of the working tree are turned
into real C code.  Semantics follow Tera 1: filters bind weaker than arithmetic and `~`, a filter applies to the whole
arithmetic/concat expression on its left, undefined names are falsy in plain conditions and an error when printed,
`set` is scoped to the current for-iteration, `set_global` to the whole template.
"""
import json, os, re, sys

class TeraError(Exception):
    pass

class _Undef:
    def __bool__(self): return False
UNDEF = _Undef()

# ----------------------------------------------------------------- lexing of template text
_TAG = re.compile(r'\{\{-?.*?-?\}\}|\{%-?.*?-?%\}|\{#-?.*?-?#\}', re.S)

def _tokens(src):
    """yields (kind, text, lineno) with whitespace control applied"""
    out = []; pos = 0; strip_next = False
    for m in _TAG.finditer(src):
        text = src[pos:m.start()]
        tag = m.group(0)
        if strip_next: text = text.lstrip()
        inner = tag[2:-2]
        left = inner.startswith('-'); right = inner.endswith('-') and len(inner) > 1
        if left:
            inner = inner[1:]; text = text.rstrip()
            if not text and out and out[-1][0] == 'text' : pass
        if right: inner = inner[:-1]
        if text: out.append(('text', text, 0))
        line = src.count('\n', 0, m.start()) + 1
        kind = {'{': 'expr', '%': 'stmt', '#': 'comment'}[tag[1]]
        if kind != 'comment': out.append((kind, inner.strip(), line))
        strip_next = right; pos = m.end()
    text = src[pos:]
    if strip_next: text = text.lstrip()
    if text: out.append(('text', text, 0))
    return out

# ----------------------------------------------------------------- expressions
_LEX = re.compile(r'''\s*(?:(?P<num>\d+\.\d+(?:e-?\d+)?|\d+(?:e-?\d+)?)|(?P<str>"[^"]*"|'[^']*'|`[^`]*`)|(?P<id>[A-Za-z_][A-Za-z_0-9]*)|(?P<op>==|!=|<=|>=|\|\||[-+*/%~<>|().,\[\]=!]))''')

class Expr:
    def __init__(self, s):
        self.s = s; self.t = []; pos = 0; s = s.rstrip()
        while pos < len(s):
            m = _LEX.match(s, pos)
            if not m: raise TeraError(f'cannot lex {s!r} at {pos}')
            self.t.append((m.lastgroup, m.group(m.lastgroup))); pos = m.end()
        self.t.append(('end', '')); self.i = 0
    def peek(self, *v): return self.t[self.i][1] in v and self.t[self.i][0] in ('op', 'id')
    def take(self, *v):
        if self.peek(*v): self.i += 1; return self.t[self.i - 1][1]
        return None
    def expect(self, v):
        if not self.take(v): raise TeraError(f'expected {v} in {self.s!r} at token {self.i}: {self.t[self.i]}')
    def ident(self):
        k, v = self.t[self.i]
        if k != 'id': raise TeraError(f'identifier expected in {self.s!r}')
        self.i += 1; return v
    def done(self):
        if self.t[self.i][0] != 'end': raise TeraError(f'trailing tokens in {self.s!r}: {self.t[self.i:]}')
    # logic: or < and < not < comparison/in/is < filter < ~ < + - < * / %
    def logic(self):
        a = self.land()
        while self.take('or'): b = self.land(); a = f'(truth({a}) or truth({b}))'
        return a
    def land(self):
        a = self.lnot()
        while self.take('and'): b = self.lnot(); a = f'(truth({a}) and truth({b}))'
        return a
    def lnot(self):
        if self.take('not'): return f'(not truth({self.lnot()}))'
        return self.cmp()
    def cmp(self):
        a = self.filt()
        while True:
            if op := self.take('==', '!=', '<', '>', '<=', '>='):
                b = self.filt(); a = f'cmp({op!r}, {a}, {b})'
            elif self.peek('not') and self.t[self.i + 1] == ('id', 'in'):
                self.i += 2; b = self.filt(); a = f'(not isin({a}, {b}))'
            elif self.take('in'): b = self.filt(); a = f'isin({a}, {b})'
            elif self.take('is'):
                neg = self.take('not'); name = self.ident(); args = ''
                if self.take('('):
                    args = self.logic(); self.expect(')')
                a = f'test({name!r}, {a}{", " + args if args else ""})'
                if neg: a = f'(not {a})'
            else: return a
    def filt(self):
        a = self.cat()
        while self.take('|'):
            name = self.ident(); kw = ''
            if self.take('('): kw = self.kwargs()
            a = f'filt({name!r}, {a}{", " + kw if kw else ""})'
        return a
    def kwargs(self):
        kws = []
        while not self.take(')'):
            k = self.ident(); self.expect('='); kws.append(f'{k}_={self.logic()}'); self.take(',')
        return ', '.join(kws)
    def cat(self):
        a = self.add()
        while self.take('~'): b = self.add(); a = f'(show({a}) + show({b}))'
        return a
    def add(self):
        a = self.mul()
        while op := self.take('+', '-'): b = self.mul(); a = f'num({op!r}, {a}, {b})'
        return a
    def mul(self):
        a = self.atom()
        while op := self.take('*', '/', '%'): b = self.atom(); a = f'num({op!r}, {a}, {b})'
        return a
    def atom(self):
        k, v = self.t[self.i]
        if self.take('('):
            a = self.logic(); self.expect(')'); return f'({a})'
        if self.take('-'): return f'(-{self.atom()})'
        if self.take('['):
            xs = []
            while not self.take(']'): xs.append(self.logic()); self.take(',')
            return '[' + ', '.join(xs) + ']'
        self.i += 1
        if k == 'num' or k == 'str':
            return v if k == 'num' else repr(v[1:-1])
        if k != 'id': raise TeraError(f'unexpected token {v!r} in {self.s!r}')
        if v in ('true', 'false'): return v.capitalize()
        if self.take('('): return f'fun({v!r}, {self.kwargs() or ""})'
        a = f'C.get({v!r})'
        while True:
            if self.take('.'):
                kk, f = self.t[self.i]; self.i += 1
                a = f'attr({a}, {f!r})' if kk == 'id' else f'item({a}, {f})'
            elif self.take('['):
                e = self.logic(); self.expect(']'); a = f'item({a}, {e})'
            else: return a

class Ctx:
    def __init__(self, data): self.data = data; self.frames = [{}]
    def get(self, n):
        for f in reversed(self.frames):
            if n in f: return f[n]
        return self.data.get(n, UNDEF)
    def set(self, n, v): self.frames[-1][n] = need(v)
    def set_global(self, n, v): self.frames[0][n] = need(v)

def need(v):
    if v is UNDEF: raise TeraError('undefined variable used')
    return v
def attr(o, n):
    if isinstance(o, dict): return o.get(n, UNDEF)
    return UNDEF
def item(o, i):
    if isinstance(o, dict): return o.get(i, UNDEF)
    if isinstance(o, list):
        if not isinstance(i, int) or isinstance(i, bool) or not 0 <= i < len(o): return UNDEF
        return o[i]
    return UNDEF
def truth(v):
    return not (v is UNDEF or v is None or v is False or v == 0 or v == '' or v == [] or v == {})
def _isnum(v): return isinstance(v, (int, float)) and not isinstance(v, bool)
def cmp(op, a, b):
    need(a); need(b)
    if op == '==' or op == '!=':
        r = (a == b) if (_isnum(a) == _isnum(b) and isinstance(a, bool) == isinstance(b, bool)) else False
        return r if op == '==' else not r
    if not (_isnum(a) and _isnum(b)): raise TeraError(f'comparison of non-numbers {a!r} {op} {b!r}')
    return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]
def isin(a, b):
    need(a); need(b)
    if isinstance(b, str): return show(a) in b
    return a in b
def num(op, a, b):
    need(a); need(b)
    if not (_isnum(a) and _isnum(b)): raise TeraError(f'arithmetic on non-numbers {a!r} {op} {b!r}')
    if op == '+': return a + b
    if op == '-': return a - b
    if op == '*': return a * b
    if op == '%': return a % b
    if b == 0: raise TeraError('division by zero')
    return a / b
def show(v):
    need(v)
    if v is True: return 'true'
    if v is False: return 'false'
    if v is None: return ''
    if isinstance(v, str): return v
    if isinstance(v, float): return repr(v)
    if isinstance(v, list): return '[' + ', '.join(show(x) for x in v) + ']'
    if isinstance(v, dict): return '[object]'
    return str(v)
def test(name, v, *a):
    if name == 'defined': return v is not UNDEF
    if name == 'undefined': return v is UNDEF
    need(v)
    if name == 'containing': return isin(a[0], v)
    if name == 'starting_with': return v.startswith(a[0])
    if name == 'ending_with': return v.endswith(a[0])
    if name == 'string': return isinstance(v, str)
    if name == 'number': return _isnum(v)
    if name == 'odd': return v % 2 == 1
    if name == 'even': return v % 2 == 0
    raise TeraError(f'unknown test {name}')
def filt(name, v, **k):
    if name == 'default': return k['value_'] if v is UNDEF else v
    need(v)
    if name == 'concat': return v + (k['with_'] if isinstance(k['with_'], list) else [need(k['with_'])])
    if name == 'first': return v[0] if v else ''
    if name == 'last': return v[-1] if v else ''
    if name == 'length': return len(v)
    if name == 'lower': return v.lower()
    if name == 'upper': return v.upper()
    if name == 'title': return re.sub(r"\w+", lambda m: m.group(0)[0].upper() + m.group(0)[1:].lower(), v)
    if name == 'join': return k.get('sep_', '').join(show(x) for x in v)
    if name == 'replace': return v.replace(k['from_'], k['to_'])
    if name == 'sort': return sorted(v)
    if name == 'split': return v.split(k['pat_'])
    if name == 'trim': return v.strip(k['chars_']) if 'chars_' in k else v.strip()
    if name == 'filter':
        r = []
        for x in v:
            y = x
            for p in k['attribute_'].split('.'): y = attr(y, p)
            if y is not UNDEF and y is not None and ('value_' not in k or y == k['value_']): r.append(x)
        return r
    if name == 'round': return round(v)
    if name == 'int': return int(v)
    if name == 'abs': return abs(v)
    if name == 'unique': return list(dict.fromkeys(v))
    if name == 'as_str': return show(v)
    if name == 'reverse': return v[::-1]
    raise TeraError(f'unknown filter {name}')
def fun(name, **k):
    if name == 'range': return list(range(need(k.get('start_', 0)), need(k['end_']), k.get('step_by_', 1)))
    if name == 'throw': raise TeraError(k.get('message_'))
    raise TeraError(f'unknown function {name}')
def iterate(v, two):
    need(v)
    if isinstance(v, dict): return sorted(v.items())
    if isinstance(v, str): return list(v)
    if not isinstance(v, list): raise TeraError(f'cannot iterate over {v!r}')
    return v

def translate(src, name='?'):
    lines = ['def _render(C, W):']; ind = 1; stack = []
    def emit(s): lines.append('  ' * ind + s)
    for kind, t, ln in _tokens(src):
        try:
            if kind == 'text': emit(f'W({t!r})'); continue
            if kind == 'expr':
                e = Expr(t); c = e.logic(); e.done(); emit(f'W(show({c}))  #L {ln}'); continue
            word = re.match(r'\w+', t).group(0); rest = t[len(word):].strip()
            if word in ('if', 'elif'):
                if word == 'elif': ind -= 1
                e = Expr(rest); c = e.logic(); e.done(); emit(f'{word} truth({c}):  #L {ln}'); ind += 1; emit('pass')
                if word == 'if': stack.append('if')
            elif word == 'else': ind -= 1; emit('else:'); ind += 1; emit('pass')
            elif word == 'endif':
                if stack.pop() != 'if': raise TeraError('unbalanced endif')
                ind -= 1
            elif word == 'for':
                m = re.match(r'(\w+)(?:\s*,\s*(\w+))?\s+in\s+(.*)$', rest, re.S)
                e = Expr(m.group(3)); c = e.logic(); e.done()
                emit(f'_s = iterate({c}, {bool(m.group(2))})  #L {ln}'); emit('C.frames.append({})')
                emit('for _i, _x in enumerate(_s):'); ind += 1
                emit("C.frames[-1].clear(); C.frames[-1]['loop'] = {'index': _i + 1, 'index0': _i, 'first': _i == 0, 'last': _i == len(_s) - 1}")
                if m.group(2): emit(f'C.frames[-1][{m.group(1)!r}], C.frames[-1][{m.group(2)!r}] = _x')
                else: emit(f'C.frames[-1][{m.group(1)!r}] = _x')
                # nested loops use their own variables: wrap the body in a function
                lines[-1] = lines[-1]; stack.append('for')
            elif word == 'endfor':
                if stack.pop() != 'for': raise TeraError('unbalanced endfor')
                ind -= 1; emit('C.frames.pop()')
            elif word in ('set', 'set_global'):
                m = re.match(r'(\w+)\s*=\s*(.*)$', rest, re.S)
                e = Expr(m.group(2)); c = e.logic(); e.done(); emit(f'C.{word}({m.group(1)!r}, {c})  #L {ln}')
            elif word == 'break': emit('break')
            elif word == 'continue': emit('continue')
            else: raise TeraError(f'unknown statement {word}')
        except TeraError as ex:
            raise TeraError(f'{name}:{ln}: {ex}')
    if stack: raise TeraError(f'{name}: unclosed {stack}')
    return '\n'.join(lines) + '\n'

# `_s`, `_i` are local to one function; nested loops re-assign them, but the outer `for` keeps its own iterator and
# only `_s` (for loop.last) would be clobbered, so give every loop unique names.
def _unique(code):
    out = []; stack = []; n = 0
    for l in code.split('\n'):
        d = len(l) - len(l.lstrip())
        s = l.lstrip()
        if s.startswith('_s = iterate('):
            n += 1; stack.append((n, d))
        if stack and s:
            k = stack[-1][0]
            if s == 'C.frames.pop()' and d == stack[-1][1]:
                out.append(l); stack.pop(); continue
            if s.startswith(('_s = ', 'for _i, _x', "C.frames[-1]")):
                l = re.sub(r'\b_([six])\b', rf'_\g<1>{k}', l)
        out.append(l)
    return '\n'.join(out)

_cache = {}
def render_string(src, data, name='?'):
    key = src
    if key not in _cache:
        code = _unique(translate(src, name))
        ns = {k: globals()[k] for k in ('truth', 'cmp', 'isin', 'test', 'filt', 'show', 'num', 'fun', 'attr', 'item', 'iterate')}
        exec(compile(code, '<tera:' + name + '>', 'exec'), ns)
        _cache[key] = (ns['_render'], code)
    out = []
    try:
        _cache[key][0](Ctx(data), out.append)
    except TeraError as ex:
        tb = ex.__traceback__; ln = 0
        while tb:
            if tb.tb_frame.f_code.co_filename.startswith('<tera:'): ln = tb.tb_lineno
            tb = tb.tb_next
        raise TeraError(f'{name}: {ex}: {_cache[key][1].splitlines()[ln - 1].strip()}')
    return ''.join(out)

def render_file(template_glob, in_file, json_path, out_file):
    base = template_glob.split('*')[0]
    with open(os.path.join(base, in_file)) as f: src = f.read()
    with open(json_path) as f: data = json.load(f)
    text = render_string(src, data, in_file)
    with open(out_file, 'w') as f: f.write(text)

def main(argv):
    if len(argv) == 2 and argv[1] == '--version': print('t_renderer 0.2.1'); return 0
    try:
        render_file(*argv[1:5])
    except (TeraError, OSError) as ex:
        print(f'Error: {ex}', file=sys.stderr); return 1
    print(f'Successfully rendered template {argv[4]}')
    return 0

if __name__ == '__main__':
    sys.exit(main(sys.argv))
