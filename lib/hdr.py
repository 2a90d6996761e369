"""Projection of generated headers (C, C++, Cython) onto the abstract declarations of the spec.

This is the observation function of the conformance checks: it does not judge anything, it only
turns header text into the vocabulary of the TLA+ modules (types are canonical strings).
"""
import re


class HdrError(Exception):
    pass


TRUE = {"k": "true"}


def c_and(cs):
    cs = [c for c in cs if c["k"] != "true"]
    if not cs:
        return TRUE
    if len(cs) == 1:
        return cs[0]
    return {"k": "and", "as": list(cs)}


def strip_comments(text):
    """remove comments, keep newlines; returns (code, comments)"""
    out = []
    comments = []
    i = 0
    n = len(text)
    while i < n:
        c = text[i]
        if c == '/' and i + 1 < n and text[i + 1] == '*':
            j = text.find('*/', i + 2)
            if j < 0:
                raise HdrError("unterminated comment")
            comments.append(text[i:j + 2])
            out.append(' \x01%d\x01 ' % (len(comments) - 1) + '\n' * text.count('\n', i, j))
            i = j + 2
        elif c == '/' and i + 1 < n and text[i + 1] == '/':
            j = i
            while True:
                k = text.find('\n', j)
                if k < 0:
                    k = n
                    break
                if text[k - 1] == '\\':
                    j = k + 1
                    continue
                break
            comments.append(text[i:k])
            out.append(' \x01%d\x01 ' % (len(comments) - 1))
            i = k
        elif c in '"\'':
            j = i + 1
            while j < n and text[j] != c:
                if text[j] == '\\':
                    j += 1
                j += 1
            out.append(text[i:j + 1])
            i = j + 1
        else:
            out.append(c)
            i += 1
    return ''.join(out), comments


TOK = re.compile(r'''\s+|(?P<id>[A-Za-z_][A-Za-z0-9_]*)|(?P<num>\.?[0-9](?:[eEpP][+-]|[A-Za-z0-9_.])*)|(?P<str>"(?:\\.|[^"\\])*")|(?P<chr>[uUL]?'(?:\\.|[^'\\])*')|(?P<op>::|->|<<=|>>=|<=|>=|==|!=|&&|\|\||<<|\+=|-=|\|=|&=|\^=|\.\.\.|.)''', re.S)


def tokenize(s):
    r = []
    for m in TOK.finditer(s):
        if m.lastgroup:
            r.append(m.group())
    return r


# ---------------------------------------------------------------- conditions
class CondParser:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def nxt(self):
        x = self.peek()
        self.i += 1
        return x

    def parse(self):
        r = self.orx()
        if self.peek() is not None:
            raise HdrError("trailing tokens in condition: %r" % self.t)
        return r

    def orx(self):
        a = [self.andx()]
        while self.peek() == '||':
            self.nxt()
            a.append(self.andx())
        return a[0] if len(a) == 1 else {"k": "or", "as": a}

    def andx(self):
        a = [self.un()]
        while self.peek() == '&&':
            self.nxt()
            a.append(self.un())
        return a[0] if len(a) == 1 else {"k": "and", "as": a}

    def un(self):
        x = self.peek()
        if x == '!':
            self.nxt()
            return {"k": "not", "a": self.un()}
        if x == '(':
            self.nxt()
            r = self.orx()
            if self.nxt() != ')':
                raise HdrError("unbalanced parens in condition")
            return r
        if x == 'defined':
            self.nxt()
            if self.peek() == '(':
                self.nxt()
                n = self.nxt()
                if self.nxt() != ')':
                    raise HdrError("bad defined()")
            else:
                n = self.nxt()
            if n is None or not re.match(r'[A-Za-z_]\w*$', n):
                raise HdrError("bad defined()")
            return {"k": "def", "n": n}
        if x == '__STDC_VERSION__':
            self.nxt()
            op = self.nxt()
            v = self.nxt()
            return {"k": "cmp", "n": x, "op": op, "v": v}
        raise HdrError("bad condition token %r" % x)


def cond_static(c, env):
    """three-valued evaluation of conditions over the toolchain macros only"""
    k = c["k"]
    if k == "true":
        return True
    if k == "def":
        return env.get(c["n"])
    if k == "cmp":
        v = env.get(c["n"])
        if v is None:
            return None
        w = int(c["v"].rstrip('L'))
        return {">=": v >= w, "<": v < w}[c["op"]]
    if k == "not":
        v = cond_static(c["a"], env)
        return None if v is None else (not v)
    vs = [cond_static(x, env) for x in c["as"]]
    if k == "and":
        if any(v is False for v in vs):
            return False
        return True if all(v is True for v in vs) else None
    if any(v is True for v in vs):
        return True
    return False if all(v is False for v in vs) else None


def empty_decl(k, n, cond):
    return {"k": k, "n": n, "tag": "", "td": "", "gen": [], "attrs": [], "fields": [], "vals": [],
            "t": "", "ret": "", "args": [], "v": "", "prim": "", "cond": cond, "meth": [],
            "ext": False, "cls": False, "ns": "", "post": [], "doc": []}


def squeeze(s):
    return re.sub(r'\s+', '', s)


def doc_lines(cs):
    """text lines of doc comments, decoration removed"""
    r = []
    for c in cs:
        if c.startswith('/*'):
            body = c[2:-2]
            doxy = body[:1] in ('*', '!')
            if doxy:
                body = body[1:]
            ls = body.split('\n')
            if ls and not ls[0].strip():
                ls = ls[1:]
            if ls and not ls[-1].strip():
                ls = ls[:-1]
            for l in ls:
                l = l.strip()
                if doxy and l.startswith('*'):
                    l = l[1:]
                r.append(l.strip())
        else:
            l = c.strip()
            l = re.sub(r'^///?', '', l) if l.startswith('//') else l.lstrip('#')
            r.append(l.strip())
    return r


MULTI = {"unsigned", "signed", "long", "short", "int", "char", "float", "double", "void"}


def absorb(ty, post):
    """attributes after the whole declarator belong to the declared function"""
    if not post:
        return ty
    depth = 0
    for i, ch in enumerate(ty):
        depth += ch == '('
        depth -= ch == ')'
        if ch == ')' and depth == 0 and ty[i + 1:i + 3] == '->':
            return ty[:i + 3] + ''.join(post) + ty[i + 3:]
    return ty


class CParser:
    """recursive descent over tokens carrying conditions"""

    def __init__(self, text, env, cpp):
        self.cpp = cpp
        self.includes = []
        self.guard = None
        self.decls = []
        self.comments = []
        self.toks = []  # (tok, cond)
        self.docs = {}  # token index -> comments before it
        self.tdoc = []
        self.ns = []
        self.extc = 0
        self.using_ns = []
        self.pp(text, env)
        self.i = 0

    def pp(self, text, env):
        code, self.comments = strip_comments(text)
        code = code.replace('\\\n', '')
        stack = []  # entries: (cond or True/False, raw)
        lines = code.split('\n')
        self.lines = lines
        idx = 0
        pending = []
        while idx < len(lines):
            ln = lines[idx]
            idx += 1
            if '\x01' in ln:
                if not ln.strip().startswith('#') and all(x is not False for x, _ in stack):
                    pending += [self.comments[int(k)] for k in re.findall('\x01(\\d+)\x01', ln)]
                ln = re.sub('\x01\\d+\x01', '', ln)
            s = ln.strip()
            if s.startswith('#'):
                m = re.match(r'#\s*(\w+)\s*(.*)$', s)
                if not m:
                    raise HdrError("bad directive " + s)
                d, rest = m.group(1), m.group(2).strip()
                active = all(x is not False for x, _ in stack)
                if d in ('if', 'ifdef', 'ifndef'):
                    toks = tokenize(rest)
                    if d == 'ifdef':
                        c = {"k": "def", "n": rest}
                    elif d == 'ifndef':
                        c = {"k": "not", "a": {"k": "def", "n": rest}}
                        nx = lines[idx].strip() if idx < len(lines) else ''
                        if nx.split()[:2] == ['#define', rest] and len(nx.split()) == 2:
                            if self.guard is not None:
                                raise HdrError("two include guards")
                            self.guard = rest
                            pending = []
                            idx += 1
                            stack.append((True, TRUE))
                            continue
                    else:
                        c = CondParser(toks).parse()
                    v = cond_static(c, env)
                    stack.append((v if v is not None else c, c))
                elif d == 'else':
                    if not stack:
                        raise HdrError("#else without #if")
                    v, c = stack.pop()
                    nc = {"k": "not", "a": c}
                    stack.append(((not v) if isinstance(v, bool) else nc, nc))
                elif d == 'endif':
                    if not stack:
                        raise HdrError("#endif without #if")
                    stack.pop()
                elif d == 'include':
                    pending = []
                    if active:
                        self.includes.append(rest)
                elif d == 'define':
                    if active:
                        cond = c_and([x for x, _ in stack if isinstance(x, dict)])
                        m2 = re.match(r'(\w+)(\(.*?\))?\s*(.*)$', rest)
                        self.docs[len(self.toks)] = pending
                        pending = []
                        self.toks.append(("#define", cond))
                        self.toks.append((m2.group(1), cond))
                        self.toks.append((m2.group(3), cond))
                elif d in ('pragma', 'warning', 'error', 'undef'):
                    pass
                else:
                    raise HdrError("unknown directive " + d)
                continue
            if not s:
                continue
            if any(x is False for x, _ in stack):
                continue
            cond = c_and([x for x, _ in stack if isinstance(x, dict)])
            for t in tokenize(ln):
                if pending:
                    self.docs[len(self.toks)] = pending
                    pending = []
                self.toks.append((t, cond))
        if stack:
            raise HdrError("unterminated #if")

    # token helpers
    def doc(self):
        return doc_lines(self.docs.get(self.i, []))

    def peek(self, k=0):
        j = self.i + k
        return self.toks[j][0] if j < len(self.toks) else None

    def cond(self):
        return self.toks[self.i][1] if self.i < len(self.toks) else TRUE

    def nxt(self):
        x = self.peek()
        if x is None:
            raise HdrError("unexpected end of header")
        self.i += 1
        return x

    def expect(self, t):
        x = self.nxt()
        if x != t:
            raise HdrError("expected %r got %r near %r" % (t, x, [a for a, _ in self.toks[max(0, self.i - 8):self.i + 8]]))

    def attrs(self):
        r = []
        while True:
            p = self.peek()
            if p and p.startswith('VP_'):
                a = self.nxt()
                if self.peek() == '(':
                    a += ''.join(self.group())
                r.append(a)
            else:
                return r

    def group(self):
        """consume balanced group, return tokens"""
        close = {'(': ')', '{': '}', '[': ']'}
        st = []
        r = []
        while True:
            t = self.nxt()
            r.append(t)
            if t in close:
                st.append(close[t])
            elif st and t == st[-1]:
                st.pop()
                if not st:
                    return r
            elif t in ')}]':
                raise HdrError("mismatched %r" % t)

    # types
    def specifiers(self):
        const = False
        tag = ''
        words = []
        name = None
        while True:
            p = self.peek()
            if p == 'const':
                if const:
                    raise HdrError("duplicate const")
                const = True
                self.nxt()
            elif p in ('struct', 'union', 'enum') and name is None and not words:
                tag = self.nxt() + ' '
            elif p in MULTI and name is None:
                words.append(self.nxt())
            elif p is not None and re.match(r'[A-Za-z_]', p) and name is None and not words and not p.startswith('VP_'):
                name = self.nxt()
                while self.peek() == '::':
                    self.nxt()
                    name += '::' + self.nxt()
                if self.peek() == '<':
                    name += '<' + ','.join(self.targs()) + '>'
            elif p == '...' and name is None and not words:
                self.nxt()
                name = '...'
            else:
                break
        if words:
            name = ' '.join(words)
        if name is None:
            raise HdrError("no type specifier near %r" % [a for a, _ in self.toks[max(0, self.i - 8):self.i + 8]])
        return ('const ' if const else '') + tag + name

    def targs(self):
        self.expect('<')
        r = []
        if self.peek() == '>':
            self.nxt()
            return r
        while True:
            p = self.peek()
            if re.match(r"[0-9'\-]", p) or p in ('true', 'false'):
                v = self.nxt()
                if v == '-':
                    v += self.nxt()
                r.append(v)
            else:
                _, t = self.declaration(abstract=True)
                r.append(t)
            x = self.nxt()
            if x == '>':
                return r
            if x == '>>':
                self.toks[self.i - 1] = ('>', self.toks[self.i - 1][1])
                self.i -= 1
                return r
            if x != ',':
                raise HdrError("bad template args %r" % x)

    def declarator(self):
        """returns (name, wrap)"""
        p = self.peek()
        if p in ('*', '&'):
            self.nxt()
            c = False
            at = ''
            while True:
                q = self.peek()
                if q == 'const':
                    c = True
                    self.nxt()
                elif q and q.startswith('VP_'):
                    at += self.nxt()
                else:
                    break
            name, w = self.declarator()
            pre = ('const ' if c else '') + p + at
            return name, (lambda base: w(pre + '(' + base + ')'))
        name = ''
        inner = None
        if p == '(' and (self.peek(1) in ('*', '&', '(') or (self.peek(1) or '').startswith('VP_')):
            self.nxt()
            name, inner = self.declarator()
            self.expect(')')
        elif p is not None and re.match(r'[A-Za-z_]', p):
            name = self.nxt()
            while self.peek() == '::':
                self.nxt()
                name += '::' + self.nxt()
        sfx = []
        while self.peek() in ('[', '('):
            if self.peek() == '[':
                g = self.group()
                sfx.append('[' + ''.join(g[1:-1]) + ']')
            else:
                sfx.append('fn(' + self.params() + ')->')
                at = self.attrs()
                if at:
                    sfx[-1] += ''.join(at)

        def wrap(base):
            t = base
            for s in reversed(sfx):
                t = s + '(' + t + ')'
            return inner(t) if inner else t
        return name, wrap

    def params(self):
        self.expect('(')
        if self.peek() == ')':
            self.nxt()
            return '' if self.cpp else '?'
        if self.peek() == 'void' and self.peek(1) == ')':
            self.nxt()
            self.nxt()
            return ''
        r = []
        while True:
            n, t = self.declaration()
            r.append((n + ':' if n else '') + t)
            x = self.nxt()
            if x == ')':
                return ','.join(r)
            if x != ',':
                raise HdrError("bad parameter list %r" % x)

    def declaration(self, abstract=False):
        self.pattrs = self.attrs()
        base = self.specifiers()
        n, w = self.declarator()
        return n, w(base)

    # top level
    def parse(self):
        self.block(None)
        return self

    def block(self, outer):
        while self.peek() is not None:
            if self.peek() == '}':
                return
            self.top()

    def template(self):
        gen = []
        while self.peek() == 'template':
            self.nxt()
            self.expect('<')
            while True:
                if self.peek() == 'typename':
                    self.nxt()
                    g = 'typename ' + self.nxt()
                else:
                    n, t = self.declaration()
                    g = t + ' ' + n
                d = ''
                if self.peek() == '=':
                    self.nxt()
                    if re.match(r'[0-9]', self.peek()):
                        d = '=' + self.nxt()
                    else:
                        _, t = self.declaration(abstract=True)
                        d = '=' + t
                gen.append(g + d)
                x = self.nxt()
                if x == '>':
                    break
                if x == '>>':
                    raise HdrError("template >>")
                if x != ',':
                    raise HdrError("bad template params")
        return gen

    def emit(self, d):
        d["ns"] = '::'.join(self.ns)
        d["ext"] = self.extc > 0
        if not d["doc"] and not (d["k"] != "const" and "::" in d["n"]):
            d["doc"] = self.tdoc
        self.decls.append(d)

    def top(self):
        t = self.peek()
        cond = self.cond()
        self.tdoc = self.doc()
        if t == ';':
            self.nxt()
            return
        if t == '#define':
            self.nxt()
            n = self.nxt()
            v = self.toks[self.i][0]
            self.i += 1
            d = empty_decl('const', n, cond)
            d["v"] = squeeze(v)
            d["td"] = "define"
            self.emit(d)
            return
        if t == 'extern' and self.peek(1) == '"C"' and self.peek(2) == '{':
            self.i += 3
            self.extc += 1
            self.block(None)
            self.expect('}')
            self.extc -= 1
            return
        if t == 'namespace':
            self.nxt()
            self.ns.append(self.nxt())
            self.expect('{')
            self.block(None)
            self.expect('}')
            self.ns.pop()
            return
        if t == 'using' and self.peek(1) == 'namespace':
            self.i += 2
            self.using_ns.append(self.nxt())
            self.expect(';')
            return
        if t == 'friend' or (t in ('inline', 'static') and self.is_operator()):
            # derived free functions (ostream operators)
            self.skip_method('')
            return
        gen = self.template() if t == 'template' else []
        t = self.peek()
        if t == 'friend' or (t in ('inline', 'static') and self.is_operator()):
            self.skip_method('')
            return
        if t == 'using':
            self.nxt()
            n = self.nxt()
            self.expect('=')
            _, ty = self.declaration(abstract=True)
            self.expect(';')
            d = empty_decl('typedef', n, cond)
            d["t"] = ty
            d["gen"] = gen
            self.emit(d)
            return
        if t == 'typedef':
            self.nxt()
            if self.peek() in ('struct', 'union', 'enum') and self.is_definition():
                self.record(gen, cond, typedef=True)
                return
            n, ty = self.declaration()
            self.expect(';')
            m = re.match(r'(struct|union|enum) (\w+)$', ty)
            if m and m.group(2) == n and m.group(1) == 'struct':
                d = empty_decl('opaque', n, cond)
                d["tag"] = m.group(2)
                d["td"] = n
            else:
                d = empty_decl('typedef', n, cond)
                d["t"] = ty
                d["td"] = n
            self.emit(d)
            return
        if t in ('struct', 'union', 'enum') and self.is_definition():
            self.record(gen, cond, typedef=False)
            return
        if t in ('struct', 'union') and self.peek(2) == ';':
            self.nxt()
            n = self.nxt()
            self.nxt()
            d = empty_decl('opaque', n, cond)
            d["tag"] = n
            d["gen"] = gen
            self.emit(d)
            return
        pre = []
        while self.peek() in ('constexpr', 'static', 'inline', 'extern') or (self.peek() or '').startswith('VP_'):
            if self.peek().startswith('VP_'):
                pre += self.attrs()
            else:
                pre.append(self.nxt())
        n, ty = self.declaration()
        post = self.attrs()
        if self.peek() == '=':
            self.nxt()
            val = self.until_semi()
            d = empty_decl('const', n, cond)
            d["t"] = ty
            d["v"] = squeeze(val)
            d["attrs"] = pre
            d["gen"] = gen
            self.emit(d)
            return
        self.expect(';')
        if 'extern' in pre and not ty.startswith('fn('):
            d = empty_decl('global', n, cond)
            d["t"] = ty
            d["attrs"] = [a for a in pre if a != 'extern']
            self.emit(d)
            return
        if not ty.startswith('fn('):
            raise HdrError("unrecognised declaration %r %r" % (n, ty))
        d = empty_decl('fn', n, cond)
        d["t"] = absorb(ty, post)
        d["attrs"] = pre
        self.emit(d)

    def until_semi(self):
        r = []
        depth = 0
        while True:
            t = self.nxt()
            if t in '({[':
                depth += 1
            elif t in ')}]':
                depth -= 1
            if t == ';' and depth == 0:
                return ' '.join(r)
            r.append(t)

    def is_operator(self):
        j = self.i
        while j < len(self.toks) and self.toks[j][0] not in ('{', ';', '='):
            if self.toks[j][0] == 'operator':
                return True
            j += 1
        return False

    def is_definition(self):
        """at struct/union/enum: is there a { before ; , ) * """
        j = self.i
        while j < len(self.toks):
            t = self.toks[j][0]
            if t == '{':
                return True
            if t in (';', '*', '=', ','):
                return False
            j += 1
        return False

    def record(self, gen, cond, typedef, prefix=''):
        rdoc = self.doc() if prefix else self.tdoc
        kw = self.nxt()
        cls = False
        if kw == 'enum' and self.peek() in ('class', 'struct'):
            self.nxt()
            cls = True
        at = self.attrs()
        tag = ''
        if self.peek() not in ('{', ':'):
            tag = self.nxt()
            at += self.attrs()
        prim = ''
        if self.peek() == ':':
            self.nxt()
            prim = self.specifiers()
        self.expect('{')
        if kw == 'enum':
            vals = []
            while self.peek() != '}':
                vc = self.cond()
                vd = self.doc()
                vn = self.nxt()
                va = self.attrs()
                v = ''
                if self.peek() == '=':
                    self.nxt()
                    r = []
                    depth = 0
                    while not (self.peek() in (',', '}') and depth == 0):
                        x = self.nxt()
                        depth += x in '({['
                        depth -= x in ')}]'
                        r.append(x)
                    v = ''.join(r)
                vals.append({"n": vn, "v": squeeze(v), "cond": vc, "attrs": va, "doc": vd})
                if self.peek() == ',':
                    self.nxt()
            self.expect('}')
            td = ''
            if typedef:
                td = self.nxt()
            self.expect(';')
            d = empty_decl('enum', prefix + (tag or td), cond)
            d.update(tag=tag, td=td, vals=vals, prim=prim, attrs=at, cls=cls, gen=gen, doc=rdoc)
            self.emit(d)
            return
        # struct / union
        name0 = tag
        fields, meth = self.members(prefix + (tag or '?') + '::', tag)
        td = ''
        self.expect('}')
        if typedef:
            td = self.nxt()
        self.expect(';')
        d = empty_decl(kw, prefix + (tag or td), cond)
        d.update(tag=tag, td=td, fields=fields, meth=meth, gen=gen, attrs=at, doc=rdoc)
        self.emit(d)

    def members(self, prefix, cname):
        fields = []
        meth = []
        while self.peek() != '}':
            t = self.peek()
            cond = self.cond()
            fdoc = self.doc()
            if t is None:
                raise HdrError("unterminated struct")
            if t == ';':
                self.nxt()
                continue
            if t in ('public', 'private') and self.peek(1) == ':':
                self.i += 2
                continue
            if t in ('struct', 'union', 'enum') and self.is_definition_member():
                if self.peek(1) == '{':
                    kw = self.nxt()
                    self.nxt()
                    fs, _ = self.members(prefix, '')
                    self.expect('}')
                    self.expect(';')
                    fields.append({"n": "", "t": kw, "cond": cond, "fs": fs, "bits": "", "doc": fdoc})
                else:
                    self.record([], cond, False, prefix)
                continue
            if self.is_method(cname):
                meth.append(self.skip_method(cname))
                continue
            n, ty = self.declaration()
            bits = ''
            if self.peek() == ':':
                self.nxt()
                bits = self.nxt()
            self.expect(';')
            fields.append({"n": n, "t": ty, "cond": cond, "fs": [], "bits": bits, "doc": fdoc})
        return fields, meth

    def is_definition_member(self):
        j = self.i
        depth = 0
        while j < len(self.toks):
            t = self.toks[j][0]
            if t == '{' and depth == 0:
                return True
            if t == '(' and j > self.i and self.toks[j - 1][0].startswith('VP_'):
                while self.toks[j][0] != ')':
                    j += 1
            elif t == ';' or t == '(' or t == '*':
                return False
            j += 1
        return False

    def is_method(self, cname):
        t = self.peek()
        if t in ('static', 'friend', 'explicit', 'constexpr', '~', 'inline', 'operator'):
            return True
        # scan to first ; or { at depth 0
        j = self.i
        depth = 0
        while j < len(self.toks):
            x = self.toks[j][0]
            if x in '([':
                depth += 1
            elif x in ')]':
                depth -= 1
            elif x == ';' and depth == 0:
                return False
            elif x == '{' and depth == 0:
                return True
            j += 1
        return False

    def skip_method(self, cname):
        r = []
        depth = 0
        cond = self.cond()
        while True:
            t = self.peek()
            if t is None:
                raise HdrError("unterminated method")
            if t == '{' and depth == 0:
                body = self.group()
                if self.peek() == ';':
                    pass
                return {"s": ' '.join(r), "cond": cond, "b": ' '.join(body)}
            if t == ';' and depth == 0:
                self.nxt()
                return {"s": ' '.join(r), "cond": cond, "b": ""}
            depth += t in '(['
            depth -= t in ')]'
            r.append(self.nxt())


C_ENV = {"__cplusplus": False, "__STDC_VERSION__": 201710}
CPP_ENV = {"__cplusplus": True, "__STDC_VERSION__": 0}


def parse_c(text):
    return CParser(text, C_ENV, False).parse_done()


def parse_cpp(text):
    return CParser(text, CPP_ENV, True).parse_done()


def _done(self):
    self.parse()
    if self.peek() is not None:
        raise HdrError("unbalanced } at top level")
    return self


CParser.parse_done = _done


# ---------------------------------------------------------------- Cython
class CyLine:
    pass


def split_py_comment(s):
    """returns (code, comment) ; no strings expected in our Cython output except characters"""
    i = s.find('#')
    if i < 0:
        return s.rstrip(), None
    return s[:i].rstrip(), s[i + 1:]


class SubParser(CParser):
    def __init__(self, text):
        self.cpp = True
        self.docs = {}
        self.toks = [(t, TRUE) for t in tokenize(text)]
        self.i = 0


def parse_type_decl(s):
    p = SubParser(s)
    n, t = p.declaration()
    return n, t, p


def parse_cython(text):
    text = re.sub(r'(?m)^( +VP_\w+)\n +', r'\1 ', text)
    text = re.sub(r'\n +(VP_\w+;)', r' \1', text)
    raw = text.split('\n')
    # join continuation lines (unbalanced parens)
    lines = []
    buf = None
    pend = []
    for ln in raw:
        code, com = split_py_comment(ln)
        if buf is not None:
            buf = (buf[0], buf[1] + ' ' + code.strip(), None, buf[3])
            if buf[1].count('(') <= buf[1].count(')'):
                lines.append(buf)
                buf = None
            continue
        if not code.strip():
            if com is not None:
                pend.append('#' + com)
            continue
        docs = doc_lines(pend)
        pend = []
        ind = len(code) - len(code.lstrip())
        c = code.strip()
        if c.count('(') > c.count(')') and not c.startswith('from'):
            buf = (ind, c, com, docs)
            continue
        lines.append((ind, c, com, docs))
    if buf is not None:
        raise HdrError("unbalanced parens in cython")

    class R:
        pass
    res = R()
    res.decls = []
    res.includes = []
    res.guard = None
    res.comments = [ln for ln in raw if ln.strip().startswith('#')]
    res.using_ns = []
    # indentation tree
    pos = 0

    def tree(ind):
        nonlocal pos
        r = []
        while pos < len(lines) and lines[pos][0] >= ind:
            if lines[pos][0] > ind:
                raise HdrError("bad indentation: %r" % (lines[pos],))
            l = lines[pos]
            pos += 1
            ch = []
            if l[1].endswith(':'):
                if pos < len(lines) and lines[pos][0] > ind:
                    ch = tree(lines[pos][0])
                else:
                    raise HdrError("empty cython block %r" % (l,))
            r.append((l[1], l[2], ch, l[3]))
        return r
    top = tree(0)
    if pos != len(lines):
        raise HdrError("bad indentation in cython")

    def walk(nodes, cond):
        for code, com, ch, doc in nodes:
            if code == 'pass' or code == ';':
                continue
            m = re.match(r'IF (.*):$', code)
            if m:
                c = cy_cond(m.group(1))
                walk(ch, c_and(([] if cond["k"] == "true" else [cond]) + [c]))
                continue
            m = re.match(r'(?:cdef|ctypedef) (?:(packed) )?(struct|union|enum)\b(.*):$', code)
            if m:
                rest = m.group(3).split()
                at = [x for x in rest if x.startswith('VP_')]
                rest = [x for x in rest if not x.startswith('VP_')]
                n = rest[0] if rest else ''
                ctd = code.startswith('ctypedef')
                if m.group(2) == 'enum':
                    vals = []
                    for c2, com2, ch2, doc2 in ch:
                        if c2 == 'pass':
                            continue
                        v = ''
                        vn = c2.rstrip(',')
                        if com2 is not None and com2.startswith(' = '):
                            v = com2[3:].rstrip()
                            if v.endswith(','):
                                v = v[:-1]
                        vals.append({"n": vn.strip(), "v": squeeze(v), "cond": TRUE, "attrs": [], "doc": doc2})
                    d = empty_decl('enum', n, cond)
                    d.update(tag=n, vals=vals, doc=doc)
                    res.decls.append(d)
                    continue
                fields = []
                for c2, com2, ch2, doc2 in ch:
                    if c2 == 'pass' or c2 == ';':
                        continue
                    c2 = c2.rstrip(';')
                    if ch2:
                        raise HdrError("nested block in cython struct")
                    fn, ft, _ = parse_type_decl(c2)
                    fields.append({"n": fn, "t": ft, "cond": TRUE, "fs": [], "bits": "", "doc": doc2})
                only_pass = [c2 for c2, _, _, _ in ch] == ['pass']
                d = empty_decl(m.group(2), n, cond)
                d.update(doc=doc, tag=n, td=n if ctd else '', fields=fields, attrs=at + (['packed'] if m.group(1) else []))
                if only_pass:
                    d["meth"] = [{"s": "pass", "cond": TRUE, "b": ""}]
                res.decls.append(d)
                continue
            if code.endswith(':'):
                raise HdrError("unknown cython block " + code)
            m = re.match(r'ctypedef (.*);$', code)
            if m:
                n, t, _ = parse_type_decl(m.group(1))
                d = empty_decl('typedef', n, cond)
                d["t"] = t
                d["doc"] = doc
                res.decls.append(d)
                continue
            m = re.match(r'extern (.*);$', code)
            if m:
                n, t, _ = parse_type_decl(m.group(1))
                d = empty_decl('fn' if t.startswith('fn(') else 'global', n, cond)
                d["t"] = t
                d["doc"] = doc
                if d["k"] == 'fn':
                    d["attrs"] = ["extern"]
                res.decls.append(d)
                continue
            if com is not None and com.startswith(' = '):
                n, t, _ = parse_type_decl(code)
                d = empty_decl('const', n, cond)
                d["t"] = t
                d["v"] = squeeze(com[3:])
                d["doc"] = doc
                res.decls.append(d)
                continue
            p = SubParser(code.rstrip(';'))
            pre = p.attrs()
            p.pattrs = []
            base = p.specifiers()
            n, w = p.declarator()
            t = w(base)
            post = p.attrs()
            if not t.startswith('fn('):
                raise HdrError("unrecognised cython line " + code)
            d = empty_decl('fn', n, cond)
            d["t"] = absorb(t, post)
            d["attrs"] = pre
            d["doc"] = doc
            res.decls.append(d)
    blocks = 0
    for code, com, ch, _ in top:
        if code.startswith('from '):
            res.includes.append(code)
            continue
        m = re.match(r'cdef extern from (.*):$', code)
        if m:
            blocks += 1
            if [c for c, _, _, _ in ch] == ['ctypedef bint bool', 'ctypedef struct va_list']:
                continue
            walk(ch, TRUE)
            continue
        raise HdrError("unknown cython top-level " + code)
    return res


def cy_cond(s):
    toks = re.findall(r'\w+|[()]', s)
    pos = 0

    def orx():
        nonlocal pos
        a = [andx()]
        while pos < len(toks) and toks[pos] == 'or':
            pos += 1
            a.append(andx())
        return a[0] if len(a) == 1 else {"k": "or", "as": a}

    def andx():
        nonlocal pos
        a = [un()]
        while pos < len(toks) and toks[pos] == 'and':
            pos += 1
            a.append(un())
        return a[0] if len(a) == 1 else {"k": "and", "as": a}

    def un():
        nonlocal pos
        if pos >= len(toks):
            raise HdrError("bad cython condition " + s)
        t = toks[pos]
        pos += 1
        if t == 'not':
            return {"k": "not", "a": un()}
        if t == '(':
            r = orx()
            if pos >= len(toks) or toks[pos] != ')':
                raise HdrError("bad cython condition " + s)
            pos += 1
            return r
        return {"k": "def", "n": t}
    r = orx()
    if pos != len(toks):
        raise HdrError("bad cython condition " + s)
    return r


def parse(lang, text):
    if lang == 'C':
        return parse_c(text)
    if lang == 'Cxx':
        return parse_cpp(text)
    return parse_cython(text)


if __name__ == '__main__':
    import sys, json
    r = parse(sys.argv[1], open(sys.argv[2]).read())
    for d in r.decls:
        print(json.dumps({k: v for k, v in d.items() if v not in ('', [], False)}))
