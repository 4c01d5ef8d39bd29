"""Common syntax tree, tokeniser and Pratt-parser base used by all target-language front ends."""
import re

class N:
    """Syntax tree node: kind, line, attributes."""
    def __init__(self, k, line, **kw):
        self.k = k; self.line = line
        self.__dict__.update(kw)
    def __repr__(self):
        return "N(%s)" % ", ".join("%s=%r" % (a, b) for a, b in self.__dict__.items() if a != "line")

class ParseError(Exception):
    pass

class Tok:
    __slots__ = ("t", "v", "line", "nl", "sp", "pos")
    def __init__(self, t, v, line, nl, sp, pos):
        self.t = t; self.v = v; self.line = line; self.nl = nl; self.sp = sp; self.pos = pos
    def __repr__(self):
        return "%s:%r@%d" % (self.t, self.v, self.line)

NUM = re.compile(r"0[xX][0-9a-fA-F_]+|0[bB][01_]+|0[oO][0-7_]+|\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][+-]?\d+)?")
IDENT = re.compile(r"[A-Za-z_$\u0080-\uffff][A-Za-z0-9_$\u0080-\uffff]*")
ESC = {"n": "\n", "t": "\t", "r": "\r", "0": "\0", "\\": "\\", "'": "'", '"': '"', "`": "`"}

def unescape(s):
    out = []; i = 0
    while i < len(s):
        c = s[i]
        if c == "\\" and i + 1 < len(s):
            d = s[i+1]
            if d == "x" and i + 3 < len(s):
                try:
                    out.append(chr(int(s[i+2:i+4], 16))); i += 4; continue
                except ValueError: pass
            out.append(ESC.get(d, d)); i += 2
        else:
            out.append(c); i += 1
    return "".join(out)

class Lexer:
    """Options: nested comments, template strings, go semicolons."""
    puncts = []
    nested = False
    char_quote = True      # 'x' is a char/string literal
    lifetimes = False      # rust 'a
    num_suffix = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")
    block_comments = True
    def __init__(self, src, fname="?"):
        self.src = src; self.fname = fname
        self.toks = []
        self.comments = []
        self.ps = sorted(self.puncts, key=lambda p: -len(p))
        self.run()
    def err(self, m):
        raise ParseError("%s:%d: %s" % (self.fname, self.line, m))
    def special(self, i):
        """language hook: return (tok_type, value, new_index) or None"""
        return None
    def run(self):
        s = self.src; n = len(s); i = 0; self.line = 1; nl = True; sp = True
        add = lambda t, v, i: self.toks.append(Tok(t, v, self.line, nl, sp, i))
        while i < n:
            c = s[i]
            if c == "\n":
                self.line += 1; nl = True; sp = True; i += 1; self.newline(); continue
            if c in " \t\r\f":
                sp = True; i += 1; continue
            if s.startswith("//", i):
                j = s.find("\n", i); j = n if j < 0 else j
                self.comments.append((self.line, s[i:j])); i = j; sp = True; continue
            if self.block_comments and s.startswith("/*", i):
                j = i + 2; depth = 1
                while depth:
                    if j >= n: self.err("unterminated comment")
                    if self.nested and s.startswith("/*", j): depth += 1; j += 2
                    elif s.startswith("*/", j): depth -= 1; j += 2
                    else: j += 1
                self.comments.append((self.line, s[i:j]))
                if "\n" in s[i:j]: nl = True
                self.line += s.count("\n", i, j); i = j; sp = True; continue
            r = self.special(i)
            if r is not None:
                t, v, j = r
                add(t, v, i); self.line += s.count("\n", i, j); i = j; nl = False; sp = False; continue
            if c == '"':
                j = i + 1
                while j < n and s[j] != '"':
                    if s[j] == "\n": self.err("newline in string")
                    j += 2 if s[j] == "\\" else 1
                add("str", unescape(s[i+1:j]), i); i = j + 1; nl = False; sp = False; continue
            if c == "'" and self.char_quote:
                j = i + 1
                while j < n and s[j] != "'":
                    j += 2 if s[j] == "\\" else 1
                add("char", unescape(s[i+1:j]), i); i = j + 1; nl = False; sp = False; continue
            m = NUM.match(s, i)
            if m and c.isdigit():
                j = m.end(); txt = m.group()
                m2 = self.num_suffix.match(s, j)
                suf = ""
                if m2 and not txt.lower().startswith("0x"):
                    suf = m2.group(); j = m2.end()
                elif m2:
                    suf = m2.group(); j = m2.end()
                clean = txt.replace("_", "")
                if txt.lower().startswith(("0x", "0b", "0o")): v = int(clean, 0)
                elif re.search(r"[.eE]", clean): v = float(clean)
                else: v = int(clean)
                add("num", (v, suf.lstrip("_")), i); i = j; nl = False; sp = False; continue
            m = IDENT.match(s, i)
            if m:
                add("id", m.group(), i); i = m.end(); nl = False; sp = False; continue
            for p in self.ps:
                if s.startswith(p, i):
                    add("p", p, i); i += len(p); nl = False; sp = False; break
            else:
                self.err("unexpected character %r" % c)
        nl = True
        add("eof", "", n)
    def newline(self):
        pass

class Parser:
    lexer = Lexer
    # binary precedence: op -> (prec, right_assoc)
    binops = {}
    assign_ops = {"=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>="}
    def __init__(self, src, fname="?"):
        self.fname = fname
        self.lx = self.lexer(src, fname)
        self.toks = self.lx.toks; self.i = 0
        self.no_struct = 0
    @property
    def tok(self): return self.toks[self.i]
    def peek(self, k=1):
        return self.toks[min(self.i + k, len(self.toks) - 1)]
    def err(self, m=None):
        raise ParseError("%s:%d: %s near %r" % (self.fname, self.tok.line, m or "syntax error",
                         " ".join(str(t.v) for t in self.toks[self.i:self.i+8])))
    def next(self):
        t = self.tok; self.i += 1; return t
    def at(self, v):
        t = self.tok
        return t.v == v and t.t in ("p", "id")
    def atany(self, *vs):
        return self.tok.t in ("p", "id") and self.tok.v in vs
    def acc(self, v):
        if self.at(v): self.i += 1; return True
        return False
    def exp(self, v):
        if not self.at(v): self.err("expected %r" % v)
        return self.next()
    def ident(self):
        if self.tok.t != "id": self.err("expected identifier")
        return self.next().v
    def split(self, first):
        """split a punctuation token such as >> into > >"""
        t = self.tok
        if t.t == "p" and t.v.startswith(first) and t.v != first:
            rest = Tok("p", t.v[len(first):], t.line, False, False, t.pos + len(first))
            self.toks[self.i] = Tok("p", first, t.line, t.nl, t.sp, t.pos)
            self.toks.insert(self.i + 1, rest)
    def exp_gt(self):
        self.split(">"); self.exp(">")
    # -- expressions
    def unary(self): raise NotImplementedError
    def infix_stop(self, t): return False
    def special_infix(self, left, minprec): return None
    def expr(self, minprec=0):
        left = self.unary()
        while True:
            t = self.tok
            if self.infix_stop(t): break
            r = self.special_infix(left, minprec)
            if r is not None:
                left = r; continue
            if t.t in ("p", "id") and t.v in self.binops:
                prec, right = self.binops[t.v]
                if prec < minprec: break
                self.next()
                rhs = self.expr(prec if right else prec + 1)
                left = N("bin", t.line, op=t.v, l=left, r=rhs)
                continue
            break
        return left
    def try_parse(self, f):
        """backtracking attempt; returns None when f raises ParseError"""
        save_i, save_t = self.i, list(self.toks)
        try:
            return f()
        except ParseError:
            self.i = save_i; self.toks = save_t
            return None
