"""Swift front end."""
import re
from .base import *

class SwiftLexer(Lexer):
    puncts = ["...","..<","===","!==","<<=",">>=","&+","&-","&*","->","&&","||","??","==","!=","<=",">=","+=","-=","*=","/=","%=","&=","|=","^=","<<",">>",
              "+","-","*","/","%","&","|","^","~","!","<",">","=","?",":",";",",",".","(",")","[","]","{","}","@","#"]
    nested = True
    char_quote = False
    def special(self, i):
        s = self.src
        if s[i] == "$":
            m = re.compile(r"\$\d+").match(s, i); return ("id", m.group(), m.end())
        if s[i] == "`":
            j = s.index("`", i + 1); return ("id", s[i+1:j], j + 1)
        if s.startswith('"""', i):
            j = s.index('"""', i + 3); return ("str", s[i+3:j], j + 3)
        if s[i] == '"':
            j = i + 1; parts = []; cur = ""
            while s[j] != '"':
                if s.startswith("\\(", j):
                    d = 1; k = j + 2
                    while d:
                        if s[k] == "(": d += 1
                        elif s[k] == ")": d -= 1
                        k += 1
                    parts += [cur, ("expr", s[j+2:k-1])]; cur = ""; j = k
                elif s[j] == "\\": cur += unescape(s[j:j+2]); j += 2
                else: cur += s[j]; j += 1
            if parts: return ("tmpl", parts + [cur], j + 1)
            return ("str", cur, j + 1)
        m = re.compile(r"(\d[\d_]*)(?=\.\.)").match(s, i)
        if m: return ("num", (int(m.group(1).replace("_", "")), ""), m.end())

MODS = {"public","private","internal","fileprivate","open","static","final","override","required","mutating","nonmutating","lazy","weak","unowned","convenience","indirect","dynamic","nonisolated"}

class SwiftParser(Parser):
    lexer = SwiftLexer
    binops = {"??":(4,1),"||":(2,0),"&&":(3,0),"==":(5,0),"!=":(5,0),"<":(5,0),"<=":(5,0),">":(5,0),">=":(5,0),"===":(5,0),"!==":(5,0),
              "...":(7,0),"..<":(7,0),"+":(8,0),"-":(8,0),"|":(8,0),"^":(8,0),"&+":(8,0),"&-":(8,0),"*":(9,0),"/":(9,0),"%":(9,0),"&":(9,0),"&*":(9,0),"<<":(10,0),">>":(10,0)}
    def parse(self):
        out = []
        while self.tok.t != "eof": out.extend(self.top())
        return out
    def semi(self):
        while self.acc(";"): pass
    def attrs(self):
        while self.at("@"):
            self.next(); self.ident()
            if self.at("(") and not self.tok.sp: 
                d = 0
                while True:
                    t = self.next()
                    if t.v == "(": d += 1
                    elif t.v == ")":
                        d -= 1
                        if d == 0: break
    def mods(self):
        m = set()
        while True:
            self.attrs()
            t = self.tok
            if t.t == "id" and t.v in MODS and self.peek().t in ("id",): m.add(self.next().v)
            elif t.t == "id" and t.v in ("private", "fileprivate", "internal", "public") and self.peek().v == "(": self.next(); self.next(); self.next(); self.exp(")")
            elif t.t == "id" and t.v == "class" and self.peek().v in ("func", "var", "override", "final"): self.next(); m.add("static")
            else: return m
    def top(self):
        self.semi()
        if self.tok.t == "eof" or self.at("}"): return []
        if self.at("import"):
            self.next(); self.ident()
            while self.acc("."): self.ident()
            return []
        save = self.i; m = self.mods(); line = self.tok.line
        if self.at("enum") or self.at("struct") or self.at("class") or self.at("extension") or self.at("protocol"):
            return [self.nominal(m)]
        if self.at("func"): return [self.func(m, None)]
        if self.at("typealias"):
            self.next(); n = self.ident(); self.exp("="); return [N("typedef", line, name=n, ty=self.type())]
        self.i = save
        return self.stmt()
    def nominal(self, m):
        line = self.tok.line; k = self.next().v
        n = self.ident()
        while self.acc("."): n += "." + self.ident()
        self.generics(); bases = []; where = None
        if self.acc(":"):
            bases.append(self.type())
            while self.acc(","): bases.append(self.type())
        if self.acc("where"):
            where = [str(self.next().v)]
            while not self.at("{"): where.append(str(self.next().v))
        self.exp("{"); fields = []; inits = {}; methods = []; nested = []; statics = {}; values = []; payload = {}
        while True:
            self.semi()
            if self.acc("}"): break
            if self.at("case") and k == "enum":
                self.next()
                while True:
                    v = self.ident(); e = None
                    if self.at("("): self.next(); ps = []; payload[v] = ps; 
                    if v in payload:
                        while not self.acc(")"): ps.append(self.type()); self.acc(",")
                    if self.acc("="): e = self.expr()
                    values.append((v, e))
                    if not self.acc(","): break
                continue
            mm = self.mods(); l = self.tok.line
            if self.atany("enum", "struct", "class", "extension", "protocol"): nested.append(self.nominal(mm)); continue
            if self.at("typealias"):
                self.next(); tn = self.ident(); self.exp("="); nested.append(N("typedef", l, name=tn, ty=self.type())); continue
            if self.at("func"): methods.append(self.func(mm, n)); continue
            if self.at("init"):
                self.next(); self.acc("?"); self.acc("!"); self.generics(); ps = self.params(); thr = self.acc("throws")
                methods.append(N("fn", l, name="$init", params=[(b, t) for a, b, t, d, io in ps], labels=[a for a, b, t, d, io in ps], defaults=[d for a, b, t, d, io in ps], inout=[io for a, b, t, d, io in ps],
                                 ret=None, body=self.block() if self.at("{") else None, cls=n, static=False, throws=thr)); continue
            if self.at("deinit"): self.next(); self.block(); continue
            if self.at("subscript"): self.err("subscript")
            if self.atany("var", "let"):
                self.next(); f = self.ident(); ty = self.type() if self.acc(":") else None
                init = self.expr() if self.acc("=") else None
                if self.at("{"):
                    # computed property
                    if self.peek().v in ("get", "set"):
                        self.next(); getb = None
                        while not self.acc("}"):
                            w = self.ident()
                            if self.at("("): self.params()
                            b = self.block()
                            if w == "get": getb = b
                    else: getb = self.block()
                    methods.append(N("fn", l, name=f, params=[], labels=[], defaults=[], inout=[], ret=ty, body=getb, cls=n, static="static" in mm, acc="get", throws=False)); continue
                if "static" in mm: statics[f] = init
                else: fields.append((f, ty)); inits[f] = init
                continue
            self.err("member")
        if k == "enum" and (values or not nested and not methods):
            return N("enum", line, name=n, values=values, base=bases[0] if bases else None, payload=payload, methods=methods)
        return N("struct", line, name=n, fields=fields, inits=inits, statics=statics, methods=methods, nested=nested, bases=bases, flavor=k, where=where)
    def generics(self):
        if self.at("<"):
            d = 0
            while True:
                self.split(">"); t = self.next()
                if t.v == "<": d += 1
                elif t.v == ">":
                    d -= 1
                    if d == 0: return
    def func(self, m, cls):
        line = self.exp("func").line; n = self.next().v; self.generics(); ps = self.params(); thr = False
        if self.acc("throws") or self.acc("rethrows"): thr = True
        ret = self.type() if self.acc("->") else None
        if self.acc("where"):
            while not self.at("{"): self.next()
        body = self.block() if self.at("{") else None
        return N("fn", line, name=n, params=[(b, t) for a, b, t, d, io in ps], labels=[a for a, b, t, d, io in ps], defaults=[d for a, b, t, d, io in ps], inout=[io for a, b, t, d, io in ps],
                 ret=ret, body=body, cls=cls, static="static" in m, throws=thr)
    def params(self):
        self.exp("("); ps = []
        while not self.acc(")"):
            self.attrs()
            a = self.ident(); b = self.ident() if self.tok.t == "id" else a
            self.exp(":"); self.attrs(); io = self.acc("inout"); ty = self.type(); d = self.expr() if self.acc("=") else None
            ps.append((None if a == "_" else a, b, ty, d, io)); self.acc(",")
        return ps
    def type(self):
        if self.atany("some", "any", "inout"): self.next()
        if self.acc("["):
            a = self.type()
            if self.acc(":"): b = self.type(); self.exp("]"); ty = ("map", a, b)
            else: self.exp("]"); ty = ("slice", a)
        elif self.acc("("):
            ts = []
            while not self.acc(")"):
                if self.tok.t == "id" and self.peek().v == ":": self.next(); self.next()
                ts.append(self.type()); self.acc(",")
            ty = ts[0] if len(ts) == 1 else ("tuple", ts)
            self.acc("throws")
            if self.acc("->"): self.type(); ty = ("fn",)
        else:
            n = self.ident(); ty = ("name", n); args = None
            while True:
                if self.at("<"):
                    self.next(); args = []
                    while True:
                        args.append(self.type()); self.split(">")
                        if not self.acc(","): break
                    self.exp_gt()
                if self.at(".") and self.peek().t == "id": self.next(); n += "." + self.ident()
                else: break
            ty = ("gen", n, args) if args else ("name", n)
        while self.atany("?", "!") and not self.tok.sp: self.next(); ty = ("opt", ty)
        return ty
    # statements
    def block(self):
        line = self.exp("{").line; b = []; save = self.no_struct; self.no_struct = 0
        while True:
            self.semi()
            if self.acc("}"): break
            b.extend(self.stmt())
        self.no_struct = save
        return N("block", line, body=b)
    def conds(self):
        out = []
        self.no_struct += 1
        while True:
            line = self.tok.line
            if self.atany("let", "var"):
                self.next(); n = self.ident()
                if self.acc(":"): self.type()
                e = self.expr() if self.acc("=") else N("name", line, id=n)
                out.append(N("iflet", line, name=n, e=e))
            elif self.acc("case"):
                p = self.pattern(); self.exp("="); out.append(N("casecond", line, pat=p, e=self.expr()))
            else: out.append(self.expr())
            if not self.acc(","): break
        self.no_struct -= 1
        return out
    def pattern(self):
        line = self.tok.line
        if self.atany("let", "var"): self.next(); return N("pbind", line, id=self.ident(), sub=None)
        if self.at("_"): self.next(); return N("pwild", line)
        if self.acc("is"): self.type(); return N("pwild", line)
        return N("plit", line, e=self.expr())
    def vars(self):
        line = self.tok.line; kw = self.next().v; out = []
        while True:
            if self.at("("):
                self.next(); ns = []
                while not self.acc(")"): ns.append(self.ident()); self.acc(",")
                self.exp("="); out.append(N("destruct", line, names=ns, init=self.expr()))
            else:
                n = self.ident(); ty = self.type() if self.acc(":") else None
                init = self.expr() if self.acc("=") else None
                out.append(N("var", line, name=n, ty=ty, init=init, const=kw == "let"))
            if not self.acc(","): return out
    def stmt(self):
        self.attrs(); t = self.tok; line = t.line
        if self.acc(";"): return []
        if t.t == "id":
            v = t.v
            if v in ("let", "var"): return self.vars()
            if v == "guard":
                self.next(); cs = self.conds(); self.exp("else"); b = self.block()
                return [N("guard", line, conds=cs, els=b)]
            if v == "if": return [self.ifstmt()]
            if v == "while":
                self.next(); cs = self.conds(); return [N("swhile", line, conds=cs, body=self.block())]
            if v == "repeat":
                self.next(); b = self.block(); self.exp("while"); return [N("dowhile", line, c=self.expr(), body=b)]
            if v == "for":
                self.next(); self.acc("case"); self.acc("let"); 
                if self.at("("):
                    self.next(); ns = []
                    while not self.acc(")"): ns.append(self.ident()); self.acc(",")
                    n = ns
                else: n = self.ident()
                if self.acc(":"): self.type()
                self.exp("in"); self.no_struct += 1; it = self.expr(); w = self.expr() if self.acc("where") else None; self.no_struct -= 1
                return [N("foreach", line, idx=None, var=n, iter=it, body=self.block(), decl=True, style="swift", where=w)]
            if v == "switch": return [self.switch()]
            if v == "return":
                self.next(); e = None
                if not self.tok.nl and not self.atany(";", "}"): e = self.expr()
                self.semi(); return [N("ret", line, e=e)]
            if v == "throw": self.next(); e = self.expr(); return [N("throw", line, e=e)]
            if v in ("break", "continue"):
                self.next(); l = None
                if self.tok.t == "id" and not self.tok.nl and not self.atany("case", "default"): l = self.next().v
                return [N("brk" if v == "break" else "cont", line, label=l)]
            if v == "fallthrough": self.next(); return [N("fallthrough", line)]
            if v == "defer": self.next(); return [N("defer", line, body=self.block(), err=False)]
            if v == "do":
                self.next(); b = self.block(); cs = []
                while self.acc("catch"):
                    if not self.at("{"):
                        self.no_struct += 1; self.pattern(); self.no_struct -= 1
                    cs.append(("error", None, self.block()))
                return [N("trycatch", line, body=b, catches=cs, fin=None)] if cs else [b]
            if v == "func": return [self.func(set(), None)]
            if v in ("struct", "class", "enum") : return [self.nominal(set())]
            if self.peek().v == ":" and self.peek(2).v in ("for", "while", "repeat", "switch", "do"):
                self.next(); self.next(); s = self.stmt()[0]; s.label = v; return [s]
        e = self.expr(); self.semi()
        return [N("expr", line, e=e)]
    def ifstmt(self):
        line = self.exp("if").line; cs = self.conds(); a = self.block(); b = None
        if self.acc("else"): b = self.ifstmt() if self.at("if") else self.block()
        return N("sif", line, conds=cs, a=a, b=b)
    def switch(self):
        line = self.exp("switch").line; self.no_struct += 1; e = self.expr(); self.no_struct -= 1
        self.exp("{"); cases = []; save = self.no_struct; self.no_struct = 0
        while not self.acc("}"):
            self.attrs(); pats = []
            if self.acc("default"): pats = [None]
            else:
                self.exp("case")
                while True:
                    p = self.pattern()
                    if self.acc("where"): self.err("where")
                    pats.append(p.e if p.k == "plit" else None if p.k == "pwild" else p)
                    if not self.acc(","): break
            self.exp(":"); body = []
            while not self.atany("case", "default", "}"):
                if self.acc(";"): continue
                body.extend(self.stmt())
            cases.append((pats, N("block", line, body=body)))
        self.no_struct = save
        return N("switch", line, e=e, cases=cases, fall=False)
    # expressions
    def infix_stop(self, t):
        # a binary operator on a new line with no space after it starts a new statement for prefix forms
        return False
    def expr(self, minprec=0):
        if minprec > 1: return super().expr(minprec)
        line = self.tok.line
        if self.at("try"):
            self.next(); q = None
            if self.atany("?", "!"): q = self.next().v
            return N("stry", line, e=self.expr(), q=q)
        e = super().expr(2)
        if self.at("?") and self.tok.sp:
            self.next(); a = self.expr(); self.exp(":"); b = self.expr(); return N("cond", line, c=e, a=a, b=b)
        if self.tok.t == "p" and self.tok.v in self.assign_ops:
            op = self.next().v; return N("asg", line, op=op, l=e, r=self.expr())
        return e
    def special_infix(self, left, minprec):
        line = self.tok.line
        if self.at("as") and not self.tok.nl:
            self.next(); q = None
            if self.atany("?", "!"): q = self.next().v
            return N("cast", line, ty=self.type(), e=left, q=q)
        if self.at("is") and not self.tok.nl: self.next(); return N("istype", line, ty=self.type(), e=left)
        if self.atany("...",) and self.peek().v in ("]", ")"):
            self.next(); return N("rangex", line, lo=left, hi=None, incl=True)
        return None
    def unary(self):
        t = self.tok; line = t.line
        if t.t == "p" and t.v in ("!", "-", "+", "~", "&"): self.next(); return N("un", line, op=t.v, e=self.unary())
        if t.t == "p" and t.v in ("..<", "..."): self.next(); return N("rangex", line, lo=None, hi=self.expr(8), incl=t.v == "...")
        if t.t == "id" and t.v == "try":
            self.next(); q = None
            if self.atany("?", "!"): q = self.next().v
            return N("stry", line, e=self.expr(), q=q)
        if t.t == "id" and t.v == "await": self.next(); return self.unary()
        return self.postfix(self.primary())
    def primary(self):
        t = self.tok; line = t.line
        if t.t == "num":
            self.next(); v, suf = t.v; return N("lit", line, v=v, t="float" if isinstance(v, float) else "int", suf=suf)
        if t.t == "str": self.next(); return N("lit", line, v=t.v, t="str", suf="")
        if t.t == "tmpl": self.next(); return N("tmpl", line, parts=[N("lit", line, v=p if isinstance(p, str) else "?", t="str") for p in t.v])
        if t.v == "(" and t.t == "p":
            self.next(); save = self.no_struct; self.no_struct = 0
            if self.acc(")"): self.no_struct = save; return N("tuple", line, elems=[])
            if self.tok.t == "id" and self.peek().v == ":": self.next(); self.next()
            e = self.expr()
            if self.at(","):
                es = [e]
                while self.acc(","):
                    if self.tok.t == "id" and self.peek().v == ":": self.next(); self.next()
                    es.append(self.expr())
                e = N("tuple", line, elems=es)
            self.exp(")"); self.no_struct = save; return e
        if t.v == "[" and t.t == "p":
            # array type constructor [T]() or literal
            r = self.try_parse(self._tyctor)
            if r is not None: return r
            self.next(); save = self.no_struct; self.no_struct = 0; es = []; mp = []
            if self.at(":") and self.peek().v == "]": self.next(); self.next(); self.no_struct = save; return N("maplit", line, ty=None, items=[])
            while not self.acc("]"):
                k = self.expr()
                if self.acc(":"): mp.append((k, self.expr()))
                else: es.append(k)
                self.acc(",")
            self.no_struct = save
            return N("maplit", line, ty=None, items=mp) if mp else N("alit", line, elems=es, ty=None)
        if t.v == "{" and t.t == "p": return self.closure()
        if t.v == "." and t.t == "p": self.next(); return N("dotlit", line, id=self.ident())
        if t.v == "#": self.err("directive")
        if t.t == "id":
            v = t.v
            if v in ("true", "false"): self.next(); return N("lit", line, v=v == "true", t="bool", suf="")
            if v == "nil": self.next(); return N("lit", line, v=None, t="null", suf="")
            if v == "switch": return self.switch()
            if v == "if": return self.ifstmt()
            self.next(); return N("name", line, id=v)
        self.err()
    def _tyctor(self):
        line = self.tok.line; ty = self.type()
        if not (self.at("(") and not self.tok.sp): raise ParseError("no ctor")
        return N("new", line, ty=ty, args=self.args(), init=None)
    def closure(self):
        line = self.exp("{").line; save = self.no_struct; self.no_struct = 0
        ps = self.try_parse(self._cparams)
        body = []
        while True:
            self.semi()
            if self.acc("}"): break
            body.extend(self.stmt())
        self.no_struct = save
        if len(body) == 1 and body[0].k == "expr" and body[0].e.k != "asg": body = [N("ret", body[0].line, e=body[0].e)]
        return N("lam", line, params=ps, body=N("block", line, body=body), ret=None)
    def _cparams(self):
        ps = []
        if self.acc("["):
            while not self.acc("]"): self.next()
        if self.acc("("):
            while not self.acc(")"):
                n = self.ident(); ty = self.type() if self.acc(":") else None
                ps.append((n, ty)); self.acc(",")
        else:
            while True:
                n = self.ident(); ps.append((n, None))
                if not self.acc(","): break
        self.acc("throws")
        if self.acc("->"): self.type()
        self.exp("in")
        return ps
    def args(self):
        self.exp("("); out = []; save = self.no_struct; self.no_struct = 0
        while not self.acc(")"):
            lab = None
            if self.tok.t == "id" and self.peek().v == ":": lab = self.next().v; self.next()
            out.append((lab, self.expr())); self.acc(",")
        self.no_struct = save
        return out
    def postfix(self, e):
        while True:
            t = self.tok; line = t.line
            if t.t != "p": return e
            if t.v == ".":
                if self.peek().t == "num": self.next(); e = N("mem", line, o=e, f=str(self.next().v[0])); continue
                self.next(); e = N("mem", line, o=e, f=self.ident())
            elif t.v == "(" and not t.nl: 
                a = self.args()
                if self.at("{") and not self.no_struct and not self.tok.nl: a.append(("$trailing", self.closure()))
                e = N("call", line, f=e, args=a, targs=None)
            elif t.v == "{" and not self.no_struct and not t.nl and e.k in ("name", "mem"):
                e = N("call", line, f=e, args=[("$trailing", self.closure())], targs=None)
            elif t.v == "[" and not t.nl:
                self.next(); save = self.no_struct; self.no_struct = 0; i = self.expr(); self.exp("]"); self.no_struct = save
                e = N("idx", line, o=e, i=i)
            elif t.v == "!" and not t.sp and not (self.peek().v == "=" and not self.peek().sp): self.next(); e = N("unwrap", line, e=e)
            elif t.v == "?" and not t.sp and self.peek().v in (".", "[", "("): self.next(); e = N("optchain", line, e=e)
            elif t.v == "<" and not t.sp and e.k in ("name", "mem"):
                r = self.try_parse(self._callt)
                if r is None: return e
                if r[1] is None: e = N("tyref", line, ty=("gen", e.id if e.k == "name" else e.f, r[0]))
                else: e = N("call", line, f=e, args=r[1], targs=r[0])
            else: return e
    def _callt(self):
        self.exp("<"); ts = []
        while True:
            ts.append(self.type()); self.split(">")
            if not self.acc(","): break
        self.exp_gt()
        if not self.at("("): 
            if self.at(".") and not self.tok.sp: return ts, None
            raise ParseError("no call")
        return ts, self.args()

def parse(src, fname="generated.swift"):
    return SwiftParser(src, fname).parse()
