"""C# front end."""
import re
from .base import *

class CSLexer(Lexer):
    puncts = ["??=","<<=",">>=","=>","==","!=","<=",">=","&&","||","??","?.","++","--","+=","-=","*=","/=","%=","&=","|=","^=","<<","->","..","::",
              "+","-","*","/","%","&","|","^","~","!","<",">","=","?",":",";",",",".","(",")","[","]","{","}","#"]
    def special(self, i):
        s = self.src
        if s.startswith('@"', i) or s.startswith('$@"', i) or s.startswith('@$"', i):
            j = s.index('"', i) + 1; st = j
            while True:
                j = s.index('"', j)
                if s.startswith('""', j): j += 2; continue
                break
            return ("str", s[st:j].replace('""', '"'), j + 1)
        if s.startswith('$"', i):
            j = i + 2; parts = []; cur = ""
            while s[j] != '"':
                if s[j] == "\\": cur += unescape(s[j:j+2]); j += 2
                elif s.startswith("{{", j) or s.startswith("}}", j): cur += s[j]; j += 2
                elif s[j] == "{":
                    parts.append(cur); cur = ""; d = 1; k = j + 1
                    while d:
                        if s[k] == "{": d += 1
                        elif s[k] == "}": d -= 1
                        k += 1
                    parts.append(("expr", s[j+1:k-1])); j = k
                else: cur += s[j]; j += 1
            parts.append(cur); return ("tmpl", parts, j + 1)
        if s[i] == "@" and IDENT.match(s, i + 1):
            m = IDENT.match(s, i + 1); return ("id", m.group(), m.end())
        if s[i] == "#":
            j = s.find("\n", i); j = len(s) if j < 0 else j
            return None if False else ("pp", s[i:j], j)

MODS = {"public","private","protected","internal","static","abstract","sealed","virtual","override","readonly","const","new","extern","unsafe","partial","async","volatile","required"}
PRIM = {"byte","sbyte","short","ushort","int","uint","long","ulong","float","double","bool","string","char","object","void","decimal","var","nint","nuint"}

class CSParser(Parser):
    lexer = CSLexer
    binops = {"??":(3,1),"||":(4,0),"&&":(5,0),"|":(6,0),"^":(7,0),"&":(8,0),"==":(9,0),"!=":(9,0),"<":(10,0),">":(10,0),"<=":(10,0),">=":(10,0),
              "<<":(11,0),">>":(11,0),"+":(12,0),"-":(12,0),"*":(13,0),"/":(13,0),"%":(13,0)}
    assign_ops = Parser.assign_ops | {"??="}
    def __init__(self, src, fname="?"):
        super().__init__(src, fname)
        self.toks = [t for t in self.toks if t.t != "pp"]
        # join >> back into > > lazily via split
    def parse(self):
        out = []
        while self.tok.t != "eof": out.extend(self.top())
        return out
    def attrs(self):
        while self.at("["):
            d = 0
            while True:
                t = self.next()
                if t.v == "[" and t.t == "p": d += 1
                elif t.v == "]" and t.t == "p":
                    d -= 1
                    if d == 0: break
    def qname(self):
        n = self.ident()
        while self.at(".") and self.peek().t == "id": self.next(); n += "." + self.ident()
        return n
    def top(self):
        if self.acc(";"): return []
        if self.at("using") and self.peek().v != "(":
            while not self.acc(";"): self.next()
            return []
        if self.at("namespace"):
            line = self.next().line; n = self.qname(); out = []
            if self.acc(";"):
                while self.tok.t != "eof": out.extend(self.top())
            else:
                self.exp("{")
                while not self.acc("}"): out.extend(self.top())
            return [N("ns", line, name=n, decls=out)]
        return [self.typedecl()]
    def typedecl(self):
        self.attrs(); mods = set()
        while self.tok.t == "id" and self.tok.v in MODS: mods.add(self.next().v)
        line = self.tok.line
        if self.at("enum"):
            self.next(); n = self.ident(); base = None
            if self.acc(":"): base = self.type()
            self.exp("{"); vs = []
            while not self.acc("}"):
                self.attrs(); v = self.ident(); e = self.expr(1) if self.acc("=") else None
                vs.append((v, e)); self.acc(",")
            self.acc(";")
            return N("enum", line, name=n, values=vs, base=base)
        if self.atany("class", "struct", "interface", "record"):
            fl = self.next().v
            if fl == "record": self.acc("struct") or self.acc("class")
            n = self.ident(); self.tparams(); bases = []
            if self.at("("): self.params()
            if self.acc(":"):
                bases.append(self.type())
                while self.acc(","): bases.append(self.type())
            while self.acc("where"):
                while not self.atany("where", "{"): self.next()
            self.exp("{"); fields = []; inits = {}; methods = []; nested = []; statics = {}; stypes = {}
            while not self.acc("}"):
                if self.acc(";"): continue
                self.member(n, fields, inits, methods, nested, statics, stypes)
            self.acc(";")
            return N("struct", line, name=n, fields=fields, inits=inits, statics=statics, stypes=stypes, methods=methods, bases=bases, nested=nested, flavor=fl, abstract="abstract" in mods)
        self.err()
    def member(self, cname, fields, inits, methods, nested, statics, stypes):
        save = self.i
        self.attrs(); mods = set()
        while self.tok.t == "id" and self.tok.v in MODS and not (self.tok.v == "new" and self.peek().v == "("): mods.add(self.next().v)
        if self.atany("enum", "class", "struct", "interface", "record"):
            self.i = save; nested.append(self.typedecl()); return
        line = self.tok.line
        if self.tok.v == cname and self.peek().v == "(":
            self.next(); ps = self.params(); sup = None
            if self.acc(":"):
                w = self.ident(); sup = (w, self.args())
            b = self.body(); methods.append(N("fn", line, name="$ctor", params=ps, ret=None, body=b, cls=cname, static=False, sup=sup)); return
        if self.at("~"):
            self.next(); self.ident(); self.params(); self.body(); return
        ty = self.type()
        if self.at("operator") : self.err("operator")
        nm = self.ident()
        if self.at("this"): self.err("indexer")
        if self.at("(") or self.at("<"):
            self.tparams(); ps = self.params()
            while self.acc("where"):
                while not self.atany("where", "{", "=>"): self.next()
            b = self.body(); methods.append(N("fn", line, name=nm, params=ps, ret=ty, body=b, cls=cname, static="static" in mods, abstract="abstract" in mods)); return
        if self.at("{"):
            # property
            self.next(); getb = None
            while not self.acc("}"):
                self.attrs()
                while self.tok.v in MODS: self.next()
                w = self.ident()
                if self.acc(";"): continue
                b = self.body()
                if w == "get": getb = b
            init = None
            if self.acc("="): init = self.expr(1); self.exp(";")
            if getb is not None: methods.append(N("fn", line, name=nm, params=[], ret=ty, body=getb, cls=cname, static="static" in mods, acc="get"))
            else:
                (statics if "static" in mods else inits)[nm] = init
                if "static" not in mods: fields.append((nm, ty))
                else: stypes[nm] = ty
            return
        if self.acc("=>"):
            e = self.expr(); self.exp(";"); methods.append(N("fn", line, name=nm, params=[], ret=ty, body=N("block", line, body=[N("ret", line, e=e)]), cls=cname, static="static" in mods, acc="get")); return
        while True:
            init = None
            if self.acc("="): init = self.initializer()
            if "static" in mods or "const" in mods: statics[nm] = init; stypes[nm] = ty
            else: fields.append((nm, ty)); inits[nm] = init
            if not self.acc(","): break
            nm = self.ident()
        self.exp(";")
    def initializer(self):
        if self.at("{"):
            line = self.next().line; es = []
            while not self.acc("}"): es.append(self.expr(1)); self.acc(",")
            return N("alit", line, elems=es, ty=None)
        return self.expr(1)
    def body(self):
        if self.acc(";"): return None
        line = self.tok.line
        if self.acc("=>"):
            if self.at("throw"): s = self.stmt(); return N("block", line, body=s)
            e = self.expr(); self.exp(";"); return N("block", line, body=[N("ret", line, e=e)])
        return self.block()
    def tparams(self):
        if self.at("<"):
            d = 0
            while True:
                self.split(">"); t = self.next()
                if t.v == "<": d += 1
                elif t.v == ">":
                    d -= 1
                    if d == 0: return
    def params(self):
        self.exp("("); ps = []
        while not self.acc(")"):
            self.attrs()
            m = None
            while self.atany("ref", "out", "in", "params", "this"): m = self.next().v
            ty = self.type(); n = self.ident(); d = self.expr(1) if self.acc("=") else None
            ps.append((n, ty) if d is None else (n, ty, d)); self.acc(",")
        return ps
    def type(self):
        if self.acc("("):
            ts = []
            while not self.acc(")"):
                ts.append(self.type())
                if self.tok.t == "id": self.next()
                self.acc(",")
            ty = ("tuple", ts)
        else:
            n = self.ident()
            if self.acc("::"): n = self.ident()
            ty = None
            while True:
                if self.at("<"):
                    self.next(); args = []
                    while True:
                        self.split(">")
                        if self.at(">"): break
                        args.append(self.type())
                        if not self.acc(","): self.split(">"); break
                    self.exp_gt(); ty = ("gen", n, args)
                if self.at(".") and self.peek().t == "id": self.next(); n += "." + self.ident(); ty = None
                else: break
            if ty is None: ty = ("name", n)
        while True:
            if self.at("?") and (self.peek().v in (">", ")", ",", "[", "{") or self.peek().t == "id"): self.next(); ty = ("opt", ty)
            elif self.at("[") and self.peek().v in ("]", ","):
                self.next()
                while self.acc(","): pass
                self.exp("]"); ty = ("slice", ty)
            else: return ty
    # statements
    def block(self):
        line = self.exp("{").line; b = []
        while not self.acc("}"): b.extend(self.stmt())
        return N("block", line, body=b)
    def stmt1(self):
        s = self.stmt()
        return s[0] if len(s) == 1 else N("block", self.tok.line, body=s, noscope=True)
    def is_decl(self):
        """local variable declaration lookahead: Type Ident (= | ; | , )"""
        if self.tok.t != "id": return False
        save_i, save_t = self.i, list(self.toks)
        try:
            self.type()
            ok = self.tok.t == "id" and self.tok.v not in ("is", "as", "in") and self.peek().v in ("=", ";", ",", "in")
        except ParseError: ok = False
        self.i = save_i; self.toks = save_t
        return ok
    def decl(self):
        line = self.tok.line; ty = self.type(); out = []
        while True:
            n = self.ident(); init = self.initializer() if self.acc("=") else None
            out.append(N("var", line, name=n, ty=None if ty == ("name", "var") else ty, init=init, const=False))
            if not self.acc(","): return out
    def stmt(self):
        t = self.tok; line = t.line
        if self.at("{"): return [self.block()]
        if self.acc(";"): return []
        if t.t == "id":
            v = t.v
            if v == "if":
                self.next(); self.exp("("); c = self.expr(); self.exp(")"); a = self.stmt1(); b = self.stmt1() if self.acc("else") else None
                return [N("if", line, c=c, a=a, b=b)]
            if v == "while":
                self.next(); self.exp("("); c = self.expr(); self.exp(")"); return [N("while", line, c=c, body=self.stmt1(), step=None)]
            if v == "do":
                self.next(); b = self.stmt1(); self.exp("while"); self.exp("("); c = self.expr(); self.exp(")"); self.exp(";"); return [N("dowhile", line, c=c, body=b)]
            if v == "for":
                self.next(); self.exp("("); init = []
                if not self.at(";"):
                    init = self.decl() if self.is_decl() else [N("expr", line, e=self.expr())]
                self.exp(";"); c = None if self.at(";") else self.expr(); self.exp(";")
                st = None if self.at(")") else self.expr()
                while self.acc(","): st = N("comma", line, l=st, r=self.expr())
                self.exp(")")
                return [N("for3", line, init=init, c=c, step=st, body=self.stmt1())]
            if v == "foreach":
                self.next(); self.exp("("); ty = self.type(); n = self.ident(); self.exp("in"); it = self.expr(); self.exp(")")
                return [N("foreach", line, idx=None, var=n, iter=it, body=self.stmt1(), decl=True, style="cs", vty=None if ty == ("name", "var") else ty)]
            if v == "switch" and self.peek().v == "(":
                self.next(); self.exp("("); e = self.expr(); self.exp(")"); self.exp("{"); cases = []
                while not self.acc("}"):
                    pats = []
                    while self.atany("case", "default"):
                        if self.next().v == "case": pats.append(self.expr(1))
                        else: pats.append(None)
                        self.exp(":")
                    body = []
                    while not self.atany("case", "default", "}"): body.extend(self.stmt())
                    cases.append((pats, N("block", line, body=body, noscope=True)))
                return [N("switch", line, e=e, cases=cases, fall=True)]
            if v == "return": self.next(); e = None if self.at(";") else self.expr(); self.exp(";"); return [N("ret", line, e=e)]
            if v == "throw": self.next(); e = None if self.at(";") else self.expr(); self.exp(";"); return [N("throw", line, e=e)]
            if v == "break": self.next(); self.exp(";"); return [N("brk", line, label=None)]
            if v == "continue": self.next(); self.exp(";"); return [N("cont", line, label=None)]
            if v == "try":
                self.next(); b = self.block(); cs = []; fin = None
                while self.acc("catch"):
                    ty = n = g = None
                    if self.acc("("):
                        ty = self.type()
                        if self.tok.t == "id": n = self.ident()
                        self.exp(")")
                    if self.acc("when"): self.exp("("); g = self.expr(); self.exp(")")
                    cs.append((n, ty, self.block()))
                if self.acc("finally"): fin = self.block()
                return [N("trycatch", line, body=b, catches=cs, fin=fin)]
            if v == "using" :
                self.next()
                if self.acc("("):
                    d = self.decl() if self.is_decl() else [N("expr", line, e=self.expr())]
                    self.exp(")"); return [N("block", line, body=d + [self.stmt1()])]
                d = self.decl(); self.exp(";"); return d
            if v in ("unchecked", "checked", "unsafe", "lock") and self.peek().v in ("{",): self.next(); return [self.block()]
            if v == "const": self.next()
            if self.is_decl():
                out = self.decl(); self.exp(";"); return out
        e = self.expr(); self.exp(";")
        return [N("expr", line, e=e)]
    # expressions
    def expr(self, minprec=0):
        if minprec > 2: return super().expr(minprec)
        line = self.tok.line
        if self.tok.t == "id" and self.peek().v == "=>":
            n = self.next().v; self.next(); return self.lam([(n, None)], line)
        if self.at("("):
            r = self.try_parse(self._lam)
            if r is not None: return r
        if self.at("throw"): self.next(); return N("throwx", line, e=self.expr(1))
        e = super().expr(3)
        if self.at("?"):
            self.next(); a = self.expr(1); self.exp(":"); b = self.expr(1); return N("cond", line, c=e, a=a, b=b)
        if self.tok.t == "p" and self.tok.v in self.assign_ops:
            op = self.next().v; return N("asg", line, op=op, l=e, r=self.expr(1))
        return e
    def _lam(self):
        line = self.exp("(").line; ps = []
        while not self.acc(")"):
            if self.tok.t == "id" and self.peek().v in (",", ")"): ps.append((self.next().v, None))
            else:
                ty = self.type(); ps.append((self.ident(), ty))
            self.acc(",")
        if not self.acc("=>"): raise ParseError("no lambda")
        return self.lam(ps, line)
    def lam(self, ps, line):
        b = self.block() if self.at("{") else N("block", line, body=[N("ret", line, e=self.expr(1))])
        return N("lam", line, params=ps, body=b, ret=None)
    def special_infix(self, left, minprec):
        if minprec > 10: return None
        line = self.tok.line
        if self.at("is"):
            self.next(); neg = self.acc("not")
            if self.at("null"): self.next(); c = N("bin", line, op="==", l=left, r=N("lit", line, v=None, t="null"))
            else:
                alts = []
                while True:
                    if self.tok.t in ("num", "char", "str") or self.at("-"): alts.append(("v", self.unary()))
                    elif self.tok.t == "p" and self.tok.v in ("<", ">", "<=", ">="): op = self.next().v; alts.append(("r", op, self.expr(11)))
                    else: alts.append(("t", self.type(), self.ident() if self.tok.t == "id" and not self.atany("or", "and") else None))
                    if self.acc("or"): continue
                    if self.at("and"): self.err("and pattern")
                    break
                c = N("ispat", line, e=left, alts=alts)
            return N("un", line, op="!", e=c) if neg else c
        if self.at("as"): self.next(); return N("cast", line, ty=self.type(), e=left, soft=True)
        if self.at("switch") and self.peek().v == "{": 
            self.next(); self.next(); arms = []
            while not self.acc("}"):
                p = None if self.acc("_") else self.expr(3)
                self.exp("=>"); arms.append((p, self.expr(1))); self.acc(",")
            return N("switchx", line, e=left, arms=arms)
        return None
    def unary(self):
        t = self.tok; line = t.line
        if t.t == "p" and t.v in ("!", "-", "+", "~", "&", "*"): self.next(); return N("un", line, op=t.v, e=self.unary())
        if t.t == "p" and t.v in ("++", "--"): self.next(); return N("pre", line, op=t.v, e=self.unary())
        if t.t == "id" and t.v == "await": self.next(); return self.unary()
        if t.v == "(" and t.t == "p":
            r = self.try_parse(self._cast)
            if r is not None: return r
        return self.postfix(self.primary())
    def _cast(self):
        line = self.exp("(").line; ty = self.type(); self.exp(")")
        prim = ty[0] == "name" and ty[1] in PRIM
        n = self.tok
        if not prim:
            # cast only when followed by identifier, literal, ( or ! ~
            if not (n.t in ("id", "num", "str", "char", "tmpl") or (n.t == "p" and n.v in ("(", "!", "~"))) or (n.t == "id" and n.v in ("is", "as", "switch", "in")):
                raise ParseError("not a cast")
        elif n.t == "p" and n.v not in ("(", "!", "~", "-", "+", "++", "--"): raise ParseError("not a cast")
        return N("cast", line, ty=ty, e=self.unary())
    def primary(self):
        t = self.tok; line = t.line
        if t.t == "num":
            self.next(); v, suf = t.v; return N("lit", line, v=v, t="float" if isinstance(v, float) or suf.lower() in ("f", "d", "m") else "int", suf=suf)
        if t.t == "str": self.next(); return N("lit", line, v=t.v, t="str", suf="")
        if t.t == "char": self.next(); return N("lit", line, v=t.v, t="char", suf="")
        if t.t == "tmpl":
            self.next(); return N("tmpl", line, parts=[N("lit", line, v=p if isinstance(p, str) else "?", t="str") for p in t.v])
        if t.v == "(" and t.t == "p":
            self.next(); e = self.expr()
            if self.at(","):
                es = [e]
                while self.acc(","): es.append(self.expr())
                self.exp(")"); return N("tuple", line, elems=es)
            self.exp(")"); return e
        if t.v == "[" and t.t == "p":
            self.next(); es = []
            while not self.acc("]"): es.append(self.expr(1)); self.acc(",")
            return N("alit", line, elems=es, ty=None)
        if t.t == "id":
            v = t.v
            if v in ("true", "false"): self.next(); return N("lit", line, v=v == "true", t="bool", suf="")
            if v == "null": self.next(); return N("lit", line, v=None, t="null", suf="")
            if v in ("typeof", "default", "nameof", "sizeof") and self.peek().v == "(":
                self.next(); self.next(); ty = self.type(); self.exp(")")
                return N("tyref" if v == "typeof" else v, line, ty=ty, e=None)
            if v == "default": self.next(); return N("default", line, ty=None)
            if v in ("checked", "unchecked"): self.next(); self.exp("("); e = self.expr(); self.exp(")"); return e
            if v == "new":
                self.next()
                if self.at("("):
                    return N("new", line, ty=None, args=self.args(), init=None)
                if self.at("["):
                    self.next(); self.exp("]"); return N("alit", line, ty=None, elems=self.initializer().elems)
                if self.at("{"): self.err("anonymous type")
                ty = self.newty()
                if self.at("["):
                    self.next()
                    if self.acc("]"): i = self.initializer(); i.ty = ("slice", ty); return i
                    n = self.expr(); self.exp("]")
                    if self.at("{"): i = self.initializer(); i.ty = ("slice", ty); return i
                    return N("newarr", line, ty=ty, n=n)
                args = self.args() if self.at("(") else []
                init = None
                if self.at("{"):
                    self.next(); init = []
                    while not self.acc("}"):
                        if self.tok.t == "id" and self.peek().v == "=": f = self.next().v; self.next(); init.append((f, self.expr(1)))
                        else: init.append((None, self.expr(1)))
                        self.acc(",")
                return N("new", line, ty=ty, args=args, init=init)
            self.next(); return N("name", line, id=v)
        self.err()
    def newty(self):
        n = self.ident()
        while True:
            if self.at("<"):
                self.next(); args = []
                while True:
                    args.append(self.type())
                    if not self.acc(","): break
                self.exp_gt(); return ("gen", n, args)
            if self.acc("."): n += "." + self.ident()
            else: return ("name", n)
    def args(self):
        self.exp("("); out = []
        while not self.acc(")"):
            lab = None
            if self.tok.t == "id" and self.peek().v == ":" : lab = self.next().v; self.next()
            if self.atany("out", "ref", "in") and self.peek().t == "id":
                m = self.next().v
                if m == "out" and self.is_outdecl():
                    ty = self.type(); n = self.ident(); out.append(("out", N("outvar", self.tok.line, name=n, ty=ty))); self.acc(","); continue
                out.append((m, self.expr(1))); self.acc(","); continue
            out.append((lab, self.expr(1))); self.acc(",")
        return out
    def is_outdecl(self):
        save_i, save_t = self.i, list(self.toks)
        try:
            self.type(); ok = self.tok.t == "id"
        except ParseError: ok = False
        self.i = save_i; self.toks = save_t
        return ok
    def postfix(self, e):
        while True:
            t = self.tok; line = t.line
            if t.t != "p": return e
            if t.v in (".", "?."): self.next(); e = N("mem", line, o=e, f=self.ident(), opt=t.v == "?.")
            elif t.v == "(": e = N("call", line, f=e, args=self.args(), targs=None)
            elif t.v == "[":
                self.next(); i = self.expr()
                if self.acc(","): self.err("multi-dim index")
                self.exp("]"); e = N("idx", line, o=e, i=i)
            elif t.v == "!" and self.peek().v != "=": self.next()
            elif t.v in ("++", "--"): self.next(); e = N("post", line, op=t.v, e=e)
            elif t.v == "<" and e.k in ("name", "mem"):
                r = self.try_parse(self._callt)
                if r is None: return e
                if r[1] is None: e.targs = r[0]; continue
                e = N("call", line, f=e, args=r[1], targs=r[0])
            else: return e
    def _callt(self):
        self.exp("<"); ts = []
        while True:
            ts.append(self.type())
            if not self.acc(","): break
        self.exp_gt()
        if self.at("."): return ts, None
        if not self.at("("): raise ParseError("no call")
        return ts, self.args()

def parse(src, fname="generated.cs"):
    if src.startswith("\ufeff"): src = src[1:]
    return CSParser(src, fname).parse()
