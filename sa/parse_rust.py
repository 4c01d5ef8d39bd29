"""Rust front end."""
import re
from .base import *

class RustLexer(Lexer):
    puncts = ["<<=",">>=","...","..=","..","&&","||","==","!=","<=",">=","+=","-=","*=","/=","%=","&=","|=","^=","<<",">>","->","=>","::",
              "+","-","*","/","%","&","|","^","<",">","=","!","(",")","[","]","{","}",",",";",".",":","#","?","@","~","$"]
    nested = True
    def special(self, i):
        s = self.src
        if s[i] == "'" :
            m = re.compile(r"'([A-Za-z_][A-Za-z0-9_]*)(?!')").match(s, i)
            if m: return ("life", m.group(1), m.end())
        if s.startswith('b"', i):
            j = i + 2
            while s[j] != '"': j += 2 if s[j] == "\\" else 1
            return ("bstr", unescape(s[i+2:j]), j + 1)
        if s.startswith("b'", i):
            j = i + 2
            while s[j] != "'": j += 2 if s[j] == "\\" else 1
            return ("num", (ord(unescape(s[i+2:j])), "u8"), j + 1)
        m = re.compile(r'r(#*)"').match(s, i)
        if m:
            end = '"' + m.group(1); j = s.index(end, m.end()); return ("str", s[m.end():j], j + len(end))
        if s[i] == '"':   # rust strings may span lines
            j = i + 1
            while s[j] != '"': j += 2 if s[j] == "\\" else 1
            return ("str", unescape(s[i+1:j]), j + 1)
        # number followed by a range such as 0..n
        m = re.compile(r"(\d[\d_]*)(?=\.\.)").match(s, i)
        if m: return ("num", (int(m.group(1).replace("_", "")), ""), m.end())
        # tuple index / method on integer literal: leave to NUM

class RustParser(Parser):
    lexer = RustLexer
    binops = {"||":(4,0),"&&":(5,0),"==":(6,0),"!=":(6,0),"<":(6,0),">":(6,0),"<=":(6,0),">=":(6,0),"|":(7,0),"^":(8,0),"&":(9,0),
              "<<":(10,0),">>":(10,0),"+":(11,0),"-":(11,0),"*":(12,0),"/":(12,0),"%":(12,0)}
    def attrs(self):
        out = []
        while self.at("#"):
            self.next(); self.acc("!"); self.exp("["); d = 1; txt = []
            while d:
                t = self.next()
                if t.t == "eof": self.err("attribute")
                if t.v == "[": d += 1
                elif t.v == "]": d -= 1
                if d: txt.append(str(t.v))
            out.append("".join(txt))
        return out
    def parse(self):
        out = []
        while self.tok.t != "eof":
            out.extend(self.item())
        return out
    def vis(self):
        if self.acc("pub"):
            if self.at("(") : 
                self.next(); self.next(); self.exp(")")
            return True
        return False
    def generics(self):
        if not self.at("<"): return []
        self.next(); ps = []; d = 1
        while True:
            self.split(">")
            t = self.next()
            if t.v == "<": d += 1
            if t.v == ">":
                d -= 1
                if d == 0: return ps
            if t.t == "id" and d == 1: ps.append(t.v)
    def where(self):
        if self.acc("where"):
            while not self.atany("{", ";"): self.next()
    def item(self):
        at = self.attrs(); t = self.tok; line = t.line
        if t.t == "eof": return []
        pub = self.vis()
        while self.atany("const", "unsafe", "async", "extern") and self.peek().v in ("fn", "unsafe", "async", "impl", "extern"): self.next()
        if self.acc("use"):
            while not self.acc(";"): self.next()
            return []
        if self.acc("mod"):
            n = self.ident()
            if self.acc(";"): return []
            self.exp("{"); out = []
            while not self.acc("}"): out.extend(self.item())
            return [N("mod", line, name=n, decls=out)]
        if self.acc("type"):
            n = self.ident(); self.generics(); self.exp("="); ty = self.type(); self.exp(";")
            return [N("typedef", line, name=n, ty=ty)]
        if self.atany("const", "static"):
            self.next(); self.acc("mut"); n = self.ident(); self.exp(":"); ty = self.type(); self.exp("="); e = self.expr(); self.exp(";")
            return [N("var", line, name=n, ty=ty, init=e, const=True)]
        if self.acc("struct"):
            n = self.ident(); self.generics(); self.where(); fs = []
            if self.acc("{"):
                while not self.acc("}"):
                    self.attrs(); self.vis(); f = self.ident(); self.exp(":"); fs.append((f, self.type())); self.acc(",")
            elif self.acc("("):
                i = 0
                while not self.acc(")"):
                    self.attrs(); self.vis(); fs.append((str(i), self.type())); i += 1; self.acc(",")
                self.acc(";")
            else: self.exp(";")
            return [N("struct", line, name=n, fields=fs, methods=[], bases=[], flavor="struct", attrs=at)]
        if self.acc("enum"):
            n = self.ident(); self.generics(); self.exp("{"); vs = []; pay = False
            while not self.acc("}"):
                va = self.attrs(); v = self.ident(); p = None; e = None
                if self.acc("("):
                    p = []
                    while not self.acc(")"): p.append(self.type()); self.acc(",")
                    pay = True
                elif self.at("{"): self.err("struct variant")
                if self.acc("="): e = self.expr()
                vs.append((v, e, p, va)); self.acc(",")
            return [N("enum", line, name=n, values=[(v, e) for v, e, p, a in vs], payload={v: p for v, e, p, a in vs}, base=None, attrs=at, has_payload=pay, vattrs={v: a for v, e, p, a in vs})]
        if self.acc("trait"):
            n = self.ident(); self.generics()
            while not self.at("{"): self.next()
            self.exp("{"); ms = []
            while not self.acc("}"):
                self.attrs(); self.vis(); ms.extend(self.item_fn(None, n))
            return [N("trait", line, name=n, methods=ms)]
        if self.acc("impl"):
            self.generics(); ty = self.type(); tr = None
            if self.acc("for"): tr = ty; ty = self.type()
            self.where(); self.exp("{"); ms = []
            while not self.acc("}"):
                self.attrs(); self.vis()
                if self.acc("type"):
                    while not self.acc(";"): self.next()
                    continue
                if self.at("const") and self.peek().v != "fn":
                    ms.extend(self.item()); continue
                while self.atany("const", "unsafe"): self.next()
                ms.extend(self.item_fn(ty, tr))
            return [N("impl", line, ty=ty, trait=tr, methods=ms)]
        if self.at("fn"): return self.item_fn(None, None)
        if t.t == "id" and self.peek().v == "!":
            self.macro_skip(); return []
        self.err()
    def macro_skip(self):
        self.next(); self.next(); d = 0
        while True:
            t = self.next()
            if t.v in ("(", "[", "{"): d += 1
            if t.v in (")", "]", "}"): d -= 1
            if d == 0: break
        self.acc(";")
    def item_fn(self, ty, tr):
        line = self.exp("fn").line; n = self.ident(); self.generics(); self.exp("("); ps = []; slf = None
        while not self.acc(")"):
            save = self.i
            ref = False; mut = False
            if self.acc("&"):
                ref = True
                if self.tok.t == "life": self.next()
            if self.acc("mut"): mut = True
            if self.at("self") :
                self.next(); slf = ("ref" if ref else "val")
                if self.acc(":"): self.type()
            else:
                self.i = save
                p = self.pattern(); self.exp(":"); ps.append((p.id if p.k == "pbind" else p, self.type()))
            self.acc(",")
        ret = None
        if self.acc("->"): ret = self.type()
        self.where()
        body = None
        if self.at("{"): body = self.block()
        else: self.exp(";")
        return [N("fn", line, name=n, params=ps, ret=ret, body=body, cls=ty, trait=tr, slf=slf, static=slf is None)]
    def type(self):
        t = self.tok
        if self.acc("&") or (self.at("&&") and self.next()):
            if self.tok.t == "life": self.next()
            m = self.acc("mut"); self.acc("dyn"); return ("ref", self.type())
        if self.acc("*"):
            self.next(); return ("ptr", self.type())
        if self.acc("("):
            ts = []
            while not self.acc(")"): ts.append(self.type()); self.acc(",")
            return ("tuple", ts)
        if self.acc("["):
            ty = self.type()
            if self.acc(";"):
                n = self.expr(); self.exp("]"); return ("arr", n, ty)
            self.exp("]"); return ("slice", ty)
        if self.acc("dyn") or self.acc("impl"):
            ty = self.type()
            while self.acc("+"): 
                if self.tok.t == "life": self.next()
                else: self.type()
            return ty
        if self.acc("fn"):
            self.exp("(")
            while not self.acc(")"): self.type(); self.acc(",")
            if self.acc("->"): self.type()
            return ("fn",)
        if self.tok.t == "life": self.next(); return ("life",)
        if self.acc("_"): return ("infer",)
        if self.acc("!"): return ("never",)
        if self.acc("<"):
            a = self.type()
            if self.acc("as"): self.type()
            self.exp_gt(); 
            while self.acc("::"): n = self.ident()
            return ("name", n)
        self.acc("::")
        n = self.ident()
        while True:
            if self.at("::") and self.peek().t == "id": self.next(); n = n + "::" + self.ident()
            else: break
        args = []
        if self.at("::") and self.peek().v == "<": self.next()
        if self.at("<"):
            self.next()
            while True:
                self.split(">")
                if self.at(">"): break
                if self.tok.t == "id" and self.peek().v == "=": self.next(); self.next()
                a = self.type()
                if a != ("life",): args.append(a)
                self.acc(",")
            self.exp_gt()
        if self.at("(") and n in ("Fn", "FnMut", "FnOnce"):
            self.next()
            while not self.acc(")"): self.type(); self.acc(",")
            if self.acc("->"): self.type()
            return ("fn",)
        return ("gen", n, args) if args else ("name", n)
    # patterns
    def pattern(self):
        line = self.tok.line; self.acc("|")
        p = self.pat1()
        if self.at("|"):
            alts = [p]
            while self.acc("|"): alts.append(self.pat1())
            return N("por", line, alts=alts)
        return p
    def pat1(self):
        t = self.tok; line = t.line
        if self.acc("&"): self.acc("mut"); return self.pat1()
        if self.acc("_"): return N("pwild", line)
        if self.acc("ref"): self.acc("mut"); return N("pbind", line, id=self.ident(), sub=None)
        if self.acc("mut"): return N("pbind", line, id=self.ident(), sub=None)
        if self.acc("("):
            ps = []
            while not self.acc(")"): ps.append(self.pattern()); self.acc(",")
            return N("ptuple", line, elems=ps)
        if self.acc("["):
            ps = []
            while not self.acc("]"): ps.append(self.pattern()); self.acc(",")
            return N("pslice", line, elems=ps)
        if self.at("..") : self.next(); return N("prest", line)
        if t.t in ("num", "str", "char", "bstr") or self.atany("-", "true", "false"):
            lo = self.unary()
            if self.atany("..=", "..", "..."):
                op = self.next().v
                hi = None
                if not self.atany("=>", "if", ")", ",", "|"): hi = self.unary()
                return N("prange", line, lo=lo, hi=hi, incl=op != "..")
            return N("plit", line, e=lo)
        self.acc("::")
        path = [self.ident()]
        while self.acc("::"):
            if self.at("<"): self.generics()
            else: path.append(self.ident())
        if self.at("("):
            self.next(); ps = []
            while not self.acc(")"): ps.append(self.pattern()); self.acc(",")
            return N("ptstruct", line, path=path, elems=ps)
        if self.at("{"):
            self.next(); fs = []
            while not self.acc("}"):
                if self.acc(".."): continue
                self.acc("ref"); self.acc("mut")
                f = self.ident(); p = N("pbind", line, id=f, sub=None)
                if self.acc(":"): p = self.pattern()
                fs.append((f, p)); self.acc(",")
            return N("pstruct", line, path=path, fields=fs)
        if self.atany("..=", "..."):
            op = self.next().v; return N("prange", line, lo=N("path", line, path=path), hi=self.unary(), incl=True)
        if len(path) == 1 and not path[0][0].isupper():
            sub = None
            if self.acc("@"): sub = self.pat1()
            return N("pbind", line, id=path[0], sub=sub)
        return N("ppath", line, path=path)
    # blocks
    def block(self):
        line = self.exp("{").line; b = []; tail = None
        save = self.no_struct; self.no_struct = 0
        while not self.acc("}"):
            if self.acc(";"): continue
            s, is_tail = self.stmt()
            if is_tail:
                if self.at("}"): tail = s
                else: b.append(N("expr", line, e=s))
            elif s is not None: b.append(s)
        self.no_struct = save
        return N("blockx", line, body=b, tail=tail)
    BLOCKY = {"if", "match", "while", "loop", "for", "unsafe", "{"}
    def stmt(self):
        self.attrs(); t = self.tok; line = t.line
        if self.at("let"):
            self.next(); p = self.pattern(); ty = self.type() if self.acc(":") else None
            init = self.expr() if self.acc("=") else None
            els = None
            if self.acc("else"): els = self.block()
            self.exp(";")
            return N("let", line, pat=p, ty=ty, init=init, els=els), False
        if t.t == "id" and t.v in ("fn", "struct", "enum", "impl", "use", "const", "static", "trait", "type", "mod") and not (t.v == "const" and self.peek().v == "{"):
            ds = self.item(); return N("decls", line, decls=ds), False
        if t.t in ("id", "p") and t.v in self.BLOCKY or t.t == "life":
            e = self.primary()
            if self.at(".") or self.at("?"):
                e = self.cont(self.postfix(e), 0)
            elif not self.at("}"):
                self.acc(";"); return N("expr", line, e=e), False
            if self.acc(";"): return N("expr", line, e=e), False
            return e, True
        e = self.expr()
        if self.acc(";"): return N("expr", line, e=e), False
        return e, True
    def cont(self, left, minprec):
        # continue binary parsing with an already parsed left operand
        while True:
            t = self.tok
            if t.t == "p" and t.v in self.binops:
                prec, r = self.binops[t.v]
                self.next(); rhs = self.expr(prec + 1); left = N("bin", t.line, op=t.v, l=left, r=rhs); continue
            if t.t == "p" and t.v in self.assign_ops:
                self.next(); left = N("asg", t.line, op=t.v, l=left, r=self.expr()); continue
            return left
    # expressions
    def expr(self, minprec=0):
        t = self.tok; line = t.line
        if self.atany("..", "..="):
            op = self.next().v; hi = None
            if not self.atany("]", ")", "{", ";", ","): hi = self.expr(3)
            return N("rangex", line, lo=None, hi=hi, incl=op == "..=")
        e = super().expr(max(minprec, 4))
        if minprec <= 2 and self.atany("..", "..="):
            op = self.next().v; hi = None
            if not self.atany("]", ")", ";", ",") and not (self.at("{") and self.no_struct): hi = self.expr(4)
            e = N("rangex", line, lo=e, hi=hi, incl=op == "..=")
        if minprec <= 1 and self.tok.t == "p" and self.tok.v in self.assign_ops:
            op = self.next().v; e = N("asg", line, op=op, l=e, r=self.expr(1))
        return e
    def special_infix(self, left, minprec):
        if self.at("as") and minprec <= 13:
            line = self.next().line; return N("cast", line, ty=self.type(), e=left)
        return None
    def unary(self):
        t = self.tok; line = t.line
        if t.t == "p":
            if t.v in ("-", "!", "*"):
                self.next(); return N("un", line, op="~!" if t.v == "!" else t.v, e=self.unary())
            if t.v in ("&", "&&"):
                self.next(); mt = bool(self.acc("mut")); return N("un", line, op="&", e=self.unary(), mut=mt)
            if t.v in ("|", "||"): return self.closure()
        if t.t == "id" and t.v == "move": self.next(); return self.closure()
        return self.postfix(self.primary())
    def closure(self):
        line = self.tok.line; ps = []
        if self.acc("||"): pass
        else:
            self.exp("|")
            while not self.acc("|"):
                p = self.pat1(); ty = self.type() if self.acc(":") else None
                ps.append((p.id if p.k == "pbind" else p, ty)); self.acc(",")
        if self.acc("->"): self.type()
        b = self.expr()
        return N("lam", line, params=ps, body=N("blockx", line, body=[], tail=b), ret=None)
    def cond(self):
        self.no_struct += 1
        try:
            return self.condchain()
        finally: self.no_struct -= 1
    def condchain(self):
        if self.at("let"):
            line = self.next().line; p = self.pattern(); self.exp("="); e = self.expr(6)
            c = N("letcond", line, pat=p, e=e)
            while self.acc("&&"):
                c = N("bin", line, op="&&", l=c, r=self.condchain())
            return c
        return self.expr()
    def primary(self):
        t = self.tok; line = t.line
        if t.t == "num":
            self.next(); v, suf = t.v
            return N("lit", line, v=v, t="float" if isinstance(v, float) or suf in ("f32", "f64") else "int", suf=suf)
        if t.t == "str": self.next(); return N("lit", line, v=t.v, t="str", suf="")
        if t.t == "bstr": self.next(); return N("lit", line, v=t.v, t="bytes", suf="")
        if t.t == "char": self.next(); return N("lit", line, v=t.v, t="char", suf="")
        if t.t == "life":
            self.next(); self.exp(":"); e = self.primary(); e.label = t.v; return e
        if t.v == "(":
            self.next(); save = self.no_struct; self.no_struct = 0
            if self.acc(")"): self.no_struct = save; return N("tuple", line, elems=[])
            e = self.expr()
            if self.at(","):
                es = [e]
                while self.acc(","):
                    if self.at(")"): break
                    es.append(self.expr())
                e = N("tuple", line, elems=es)
            self.exp(")"); self.no_struct = save; return e
        if t.v == "[":
            self.next(); save = self.no_struct; self.no_struct = 0; es = []
            if not self.at("]"):
                es.append(self.expr())
                if self.acc(";"):
                    n = self.expr(); self.exp("]"); self.no_struct = save; return N("arrrep", line, e=es[0], n=n)
            while not self.acc("]"):
                self.acc(",")
                if self.at("]"): continue
                es.append(self.expr())
            self.no_struct = save
            return N("alit", line, elems=es, ty=None)
        if t.v == "{": return self.block()
        if t.t == "id":
            v = t.v
            if v in ("true", "false"): self.next(); return N("lit", line, v=v == "true", t="bool", suf="")
            if v == "unsafe": self.next(); return self.block()
            if v == "if":
                self.next(); c = self.cond(); a = self.block(); b = None
                if self.acc("else"): b = self.primary() if self.at("if") else self.block()
                return N("ifx", line, c=c, a=a, b=b)
            if v == "match":
                self.next(); self.no_struct += 1; e = self.expr(); self.no_struct -= 1
                self.exp("{"); arms = []; save = self.no_struct; self.no_struct = 0
                while not self.acc("}"):
                    self.attrs(); p = self.pattern(); g = None
                    if self.acc("if"): g = self.expr()
                    self.exp("=>"); b = self.expr(); self.acc(",")
                    arms.append((p, g, b))
                self.no_struct = save
                return N("match", line, e=e, arms=arms)
            if v == "while":
                self.next(); c = self.cond(); return N("while", line, c=c, body=self.block(), step=None)
            if v == "loop":
                self.next(); return N("while", line, c=N("lit", line, v=True, t="bool"), body=self.block(), step=None, isloop=True)
            if v == "for":
                self.next(); p = self.pattern(); self.exp("in"); self.no_struct += 1; it = self.expr(); self.no_struct -= 1
                return N("foreach", line, idx=None, var=p, iter=it, body=self.block(), decl=True, style="pat")
            if v == "return":
                self.next(); e = None
                if not self.atany(";", "}", ",", ")"): e = self.expr()
                return N("retx", line, e=e)
            if v in ("break", "continue"):
                self.next(); l = None; e = None
                if self.tok.t == "life": l = self.next().v
                if v == "break" and not self.atany(";", "}", ",", ")"): e = self.expr()
                return N("brkx" if v == "break" else "contx", line, label=l, e=e)
            if self.peek().v == "!" and self.peek(2).v in ("(", "[", "{") and not self.peek().sp:
                self.next(); self.next(); op = self.next().v; cl = {"(": ")", "[": "]", "{": "}"}[op]
                args = []; save = self.no_struct; self.no_struct = 0
                while not self.acc(cl):
                    if v == "matches" and len(args) == 1: args.append(self.pattern()); 
                    else: args.append(self.expr())
                    if self.acc(";"): args.append("rep")
                    self.acc(",")
                self.no_struct = save
                return N("macro", line, name=v, args=args)
        if t.v == "<":
            ty = self.type(); 
            return self.path(["<T>"]) if False else N("path", line, path=[ty[1]], targs=None)
        if t.t == "id" or t.v == "::":
            self.acc("::")
            path = [self.ident()]; targs = None
            while self.at("::"):
                self.next()
                if self.at("<"):
                    targs = []
                    self.next()
                    while True:
                        self.split(">")
                        if self.at(">"): break
                        targs.append(self.type()); self.acc(",")
                    self.exp_gt()
                else: path.append(self.ident())
            if self.at("{") and not self.no_struct and (path[-1][0].isupper() or
                    (self.peek().t == "id" and self.peek(2).v in (":", ",", "}") and self.peek(2).t == "p")):
                return self.structlit(path)
            if len(path) == 1: return N("name", line, id=path[0], targs=targs)
            return N("path", line, path=path, targs=targs)
        self.err()
    def structlit(self, path):
        line = self.exp("{").line; fs = []; base = None
        while not self.acc("}"):
            if self.acc(".."): base = self.expr(); continue
            f = self.next(); f = f.v if f.t == "id" else str(f.v[0])
            fs.append((f, self.expr() if self.acc(":") else N("name", line, id=f, targs=None))); self.acc(",")
        return N("slit", line, ty=("name", "::".join(path)), fields=fs, base=base)
    def postfix(self, e):
        while True:
            t = self.tok; line = t.line
            if t.v == "?" and t.t == "p": self.next(); e = N("try", line, e=e)
            elif t.v == "." and t.t == "p":
                self.next()
                if self.tok.t == "num":
                    v = self.next().v[0]
                    if isinstance(v, float):
                        a, b = str(v).split("."); e = N("mem", line, o=N("mem", line, o=e, f=a), f=b)
                    else: e = N("mem", line, o=e, f=str(v))
                    continue
                f = self.ident(); targs = None
                if self.at("::"):
                    self.next(); self.exp("<"); targs = []
                    while True:
                        self.split(">")
                        if self.at(">"): break
                        targs.append(self.type()); self.acc(",")
                    self.exp_gt()
                if f == "await": continue
                if self.at("("):
                    e = N("call", line, f=N("mem", line, o=e, f=f), args=self.args(), targs=targs)
                else: e = N("mem", line, o=e, f=f)
            elif t.v == "(" and t.t == "p":
                e = N("call", line, f=e, args=self.args(), targs=getattr(e, "targs", None))
            elif t.v == "[" and t.t == "p":
                self.next(); save = self.no_struct; self.no_struct = 0
                i = self.expr(); self.exp("]"); self.no_struct = save
                e = N("idx", line, o=e, i=i)
            else: return e
    def args(self):
        self.exp("("); out = []; save = self.no_struct; self.no_struct = 0
        while not self.acc(")"):
            out.append((None, self.expr())); self.acc(",")
        self.no_struct = save
        return out

def parse(src, fname="generated.rs"):
    return RustParser(src, fname).parse()
