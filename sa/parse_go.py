"""Go front end."""
from .base import *

class GoLexer(Lexer):
    puncts = ["<<=",">>=","&^=","...","&&","||","<-","++","--","==","!=","<=",">=",":=","+=","-=","*=","/=","%=","&=","|=","^=","<<",">>","&^",
              "+","-","*","/","%","&","|","^","<",">","=","!","(",")","[","]","{","}",",",";",".",":","~"]
    def special(self, i):
        s = self.src
        if s[i] == "`":
            j = s.index("`", i + 1); return ("str", s[i+1:j], j + 1)
    def run(self):
        super().run()
        out = []
        for k, t in enumerate(self.toks):
            if t.nl and out:
                p = out[-1]
                if p.t in ("str", "char", "num") or (p.t == "id" and p.v not in KW_NOSEMI) or (p.t == "p" and p.v in ("++","--",")","]","}")):
                    out.append(Tok("p", ";", p.line, False, False, p.pos))
            out.append(t)
        self.toks = out
KW_NOSEMI = {"func","if","else","for","switch","case","default","var","const","type","struct","interface","package","import","map","range","go","defer","select","chan"}

class GoParser(Parser):
    lexer = GoLexer
    binops = {"||":(1,0),"&&":(2,0),"==":(3,0),"!=":(3,0),"<":(3,0),"<=":(3,0),">":(3,0),">=":(3,0),"+":(4,0),"-":(4,0),"|":(4,0),"^":(4,0),
              "*":(5,0),"/":(5,0),"%":(5,0),"<<":(5,0),">>":(5,0),"&":(5,0),"&^":(5,0)}
    assign_ops = Parser.assign_ops | {":=", "&^="}
    def parse(self):
        out = []
        self.exp("package"); self.package = self.ident(); self.acc(";")
        while self.tok.t != "eof":
            if self.acc(";"): continue
            out.extend(self.top())
        return out
    def group(self, f):
        out = []
        if self.acc("("):
            i = 0
            while not self.acc(")"):
                out.extend(f(i)); i += 1; self.acc(";")
        else: out.extend(f(0))
        return out
    def top(self):
        t = self.tok; line = t.line
        if self.acc("import"):
            def imp(i):
                al = self.next().v if self.tok.t in ("id",) or self.at(".") else None
                p = self.next()
                return [N("import", line, path=p.v, alias=al)]
            return self.group(imp)
        if self.acc("type"): return self.group(self.typedecl)
        if self.at("const"): return self.constdecl()
        if self.at("var"): return self.vardecl()
        if self.acc("func"):
            recv = None
            if self.at("("):
                r = self.params(); recv = r[0]
            n = self.ident(); targs = None
            ps, ret = self.sig()
            body = self.block() if self.at("{") else None
            cls = None; ptr = False
            if recv:
                ty = recv[1]; ptr = ty[0] == "ptr"
                if ptr: ty = ty[1]
                cls = ty[1]
            return [N("fn", line, name=n, params=ps, ret=ret, body=body, cls=cls, recv=recv and recv[0], ptrrecv=ptr, static=False)]
        self.err()
    def typedecl(self, i=0):
        line = self.tok.line; n = self.ident(); alias = self.acc("=")
        if self.at("struct"):
            ty = self.type(); return [N("struct", line, name=n, fields=ty[1], methods=[], bases=[], flavor="struct")]
        ty = self.type()
        if ty[0] == "iface": return [N("iface", line, name=n, methods=ty[1])]
        return [N("newtype", line, name=n, ty=ty, alias=alias)]
    def constdecl(self):
        line = self.next().line; last = [None, None]
        def one(i):
            names = [self.ident()]
            while self.acc(","): names.append(self.ident())
            ty = None
            if not self.atany("=", ";", ")"): ty = self.type()
            if self.acc("="):
                vals = [self.expr()]
                while self.acc(","): vals.append(self.expr())
                last[:] = [ty, vals]
            else: ty, vals = last
            return [N("var", line, name=a, ty=ty, init=v, const=True, iota=i) for a, v in zip(names, vals)]
        return self.group(one)
    def vardecl(self):
        line = self.next().line
        def one(i):
            names = [self.ident()]
            while self.acc(","): names.append(self.ident())
            ty = None
            if not self.atany("=", ";", ")"): ty = self.type()
            vals = [None] * len(names)
            if self.acc("="):
                vals = [self.expr()]
                while self.acc(","): vals.append(self.expr())
                if len(vals) == 1 and len(names) > 1:
                    return [N("multivar", line, names=names, init=vals[0], ty=ty)]
            return [N("var", line, name=a, ty=ty, init=v, const=False) for a, v in zip(names, vals)]
        return self.group(one)
    # types
    def type(self):
        t = self.tok
        if self.acc("*"): return ("ptr", self.type())
        if self.acc("("):
            r = self.type(); self.exp(")"); return r
        if self.acc("["):
            if self.acc("]"): return ("slice", self.type())
            if self.acc("..."): n = None
            else: n = self.expr()
            self.exp("]"); return ("arr", n, self.type())
        if self.acc("map"):
            self.exp("["); k = self.type(); self.exp("]"); return ("map", k, self.type())
        if self.acc("struct"):
            self.exp("{"); fs = []
            while not self.acc("}"):
                if self.acc("*"):
                    ty = self.type(); fs.append((ty[1], ("ptr", ty)))
                else:
                    names = [self.ident()]
                    if self.atany(";", "}", "."):
                        if self.acc("."): names[0] += "." + self.ident()
                        fs.append((names[0].split(".")[-1], ("name", names[0])))
                    else:
                        while self.acc(","): names.append(self.ident())
                        ty = self.type()
                        fs += [(n, ty) for n in names]
                if self.tok.t == "str": self.next()
                self.acc(";")
            return ("struct", fs)
        if self.acc("interface"):
            self.exp("{"); ms = []
            while not self.acc("}"):
                n = self.ident()
                if self.at("("):
                    ps, ret = self.sig(); ms.append((n, ps, ret))
                elif self.acc("."): self.ident()
                self.acc(";")
            return ("iface", ms)
        if self.acc("func"):
            ps, ret = self.sig(); return ("fn", ps, ret)
        if self.acc("chan"): return ("chan", self.type())
        n = self.ident()
        if self.at(".") :
            self.next(); n += "." + self.ident()
        return ("name", n)
    def params(self):
        self.exp("("); items = []
        while not self.acc(")"):
            if self.acc("..."): items.append((None, ("slice", self.type()))); self.acc(","); continue
            if self.tok.t == "id" and not self.at("func") and not self.atany("map", "interface", "struct", "chan") and self.peek().v not in (",", ")", "."):
                n = self.next().v
                if self.acc("..."): ty = ("slice", self.type())
                else: ty = self.type()
                items.append((n, ty))
            else:
                items.append((None, self.type()))
            self.acc(",")
        if any(n for n, _ in items):
            # a, b int form: unnamed entries are names of the following type
            out = []; pend = []
            for n, ty in items:
                if n is None: pend.append(ty[1])
                else:
                    out += [(p, ty) for p in pend]; pend = []
                    out.append((n, ty))
            return out
        return items
    def sig(self):
        ps = self.params(); ret = None
        if self.at("("): ret = ("tuple", self.params())
        elif self.tok.t == "id" or self.atany("*", "[", "interface"):
            if not self.at("{"): ret = self.type()
        return ps, ret
    # statements
    def block(self):
        line = self.exp("{").line; b = []
        save = self.no_struct; self.no_struct = 0
        while not self.acc("}"):
            if self.acc(";"): continue
            b.extend(self.stmt())
        self.no_struct = save
        return N("block", line, body=b)
    def simple(self, stop=None):
        """simple statement"""
        line = self.tok.line
        es = [self.expr()]
        while self.acc(","): es.append(self.expr())
        t = self.tok
        if t.t == "p" and t.v in self.assign_ops:
            op = self.next().v
            if op in (":=", "=") and self.at("range"):
                self.next(); it = self.expr()
                return N("range", line, vars=es, decl=op == ":=", iter=it)
            rs = [self.expr()]
            while self.acc(","): rs.append(self.expr())
            if op == ":=": return N("defvar", line, l=es, r=rs)
            if len(es) == 1 and len(rs) == 1: return N("expr", line, e=N("asg", line, op=op, l=es[0], r=rs[0]))
            return N("masg", line, l=es, r=rs)
        if t.t == "p" and t.v in ("++", "--"):
            self.next(); return N("expr", line, e=N("post", line, op=t.v, e=es[0]))
        return N("expr", line, e=es[0])
    def stmt(self):
        t = self.tok; line = t.line
        if self.at("{"): return [self.block()]
        if t.t == "id":
            v = t.v
            if v == "var": return self.vardecl()
            if v == "const": return self.constdecl()
            if v == "type":
                self.next(); return self.group(self.typedecl)
            if v == "return":
                self.next(); es = []
                if not self.atany(";", "}"):
                    es = [self.expr()]
                    while self.acc(","): es.append(self.expr())
                e = None if not es else es[0] if len(es) == 1 else N("tuple", line, elems=es)
                return [N("ret", line, e=e)]
            if v == "if": return [self.ifstmt()]
            if v == "for": return [self.forstmt()]
            if v == "switch": return [self.switchstmt()]
            if v in ("break", "continue"):
                self.next(); l = None
                if self.tok.t == "id" : l = self.next().v
                return [N("brk" if v == "break" else "cont", line, label=l)]
            if v == "fallthrough": self.next(); return [N("fallthrough", line)]
            if v == "defer": self.next(); return [N("defer", line, body=N("expr", line, e=self.expr()), err=False)]
            if v == "goto": self.err("goto")
            if self.peek().v == ":" and self.peek().t == "p":
                self.next(); self.next(); self.acc(";")
                s = self.stmt()[0]; s.label = v; return [s]
        return [self.simple()]
    def hdr(self, f):
        self.no_struct += 1
        try: return f()
        finally: self.no_struct -= 1
    def ifstmt(self):
        line = self.exp("if").line
        def h():
            init = None
            if self.at(";"): self.next(); c = self.simple()
            else:
                c = self.simple()
                if self.acc(";"): init = c; c = self.simple()
            return init, c
        init, c = self.hdr(h)
        a = self.block(); b = None
        if self.acc("else"):
            b = self.ifstmt() if self.at("if") else self.block()
        n = N("if", line, c=c.e, a=a, b=b)
        if init: return N("block", line, body=[init, n])
        return n
    def forstmt(self):
        line = self.exp("for").line
        if self.at("{"): return N("while", line, c=N("lit", line, v=True, t="bool"), body=self.block(), step=None)
        def h():
            if self.at("range"):
                self.next(); return N("range", line, vars=[], decl=True, iter=self.expr())
            init = None if self.at(";") else self.simple()
            if init is not None and init.k == "range": return init
            if self.at("{"): return N("while", line, c=init.e, body=None, step=None)
            self.exp(";"); c = None if self.at(";") else self.simple().e
            self.exp(";"); st = None if self.at("{") else self.simple()
            return N("for3", line, init=[init] if init else [], c=c, step=st and (st.e if st.k == "expr" else st), body=None)
        n = self.hdr(h); body = self.block()
        if n.k == "range":
            vs = [None if (v.k == "name" and v.id == "_") else v.id if v.k == "name" else v for v in n.vars]
            iv = vs[0] if len(vs) > 0 else None; ev = vs[1] if len(vs) > 1 else None
            return N("foreach", line, idx=iv, var=ev, iter=n.iter, body=body, decl=n.decl, style="gorange")
        n.body = body
        return n
    def switchstmt(self):
        line = self.exp("switch").line
        def h():
            init = e = None
            if not self.at("{"):
                if not self.at(";"): e = self.simple()
                if self.acc(";"):
                    init = e; e = None if self.at("{") else self.simple()
            return init, e
        init, e = self.hdr(h)
        self.exp("{"); cases = []
        tysw = None
        while not self.acc("}"):
            pats = []
            if self.acc("default"): pats = [None]
            else:
                self.exp("case")
                istype = e is not None and ((e.k == "expr" and e.e.k == "tyassert" and e.e.ty is None) or (e.k == "defvar" and e.r[0].k == "tyassert" and e.r[0].ty is None))
                f = (lambda: N("tyref", self.tok.line, ty=self.type())) if istype else self.expr
                pats = [f()]
                while self.acc(","): pats.append(f())
            self.exp(":"); body = []
            while not self.atany("case", "default", "}"):
                if self.acc(";"): continue
                body.extend(self.stmt())
            cases.append((pats, N("block", line, body=body)))
        ex = None if e is None else (e.e if e.k == "expr" else e)
        n = N("switch", line, e=ex, cases=cases, fall=False)
        if init: return N("block", line, body=[init, n])
        return n
    # expressions
    def unary(self):
        t = self.tok; line = t.line
        if t.t == "p" and t.v in ("!", "-", "+", "^", "&", "*", "<-"):
            self.next(); return N("un", line, op=t.v, e=self.unary())
        return self.postfix(self.primary())
    def primary(self):
        t = self.tok; line = t.line
        if t.t == "num":
            self.next(); return N("lit", line, v=t.v[0], t="float" if isinstance(t.v[0], float) else "int", suf="")
        if t.t == "str": self.next(); return N("lit", line, v=t.v, t="str", suf="")
        if t.t == "char": self.next(); return N("lit", line, v=ord(t.v), t="int", suf="")
        if t.t == "id":
            if t.v in ("true", "false"): self.next(); return N("lit", line, v=t.v == "true", t="bool", suf="")
            if t.v == "nil": self.next(); return N("lit", line, v=None, t="null", suf="")
            if t.v == "func":
                self.next(); ps, ret = self.sig()
                if self.at("{"): return N("lam", line, params=ps, body=self.block(), ret=ret)
                return N("tyref", line, ty=("fn", ps, ret))
            if t.v in ("map", "struct", "interface", "chan"):
                return self.tyexpr()
            self.next(); return N("name", line, id=t.v)
        if t.v == "(":
            self.next(); save = self.no_struct; self.no_struct = 0
            if self.at("*") or self.at("["):
                e = self.try_parse(lambda: self._paren_type())
                if e is None: e = self.expr(); self.exp(")")
            else:
                e = self.expr(); self.exp(")")
            self.no_struct = save
            return N("paren", line, e=e) if False else e
        if t.v == "[": return self.tyexpr()
        self.err()
    def _paren_type(self):
        line = self.tok.line
        if self.at("*"):
            # could be a deref expression; prefer the expression unless a conversion call follows with a type
            raise ParseError("expr")
        ty = self.type(); self.exp(")"); return N("tyref", line, ty=ty)
    def tyexpr(self):
        line = self.tok.line; ty = self.type()
        if self.at("{"): return self.composite(ty)
        return N("tyref", line, ty=ty)
    def composite(self, ty):
        line = self.exp("{").line; fs = []; els = []
        save = self.no_struct; self.no_struct = 0
        while not self.acc("}"):
            if self.acc(";"): continue
            if self.at("{"): e = self.composite(None)
            else: e = self.expr()
            if self.acc(":"):
                v = self.composite(None) if self.at("{") else self.expr()
                fs.append((e, v))
            else: els.append(e)
            self.acc(","); self.acc(";")
        self.no_struct = save
        if fs and ty is not None and ty[0] in ("map", "slice", "arr"): return N("maplit", line, ty=ty, items=fs)
        if fs: return N("slit", line, ty=ty, fields=[(k.id if k.k == "name" else k, v) for k, v in fs])
        if ty is not None and ty[0] in ("slice", "arr", "map"): return N("alit", line, ty=ty, elems=els)
        return N("slit", line, ty=ty, fields=[], pos=els)
    def postfix(self, e):
        while True:
            t = self.tok; line = t.line
            if t.v == "." and t.t == "p":
                self.next()
                if self.acc("("):
                    if self.acc("type"): ty = None
                    else: ty = self.type()
                    self.exp(")"); e = N("tyassert", line, e=e, ty=ty)
                else: e = N("mem", line, o=e, f=self.ident())
            elif t.v == "(" and t.t == "p":
                self.next(); args = []; save = self.no_struct; self.no_struct = 0
                while not self.acc(")"):
                    if self.acc(";"): continue
                    args.append((None, self.expr())); 
                    if self.acc("..."): args[-1] = ("...", args[-1][1])
                    self.acc(",")
                self.no_struct = save
                e = N("call", line, f=e, args=args, targs=None)
            elif t.v == "[" and t.t == "p":
                self.next(); save = self.no_struct; self.no_struct = 0
                lo = None if self.at(":") else self.expr()
                if self.acc(":"):
                    hi = None if self.at("]") else self.expr()
                    self.exp("]"); e = N("slice", line, o=e, lo=lo, hi=hi, incl=False)
                else:
                    self.exp("]"); e = N("idx", line, o=e, i=lo)
                self.no_struct = save
            elif t.v == "{" and t.t == "p" and not self.no_struct and e.k in ("name", "mem"):
                ty = ("name", e.id) if e.k == "name" else ("name", e.o.id + "." + e.f) if e.o.k == "name" else None
                if ty is None: return e
                e = self.composite(ty)
            else: return e

def parse(src, fname="generated.go"):
    p = GoParser(src, fname)
    d = p.parse()
    return d
