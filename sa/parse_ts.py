"""TypeScript / AssemblyScript front end."""
import re
from .base import *

class TSLexer(Lexer):
    puncts = ["===","!==","**=","...","<<=",">>=",">>>","=>","==","!=","<=",">=","&&","||","??","?.","++","--","+=","-=","*=","/=","%=","&=","|=","^=","<<",">>","**",
              "+","-","*","/","%","&","|","^","~","!","<",">","=","?",":",";",",",".","(",")","[","]","{","}","@"]
    def special(self, i):
        s = self.src
        if s[i] == "'":
            j = i + 1
            while s[j] != "'": j += 2 if s[j] == "\\" else 1
            return ("str", unescape(s[i+1:j]), j + 1)
        if s[i] == "`":
            j = i + 1; parts = []; cur = ""
            while s[j] != "`":
                if s[j] == "\\": cur += unescape(s[j:j+2]); j += 2
                elif s.startswith("${", j):
                    parts.append(cur); cur = ""; d = 1; k = j + 2
                    while d:
                        if s[k] == "{": d += 1
                        elif s[k] == "}": d -= 1
                        k += 1
                    parts.append(("expr", s[j+2:k-1])); j = k
                else: cur += s[j]; j += 1
            parts.append(cur)
            return ("tmpl", parts, j + 1)

MODS = {"export","abstract","static","override","public","private","protected","readonly","declare","async","default"}

class TSParser(Parser):
    lexer = TSLexer
    binops = {"??":(3,0),"||":(4,0),"&&":(5,0),"|":(6,0),"^":(7,0),"&":(8,0),"==":(9,0),"!=":(9,0),"===":(9,0),"!==":(9,0),
              "<":(10,0),">":(10,0),"<=":(10,0),">=":(10,0),"instanceof":(10,0),"in":(10,0),"<<":(11,0),">>":(11,0),">>>":(11,0),
              "+":(12,0),"-":(12,0),"*":(13,0),"/":(13,0),"%":(13,0),"**":(14,1)}
    assign_ops = Parser.assign_ops | {"**="}
    noin = 0
    def infix_stop(self, t):
        return bool(self.noin and t.v == "in")
    def parse(self):
        out = []
        while self.tok.t != "eof": out.extend(self.top())
        return out
    def semi(self):
        if self.acc(";"): return
        if self.tok.nl or self.at("}") or self.tok.t == "eof": return
        self.err("expected ;")
    def decorators(self):
        while self.acc("@"):
            self.ident()
            while self.acc("."): self.ident()
            if self.at("("): self.args()
    def top(self):
        self.decorators(); t = self.tok; line = t.line; mods = set()
        if self.acc(";"): return []
        while self.tok.t == "id" and self.tok.v in MODS and self.peek().t == "id": mods.add(self.next().v)
        if self.at("import"):
            while not self.tok.t == "str": self.next()
            self.next(); self.semi(); return []
        if "export" in mods and self.at("{"):
            while not self.acc("}"): self.next()
            self.semi(); return []
        if self.at("class"): return [self.cls(mods)]
        if self.at("interface"):
            self.next(); n = self.ident(); self.tparams()
            if self.acc("extends"): self.type()
            self.type(); return [N("iface", line, name=n)]
        if self.at("type") and self.peek().t == "id":
            self.next(); n = self.ident(); self.tparams(); self.exp("="); ty = self.type(); self.semi()
            return [N("typedef", line, name=n, ty=ty)]
        if self.at("enum") or (self.at("const") and self.peek().v == "enum"):
            self.acc("const"); self.next(); n = self.ident(); self.exp("{"); vs = []
            while not self.acc("}"):
                v = self.next().v; e = None
                if self.acc("="): e = self.assign()
                vs.append((v, e)); self.acc(",")
            return [N("enum", line, name=n, values=vs, base=None)]
        if self.at("namespace") or self.at("module"):
            self.next(); n = self.ident()
            while self.acc("."): n += "." + self.ident()
            self.exp("{"); out = []
            while not self.acc("}"): out.extend(self.top())
            return [N("ns", line, name=n, decls=out, export="export" in mods)]
        if self.at("function"):
            return [self.func()]
        return self.stmt()
    def func(self):
        line = self.exp("function").line; self.acc("*")
        n = self.ident() if self.tok.t == "id" else None
        self.tparams(); ps = self.params(); ret = None
        if self.acc(":"): ret = self.type()
        body = self.block() if self.at("{") else (self.semi() or None)
        return N("fn", line, name=n, params=ps, ret=ret, body=body, cls=None, static=False)
    def tparams(self):
        if self.acc("<"):
            d = 1
            while d:
                self.split(">")
                t = self.next()
                if t.v == "<": d += 1
                elif t.v == ">": d -= 1
    def params(self):
        self.exp("("); ps = []
        while not self.acc(")"):
            self.decorators()
            while self.tok.t == "id" and self.tok.v in MODS and self.peek().t == "id": self.next()
            rest = self.acc("...")
            if self.at("{") or self.at("["): pat = self.primary(); n = "$pat"
            else: n = self.ident()
            opt = self.acc("?"); ty = self.type() if self.acc(":") else None
            d = self.assign() if self.acc("=") else None
            ps.append((n, ty) if d is None and not opt else (n, ty, d or "opt")); self.acc(",")
        return ps
    def cls(self, mods):
        line = self.exp("class").line; n = self.ident() if self.tok.t == "id" and not self.at("extends") else None
        self.tparams(); bases = []
        if self.acc("extends"): bases.append(self.type())
        if self.acc("implements"):
            self.type()
            while self.acc(","): self.type()
        self.exp("{"); fields = []; methods = []
        while not self.acc("}"):
            if self.acc(";"): continue
            self.decorators(); m = set(); l = self.tok.line
            while self.tok.t == "id" and self.tok.v in MODS | {"get", "set"} and not self.peek().v in ("(", ":", "=", ";", "?", "!", "}"): m.add(self.next().v)
            if self.at("["):
                self.next(); self.expr(); self.exp("]"); nm = "$idx"
            else: nm = self.next().v
            if not isinstance(nm, str): nm = str(nm[0])
            opt = self.acc("?") or self.acc("!")
            if self.at("(") or self.at("<"):
                self.tparams(); ps = self.params(); ret = self.type() if self.acc(":") else None
                body = self.block() if self.at("{") else (self.semi() or None)
                methods.append(N("fn", l, name=nm, params=ps, ret=ret, body=body, cls=n, static="static" in m, abstract="abstract" in m, acc="get" if "get" in m else "set" if "set" in m else None))
            else:
                ty = self.type() if self.acc(":") else None
                init = self.assign() if self.acc("=") else None
                self.semi(); fields.append((nm, ty, init, "static" in m))
        return N("struct", line, name=n, fields=[(a, b) for a, b, c, s in fields if not s], inits={a: c for a, b, c, s in fields if not s}, statics={a: c for a, b, c, s in fields if s},
                 methods=methods, bases=bases, flavor="class", abstract="abstract" in mods)
    # types
    def type(self):
        self.acc("|")
        ty = self.type1()
        if self.at("|") or self.at("&"):
            ts = [ty]
            while self.acc("|") or self.acc("&"): ts.append(self.type1())
            ty = ("union", ts)
        if self.acc("extends"):
            self.type1(); self.exp("?"); self.type(); self.exp(":"); self.type()
        return ty
    def type1(self):
        t = self.tok
        if self.at("("):
            # function type or parenthesised
            r = self.try_parse(self._fntype)
            if r: return r
            self.exp("("); ty = self.type(); self.exp(")")
        elif self.acc("new"):
            ty = self._fntype()
        elif self.at("{"):
            self.next(); d = 1
            while d:
                x = self.next()
                if x.v == "{" and x.t == "p": d += 1
                elif x.v == "}" and x.t == "p": d -= 1
            ty = ("objtype",)
        elif self.acc("["):
            ts = []
            while not self.acc("]"): ts.append(self.type()); self.acc(",")
            ty = ("tuple", ts)
        elif t.t in ("str", "num"): self.next(); ty = ("littype", t.v)
        elif self.atany("keyof", "typeof", "readonly", "asserts", "infer", "unique"): self.next(); ty = self.type1()
        else:
            n = self.ident()
            while self.at(".") : self.next(); n += "." + self.ident()
            ty = ("name", n)
            if self.at("<"):
                self.next(); args = []
                while True:
                    self.split(">")
                    if self.at(">"): break
                    args.append(self.type()); self.acc(",")
                self.exp_gt(); ty = ("gen", n, args)
            if self.at("is") and not self.tok.nl: self.next(); self.type(); ty = ("name", "boolean")
        while self.at("[") and not self.tok.nl:
            self.next()
            if self.acc("]"): ty = ("slice", ty)
            else: self.type(); self.exp("]"); ty = ("idxtype", ty)
        return ty
    def _fntype(self):
        self.tparams(); self.params(); self.exp("=>"); self.type(); return ("fn",)
    # statements
    def block(self):
        line = self.exp("{").line; b = []
        while not self.acc("}"): b.extend(self.stmt())
        return N("block", line, body=b)
    def stmt1(self):
        s = self.stmt()
        return s[0] if len(s) == 1 else N("block", self.tok.line, body=s, noscope=True)
    def vars(self):
        line = self.tok.line; kw = self.next().v; out = []
        while True:
            if self.at("[") or self.at("{"):
                pat = self.primary(); init = None
                if self.acc(":"): self.type()
                if self.acc("="): init = self.assign()
                out.append(N("destruct", line, pat=pat, init=init))
            else:
                n = self.ident(); self.acc("!"); ty = self.type() if self.acc(":") else None
                init = self.assign() if self.acc("=") else None
                out.append(N("var", line, name=n, ty=ty, init=init, const=kw == "const"))
            if not self.acc(","): break
        return out
    def stmt(self):
        t = self.tok; line = t.line
        if self.at("{"): return [self.block()]
        if self.acc(";"): return []
        if t.t == "id":
            v = t.v
            if v in ("let", "var") or (v == "const" and self.peek().v != "enum"):
                out = self.vars(); self.semi(); return out
            if v == "if":
                self.next(); self.exp("("); c = self.expr(); self.exp(")"); a = self.stmt1(); b = None
                if self.acc("else"): b = self.stmt1()
                return [N("if", line, c=c, a=a, b=b)]
            if v == "while":
                self.next(); self.exp("("); c = self.expr(); self.exp(")"); return [N("while", line, c=c, body=self.stmt1(), step=None)]
            if v == "do":
                self.next(); b = self.stmt1(); self.exp("while"); self.exp("("); c = self.expr(); self.exp(")"); self.semi(); return [N("dowhile", line, c=c, body=b)]
            if v == "for":
                self.next(); self.exp("(")
                if self.atany("let", "const", "var"):
                    save = self.i; self.next()
                    pat = self.primary() if self.atany("[", "{") else None
                    n = None if pat else self.ident()
                    if self.acc(":"): self.type()
                    if self.atany("of", "in"):
                        kind = self.next().v; it = self.expr(); self.exp(")")
                        return [N("foreach", line, idx=None, var=pat or n, iter=it, body=self.stmt1(), decl=True, style="ts" + kind)]
                    self.i = save; init = self.vars(); self.exp(";")
                else:
                    init = [] if self.at(";") else [N("expr", line, e=self.expr())]; self.exp(";")
                c = None if self.at(";") else self.expr(); self.exp(";")
                st = None if self.at(")") else self.expr(); self.exp(")")
                return [N("for3", line, init=init, c=c, step=st, body=self.stmt1())]
            if v == "switch":
                self.next(); self.exp("("); e = self.expr(); self.exp(")"); self.exp("{"); cases = []
                while not self.acc("}"):
                    pats = []
                    while self.atany("case", "default"):
                        if self.next().v == "case": pats.append(self.expr())
                        else: pats.append(None)
                        self.exp(":")
                    body = []
                    while not self.atany("case", "default", "}"): body.extend(self.stmt())
                    cases.append((pats, N("block", line, body=body, noscope=True)))
                return [N("switch", line, e=e, cases=cases, fall=True)]
            if v == "return":
                self.next(); e = None
                if not self.atany(";", "}") and not self.tok.nl: e = self.expr()
                self.semi(); return [N("ret", line, e=e)]
            if v == "throw": self.next(); e = self.expr(); self.semi(); return [N("throw", line, e=e)]
            if v in ("break", "continue"):
                self.next(); l = None
                if self.tok.t == "id" and not self.tok.nl: l = self.next().v
                self.semi(); return [N("brk" if v == "break" else "cont", line, label=l)]
            if v == "try":
                self.next(); b = self.block(); cs = []; fin = None
                if self.acc("catch"):
                    n = None
                    if self.acc("("):
                        n = self.ident()
                        if self.acc(":"): self.type()
                        self.exp(")")
                    cs.append((n, None, self.block()))
                if self.acc("finally"): fin = self.block()
                return [N("trycatch", line, body=b, catches=cs, fin=fin)]
            if v == "function": return [self.func()]
            if v == "class" or (v == "abstract" and self.peek().v == "class"): self.acc("abstract"); return [self.cls(set())]
            if v in ("enum",) or (v == "const" and self.peek().v == "enum"): return self.top()
            if self.peek().v == ":" and self.peek().t == "p" and v not in ("default", "case"):
                self.next(); self.next(); s = self.stmt1(); s.label = v; return [s]
        e = self.expr(); self.semi()
        return [N("expr", line, e=e)]
    # expressions
    def expr(self, minprec=0):
        if minprec > 0: return super().expr(minprec)
        e = self.assign()
        while self.at(","):
            line = self.next().line; e = N("comma", line, l=e, r=self.assign())
        return e
    def assign(self):
        t = self.tok; line = t.line
        # arrow functions
        if t.t == "id" and self.peek().v == "=>":
            n = self.next().v; self.next(); return self.arrow([(n, None)], line)
        if self.at("(") or self.at("<") or (self.at("async")):
            r = self.try_parse(self._arrow)
            if r is not None: return r
        e = super().expr(3)
        if self.at("?") :
            self.next(); a = self.assign(); self.exp(":"); b = self.assign(); return N("cond", line, c=e, a=a, b=b)
        if self.tok.t == "p" and self.tok.v in self.assign_ops:
            op = self.next().v; return N("asg", line, op=op, l=e, r=self.assign())
        return e
    def _arrow(self):
        line = self.tok.line; self.acc("async"); self.tparams(); ps = self.params()
        if self.acc(":"): self.type()
        if not self.at("=>"): raise ParseError("no arrow")
        self.next(); return self.arrow(ps, line)
    def arrow(self, ps, line):
        if self.at("{"): b = self.block()
        else: b = N("block", line, body=[N("ret", line, e=self.assign())])
        return N("lam", line, params=ps, body=b, ret=None)
    def special_infix(self, left, minprec):
        if self.atany("as", "satisfies") and minprec <= 10 and not self.tok.nl:
            line = self.next().line
            return N("cast", line, ty=self.type(), e=left)
        return None
    def unary(self):
        t = self.tok; line = t.line
        if t.t == "p" and t.v in ("!", "-", "+", "~"): self.next(); return N("un", line, op=t.v, e=self.unary())
        if t.t == "p" and t.v in ("++", "--"): self.next(); return N("pre", line, op=t.v, e=self.unary())
        if t.t == "id" and t.v in ("typeof", "void", "delete", "await"): self.next(); return N("un", line, op=t.v, e=self.unary())
        if t.t == "p" and t.v == "<":
            # cast <T>expr
            r = self.try_parse(lambda: self._anglecast())
            if r is not None: return r
        return self.postfix(self.primary())
    def _anglecast(self):
        line = self.exp("<").line; ty = self.type(); self.exp_gt(); return N("cast", line, ty=ty, e=self.unary())
    def primary(self):
        t = self.tok; line = t.line
        if t.t == "num":
            self.next(); v, suf = t.v; return N("lit", line, v=v, t="float" if isinstance(v, float) else "int", suf=suf)
        if t.t == "str": self.next(); return N("lit", line, v=t.v, t="str", suf="")
        if t.t == "tmpl":
            self.next(); ps = []
            for p in t.v:
                if isinstance(p, tuple):
                    sub = TSParser(p[1], self.fname); ps.append(sub.expr())
                else: ps.append(N("lit", line, v=p, t="str", suf=""))
            return N("tmpl", line, parts=ps)
        if t.v == "(": self.next(); e = self.expr(); self.exp(")"); return e
        if t.v == "[":
            self.next(); es = []
            while not self.acc("]"):
                if self.acc(","): continue
                if self.acc("..."): es.append(N("spread", line, e=self.assign()))
                else: es.append(self.assign())
                self.acc(",")
            return N("alit", line, elems=es, ty=None)
        if t.v == "{":
            self.next(); fs = []
            while not self.acc("}"):
                if self.acc("..."): fs.append(("...", self.assign())); self.acc(","); continue
                if self.acc("["): k = self.assign(); self.exp("]")
                else:
                    kt = self.next(); k = kt.v if isinstance(kt.v, str) else str(kt.v[0])
                if self.at("("): 
                    ps = self.params(); 
                    if self.acc(":"): self.type()
                    fs.append((k, N("lam", line, params=ps, body=self.block(), ret=None)))
                elif self.acc(":"): fs.append((k, self.assign()))
                else: fs.append((k, N("name", line, id=k)))
                self.acc(",")
            return N("objlit", line, fields=fs)
        if t.t == "id":
            v = t.v
            if v in ("true", "false"): self.next(); return N("lit", line, v=v == "true", t="bool", suf="")
            if v == "null": self.next(); return N("lit", line, v=None, t="null", suf="")
            if v == "function": f = self.func(); return N("lam", line, params=f.params, body=f.body, ret=f.ret)
            if v == "new":
                self.next(); 
                if self.at("("): self.next(); ty = self.expr(); self.exp(")")
                else: ty = self.newtype()
                args = self.args() if self.at("(") else []
                return N("new", line, ty=ty, args=args)
            if v == "class": return N("classexpr", line, c=self.cls(set()))
            self.next(); return N("name", line, id=v)
        self.err()
    def newtype(self):
        n = self.ident()
        while self.acc("."): n += "." + self.ident()
        if self.at("<"):
            self.next(); args = []
            while True:
                self.split(">")
                if self.at(">"): break
                args.append(self.type()); self.acc(",")
            self.exp_gt(); return ("gen", n, args)
        return ("name", n)
    def args(self):
        self.exp("("); out = []
        while not self.acc(")"):
            if self.acc("..."): ln = self.tok.line; out.append((None, N("spread", ln, e=self.assign())))
            else: out.append((None, self.assign()))
            self.acc(",")
        return out
    def postfix(self, e):
        while True:
            t = self.tok; line = t.line
            if t.t != "p": return e
            if t.v == ".": self.next(); e = N("mem", line, o=e, f=self.ident())
            elif t.v == "?.": self.next(); e = N("mem", line, o=e, f=self.ident(), opt=True)
            elif t.v == "(": e = N("call", line, f=e, args=self.args(), targs=None)
            elif t.v == "[" and not (t.nl and False):
                self.next(); i = self.expr(); self.exp("]"); e = N("idx", line, o=e, i=i)
            elif t.v == "!" and not t.nl and self.peek().v not in ("=",): self.next()
            elif t.v in ("++", "--") and not t.nl: self.next(); e = N("post", line, op=t.v, e=e)
            elif t.v == "<" and e.k in ("name", "mem"):
                r = self.try_parse(self._callt)
                if r is None: return e
                e = N("call", line, f=e, args=r[1], targs=r[0])
            elif t.t == "tmpl": self.err("tagged template")
            else: return e
    def _callt(self):
        self.exp("<"); ts = []
        while True:
            self.split(">")
            if self.at(">"): break
            ts.append(self.type()); self.acc(",")
        self.exp_gt()
        if not self.at("("): raise ParseError("no call")
        return ts, self.args()

def parse(src, fname="generated.ts"):
    return TSParser(src, fname).parse()
