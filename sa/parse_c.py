"""C front end (after macro expansion by the system preprocessor with #include lines removed)."""
import re, subprocess
from .base import *

class CLexer(Lexer):
    puncts = ["->","++","--","<<=",">>=","<<",">>","<=",">=","==","!=","&&","||","+=","-=","*=","/=","%=","&=","|=","^=","...",
              "+","-","*","/","%","&","|","^","~","!","<",">","=","?",":",";",",",".","(",")","[","]","{","}","#"]

BASE_TYPES = {"void","char","short","int","long","float","double","signed","unsigned","bool","_Bool","size_t","ssize_t","ptrdiff_t",
    "uint8_t","int8_t","uint16_t","int16_t","uint32_t","int32_t","uint64_t","int64_t","uintptr_t","intptr_t","intmax_t","uintmax_t","FILE"}
QUAL = {"const","volatile","static","extern","inline","register","restrict","__restrict","_Noreturn","__inline","__extension__"}

def preprocess(src, defines):
    src = re.sub(r"^[ \t]*#[ \t]*include[^\n]*$", "", src, flags=re.M)
    pre = "#define NULL ((void*)0)\n"
    r = subprocess.run(["gcc-13" , "-E", "-P", "-x", "c", "-nostdinc"] + ["-D" + d for d in defines] + ["-"], input=pre + src,
                       capture_output=True, text=True)
    if r.returncode != 0:
        r = subprocess.run(["gcc" , "-E", "-P", "-x", "c", "-nostdinc"] + ["-D" + d for d in defines] + ["-"], input=pre + src,
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise ParseError("preprocessor: " + r.stderr[:400])
    return r.stdout

class CParser(Parser):
    lexer = CLexer
    binops = {"||":(2,0),"&&":(3,0),"|":(4,0),"^":(5,0),"&":(6,0),"==":(7,0),"!=":(7,0),"<":(8,0),">":(8,0),"<=":(8,0),">=":(8,0),
              "<<":(9,0),">>":(9,0),"+":(10,0),"-":(10,0),"*":(11,0),"/":(11,0),"%":(11,0)}
    def __init__(self, src, fname="?"):
        super().__init__(src, fname)
        self.types = set(BASE_TYPES)
    def is_type(self, t=None):
        t = t or self.tok
        return t.t == "id" and (t.v in self.types or t.v in QUAL or t.v in ("struct", "union", "enum"))
    def parse(self):
        out = []
        while self.tok.t != "eof":
            if self.acc(";"): continue
            out.extend(self.external())
        return out
    def specs(self):
        """declaration specifiers -> (type, storage set, [decls])"""
        store = set(); names = []; ty = None; decls = []
        while True:
            t = self.tok
            if t.t != "id": break
            if t.v in QUAL: store.add(t.v); self.next(); continue
            if t.v == "typedef": store.add("typedef"); self.next(); continue
            if t.v in ("struct", "union"):
                self.next(); nm = None
                if self.tok.t == "id": nm = self.next().v
                if self.at("{"):
                    self.next(); fields = []
                    while not self.acc("}"):
                        bt, st, ds = self.specs(); decls += ds
                        if self.acc(";"): continue
                        while True:
                            n2, ft, _ = self.declarator(bt)
                            if self.acc(":"): self.expr(2)
                            fields.append((n2, ft))
                            if not self.acc(","): break
                        self.exp(";")
                    d = N("struct", t.line, name=nm or "$anon%d" % t.pos, fields=fields, methods=[], bases=[], flavor=t.v)
                    decls.append(d); ty = ("name", d.name)
                else:
                    ty = ("name", nm)
                continue
            if t.v == "enum":
                self.next(); nm = None
                if self.tok.t == "id": nm = self.next().v
                if self.at("{"):
                    self.next(); vals = []
                    while not self.acc("}"):
                        n2 = self.ident(); v = None
                        if self.acc("="): v = self.expr(2)
                        vals.append((n2, v)); self.acc(",")
                    d = N("enum", t.line, name=nm or "$anon%d" % t.pos, values=vals, base=None)
                    decls.append(d); ty = ("name", d.name)
                else:
                    ty = ("name", nm)
                continue
            if t.v in self.types and ty is None and (not names or t.v in BASE_TYPES):
                # user typedef name terminates if we already have a type
                if names and t.v not in ("char","short","int","long","signed","unsigned","float","double"): break
                names.append(t.v); self.next(); continue
            break
        if ty is None:
            if not names: self.err("expected type")
            ty = ("name", " ".join(names))
        return ty, store, decls
    def declarator(self, base, abstract=False):
        ty = base
        while self.acc("*"):
            ty = ("ptr", ty)
            while self.tok.t == "id" and self.tok.v in QUAL: self.next()
        name = None; params = None
        if self.at("(") and self.peek().v == "*":
            self.next(); self.exp("*"); name = self.ident() if self.tok.t == "id" else None
            self.exp(")"); ty = ("ptr", ("fn",))
        elif self.tok.t == "id" and not self.is_type():
            name = self.next().v
        elif self.tok.t == "id" and not abstract:
            name = self.next().v
        if self.at("("):
            params = self.params()
        dims = []
        while self.acc("["):
            d = None
            if not self.at("]"): d = self.expr()
            self.exp("]"); dims.append(d)
        for d in reversed(dims): ty = ("arr", d, ty)
        return name, ty, params
    def params(self):
        self.exp("("); ps = []
        if self.at("void") and self.peek().v == ")": self.next()
        while not self.acc(")"):
            if self.acc("..."): continue
            bt, _, _ = self.specs()
            n, t, _ = self.declarator(bt, True)
            ps.append((n, t)); self.acc(",")
        return ps
    def external(self):
        line = self.tok.line
        if self.at("extern") and self.peek().t == "str":
            self.next(); self.next()
            if self.acc("{"):
                out = []
                while not self.acc("}"): out.extend(self.external())
                return out
        if self.at("#"): self.err("directive")
        bt, store, decls = self.specs()
        out = list(decls)
        if self.acc(";"): return out
        while True:
            n, ty, params = self.declarator(bt)
            if "typedef" in store:
                self.types.add(n)
                if ty[0] == "name" and ty[1].startswith("$anon"):
                    for d in decls:
                        if d.name == ty[1]: d.name = n
                else:
                    out.append(N("typedef", line, name=n, ty=ty))
            elif params is not None:
                if self.at("{"):
                    body = self.block()
                    out.append(N("fn", line, name=n, params=params, ret=ty, body=body, static="static" in store, cls=None))
                    return out
                out.append(N("proto", line, name=n, params=params, ret=ty))
            else:
                init = None
                if self.acc("="): init = self.initializer()
                out.append(N("var", line, name=n, ty=ty, init=init, const="const" in store, store=store))
            if not self.acc(","): break
        self.exp(";")
        return out
    def initializer(self):
        if self.at("{"):
            line = self.next().line; items = []; arr = []
            while not self.acc("}"):
                if self.at(".") :
                    self.next(); f = self.ident(); self.exp("="); items.append((f, self.initializer()))
                else:
                    arr.append(self.initializer())
                self.acc(",")
            if items: return N("slit", line, ty=None, fields=items)
            return N("alit", line, elems=arr)
        return self.expr(1)
    # statements
    def block(self):
        line = self.exp("{").line; b = []
        while not self.acc("}"): b.extend(self.stmt())
        return N("block", line, body=b)
    def stmt1(self):
        s = self.stmt()
        return s[0] if len(s) == 1 else N("block", self.tok.line, body=s, noscope=True)
    def stmt(self):
        t = self.tok; line = t.line
        if self.at("{"): return [self.block()]
        if self.acc(";"): return []
        if t.t == "id":
            v = t.v
            if v == "if":
                self.next(); self.exp("("); c = self.expr(); self.exp(")")
                a = self.stmt1(); b = None
                if self.acc("else"): b = self.stmt1()
                return [N("if", line, c=c, a=a, b=b)]
            if v == "while":
                self.next(); self.exp("("); c = self.expr(); self.exp(")")
                return [N("while", line, c=c, body=self.stmt1(), step=None)]
            if v == "do":
                self.next(); b = self.stmt1(); self.exp("while"); self.exp("("); c = self.expr(); self.exp(")"); self.exp(";")
                return [N("dowhile", line, c=c, body=b)]
            if v == "for":
                self.next(); self.exp("("); init = []
                if not self.at(";"):
                    if self.is_type(): init = self.decl()
                    else: init = [N("expr", line, e=self.expr())]; self.exp(";")
                else: self.exp(";")
                c = None if self.at(";") else self.expr()
                self.exp(";")
                st = None if self.at(")") else self.expr()
                self.exp(")")
                return [N("for3", line, init=init, c=c, step=st, body=self.stmt1())]
            if v == "switch":
                self.next(); self.exp("("); e = self.expr(); self.exp(")"); self.exp("{")
                cases = []
                while not self.acc("}"):
                    pats = []
                    while self.atany("case", "default"):
                        if self.next().v == "case":
                            pats.append(self.expr(2)); self.exp(":")
                        else:
                            pats.append(None); self.exp(":")
                    body = []
                    while not self.atany("case", "default", "}"): body.extend(self.stmt())
                    cases.append((pats, N("block", line, body=body)))
                return [N("switch", line, e=e, cases=cases, fall=True)]
            if v == "return":
                self.next(); e = None if self.at(";") else self.expr()
                self.exp(";"); return [N("ret", line, e=e)]
            if v == "break": self.next(); self.exp(";"); return [N("brk", line, label=None)]
            if v == "continue": self.next(); self.exp(";"); return [N("cont", line, label=None)]
            if v == "goto":
                self.next(); l = self.ident(); self.exp(";"); return [N("goto", line, label=l)]
            if self.peek().v == ":" and not self.is_type():
                self.next(); self.next(); return [N("label", line, label=v)]
            if self.is_type(): return self.decl()
        e = self.expr(); self.exp(";")
        return [N("expr", line, e=e)]
    def decl(self):
        line = self.tok.line
        bt, store, _ = self.specs(); out = []
        while not self.at(";"):
            n, ty, params = self.declarator(bt)
            init = self.initializer() if self.acc("=") else None
            out.append(N("var", line, name=n, ty=ty, init=init, const="const" in store))
            if not self.acc(","): break
        self.exp(";")
        return out
    # expressions
    def expr(self, minprec=0):
        e = super().expr(max(minprec, 2))
        if minprec <= 1:
            line = self.tok.line
            if self.acc("?"):
                a = self.expr(1); self.exp(":"); b = self.expr(1)
                e = N("cond", line, c=e, a=a, b=b)
            if self.tok.t == "p" and self.tok.v in self.assign_ops:
                op = self.next().v
                e = N("asg", line, op=op, l=e, r=self.expr(1))
        if minprec == 0 and self.at(","):
            line = self.next().line
            e = N("comma", line, l=e, r=self.expr(0))
        return e
    def typename(self):
        bt, _, _ = self.specs()
        n, ty, p = self.declarator(bt, True)
        return ty
    def unary(self):
        t = self.tok; line = t.line
        if t.t == "p":
            if t.v in ("!", "-", "+", "~", "&", "*"):
                self.next(); return N("un", line, op=t.v, e=self.unary())
            if t.v in ("++", "--"):
                self.next(); return N("pre", line, op=t.v, e=self.unary())
            if t.v == "(" and self.is_type(self.peek()):
                self.next(); ty = self.typename(); self.exp(")")
                if self.at("{"):
                    i = self.initializer(); i.ty = ty; return i
                return N("cast", line, ty=ty, e=self.unary())
        if t.t == "id" and t.v == "sizeof":
            self.next()
            if self.at("(") and self.is_type(self.peek()):
                self.next(); ty = self.typename(); self.exp(")")
                return N("sizeof", line, ty=ty, e=None)
            return N("sizeof", line, ty=None, e=self.unary())
        return self.postfix(self.primary())
    def primary(self):
        t = self.tok
        if t.t == "num":
            self.next(); v, suf = t.v
            return N("lit", t.line, v=v, t="float" if isinstance(v, float) else "int", suf=suf)
        if t.t == "str":
            s = ""
            while self.tok.t == "str": s += self.next().v
            return N("lit", t.line, v=s, t="str", suf="")
        if t.t == "char":
            self.next(); return N("lit", t.line, v=ord(t.v), t="int", suf="")
        if t.t == "id":
            self.next()
            if t.v in ("true", "false"): return N("lit", t.line, v=t.v == "true", t="bool", suf="")
            return N("name", t.line, id=t.v)
        if self.acc("("):
            e = self.expr(); self.exp(")"); return e
        self.err()
    def postfix(self, e):
        while True:
            t = self.tok
            if self.acc("."): e = N("mem", t.line, o=e, f=self.ident(), arrow=False)
            elif self.acc("->"): e = N("mem", t.line, o=e, f=self.ident(), arrow=True)
            elif self.acc("["):
                i = self.expr(); self.exp("]"); e = N("idx", t.line, o=e, i=i)
            elif self.acc("("):
                args = []
                while not self.acc(")"):
                    args.append((None, self.expr(1))); self.acc(",")
                e = N("call", t.line, f=e, args=args, targs=None)
            elif t.t == "p" and t.v in ("++", "--"):
                self.next(); e = N("post", t.line, op=t.v, e=e)
            else: return e

def parse(src, defines=(), fname="generated.h"):
    return CParser(preprocess(src, defines), fname).parse()
