"""Zig front end.  Types are parsed as expressions (as in the language itself)."""
import re
from .base import *

class ZigLexer(Lexer):
    puncts = ["<<|=","<<=",">>=","+%=","-%=","*%=","+|=","-|=","*|=","...","..",".*",".?","=>","==","!=","<=",">=","+=","-=","*=","/=","%=","&=","|=","^=",
              "<<|","<<",">>","++","**","+%","-%","*%","+|","-|","*|","||",
              "+","-","*","/","%","&","|","^","~","!","<",">","=","?",":",";",",",".","(",")","[","]","{","}"]
    block_comments = False
    def special(self, i):
        s = self.src
        if s[i] == "@":
            if s.startswith('@"', i):
                j = s.index('"', i + 2); return ("id", s[i+2:j], j + 1)
            m = IDENT.match(s, i + 1); return ("builtin", m.group(), m.end())
        m = re.compile(r"(\d[\d_]*)(?=\.\.)").match(s, i)
        if m: return ("num", (int(m.group(1).replace("_", "")), ""), m.end())
        if s.startswith("\\\\", i):
            j = s.find("\n", i); j = len(s) if j < 0 else j
            return ("mstr", s[i+2:j], j)

class ZigParser(Parser):
    lexer = ZigLexer
    binops = {"or":(2,0),"and":(3,0),"==":(4,0),"!=":(4,0),"<":(4,0),">":(4,0),"<=":(4,0),">=":(4,0),
              "&":(5,0),"^":(5,0),"|":(5,0),"<<":(6,0),">>":(6,0),"<<|":(6,0),"+":(7,0),"-":(7,0),"++":(7,0),"+%":(7,0),"-%":(7,0),"+|":(7,0),"-|":(7,0),
              "*":(8,0),"/":(8,0),"%":(8,0),"**":(8,0),"*%":(8,0),"*|":(8,0),"||":(8,0)}
    assign_ops = Parser.assign_ops | {"+%=","-%=","*%=","+|=","-|=","*|="}
    def parse(self):
        return self.members(lambda: self.tok.t == "eof")["decls"]
    def members(self, end):
        decls = []; fields = []; inits = {}
        while not end():
            if self.acc(";"): continue
            t = self.tok; line = t.line
            if self.at("comptime") and self.peek().v == "{":
                self.next(); b = self.block(); decls.append(N("comptime", line, body=b)); continue
            if self.at("test"):
                self.next()
                if self.tok.t in ("str", "id") : self.next()
                self.block(); continue
            if self.at("usingnamespace"): self.next(); self.expr(); self.exp(";"); continue
            self.acc("pub"); 
            while self.atany("export", "extern", "inline", "noinline", "threadlocal"): self.next()
            if self.atany("const", "var"):
                k = self.next().v; n = self.ident(); ty = self.expr(9) if self.acc(":") else None
                self.align(); e = self.expr() if self.acc("=") else None
                self.exp(";")
                if e is not None and e.k == "container": e.name = n
                decls.append(N("var", line, name=n, ty=ty, init=e, const=k == "const")); continue
            if self.at("fn"): decls.append(self.fn()); continue
            # container field
            self.acc("comptime")
            n = self.ident(); ty = self.expr(9) if self.acc(":") else None
            self.align(); e = self.expr() if self.acc("=") else None
            fields.append((n, ty)); inits[n] = e
            if not self.acc(","):
                if not end(): self.err("field")
        return dict(decls=decls, fields=fields, inits=inits)
    def align(self):
        if self.at("align") : self.next(); self.exp("("); self.expr(); self.exp(")")
    def fn(self):
        line = self.exp("fn").line; n = self.ident() if self.tok.t == "id" else None
        ps = self.params(); ret = self.rettype()
        body = self.block() if self.at("{") else (self.exp(";") and None)
        return N("fn", line, name=n, params=[(a, b) for a, b, c in ps], ptypes=ps, ret=ret, body=body, cls=None, static=False)
    def params(self):
        self.exp("("); ps = []
        while not self.acc(")"):
            ct = self.acc("comptime") or self.acc("noalias")
            if self.acc("..."): continue
            n = None
            if self.tok.t == "id" and self.peek().v == ":": n = self.next().v; self.next()
            if self.at("anytype"): ln = self.next().line; ty = N("name", ln, id="anytype")
            else: ty = self.expr(9)
            ps.append((n, ty, ct)); self.acc(",")
        return ps
    def rettype(self):
        self.no_struct += 1
        try:
            line = self.tok.line
            if self.at("!"):
                self.next(); return N("errunion", line, e=self.expr(9))
            e = self.expr(9)
            return e
        finally: self.no_struct -= 1
    def container(self):
        line = self.tok.line
        while self.atany("packed", "extern"): self.next()
        k = self.next().v; tag = None
        if self.acc("("):
            if self.at("enum"):
                self.next(); tag = N("name", line, id="enum")
                if self.acc("("): self.expr(); self.exp(")")
            else: tag = self.expr()
            self.exp(")")
        self.exp("{"); save = self.no_struct; self.no_struct = 0
        m = self.members(lambda: self.at("}")); self.exp("}"); self.no_struct = save
        return N("container", line, kind=k, tag=tag, name=None, **m)
    # ---- statements
    def block(self, label=None):
        line = self.exp("{").line; b = []; save = self.no_struct; self.no_struct = 0
        while not self.acc("}"): b.extend(self.stmt())
        self.no_struct = save
        return N("zblock", line, body=b, label=label)
    def capture(self):
        if not self.acc("|"): return None
        cs = []
        while not self.acc("|"):
            ref = self.acc("*"); cs.append((self.ident(), ref)); self.acc(",")
        return cs
    def branch(self):
        """statement or block body of if/for/while/else"""
        if self.at("{"): return self.block()
        if self.tok.t == "id" and self.peek().v == ":" and self.peek(2).v == "{":
            l = self.next().v; self.next(); return self.block(l)
        return self.assignexpr()
    def assignexpr(self):
        e = self.expr()
        if self.tok.t == "p" and self.tok.v in self.assign_ops:
            line = self.tok.line; op = self.next().v
            return N("asg", line, op=op, l=e, r=self.expr())
        return e
    def stmt(self):
        t = self.tok; line = t.line
        if self.acc(";"): return []
        if self.at("comptime") and self.peek().v in ("const", "var"): self.next()
        if self.atany("const", "var"):
            k = self.next().v; n = self.ident()
            if self.at(","): self.err("destructuring")
            ty = self.expr(9) if self.acc(":") else None
            self.align(); self.exp("="); e = self.expr(); self.exp(";")
            if e.k == "container": e.name = n
            return [N("var", line, name=n, ty=ty, init=e, const=k == "const")]
        if self.atany("defer", "errdefer"):
            k = self.next().v; cap = self.capture(); b = self.branch(); self.acc(";")
            return [N("defer", line, body=b, err=k == "errdefer", cap=cap)]
        if self.atany("suspend", "nosuspend"): self.next(); return self.stmt()
        blocky = self.at("{") or self.atany("if", "for", "while", "switch", "inline") or (self.at("comptime") and self.peek().v in ("{", "if", "for", "while", "switch")) or \
            (t.t == "id" and self.peek().v == ":" and self.peek(2).v in ("{", "while", "for", "inline", "switch"))
        if blocky:
            ct = self.acc("comptime")
            e = self.primary()
            if e.k in ("zif", "zwhile", "zfor"): 
                self.acc(";"); return [N("expr", line, e=e)]
            if self.at(";") : self.next(); return [N("expr", line, e=e)]
            if self.tok.t == "p" and self.tok.v in (".", "[", ".*", "=") :
                pass
            else: return [N("expr", line, e=e)]
            self.err("expression statement")
        e = self.assignexpr(); self.exp(";")
        return [N("expr", line, e=e)]
    # ---- expressions
    def special_infix(self, left, minprec):
        line = self.tok.line
        if minprec <= 6 and self.tok.t == "id" and self.tok.v in ("catch", "orelse"):
            k = self.next().v; cap = self.capture() if k == "catch" else None
            rhs = self.expr(7) if not self.atany("return", "break", "continue", "{") else self.primary()
            return N("zcatch" if k == "catch" else "zorelse", line, e=left, cap=cap, rhs=rhs)
        if minprec <= 9 and self.at("!") and self.tok.t == "p" and left.k in ("name", "mem", "container"):
            self.next(); return N("errunion", line, e=self.expr(9), errs=left)
        return None
    def unary(self):
        t = self.tok; line = t.line
        if t.t == "p":
            if t.v == "!": self.next(); return N("un", line, op="!", e=self.unary())
            if t.v in ("-", "~", "&", "-%"): self.next(); return N("un", line, op=t.v, e=self.unary())
            if t.v == "?": self.next(); return N("opttype", line, e=self.unary())
            if t.v in ("*", "**"):
                self.next()
                while self.atany("const", "volatile", "allowzero"): self.next()
                e = self.unary()
                return N("ptrtype", line, e=e)
            if t.v == "[":
                self.next()
                if self.acc("]"):
                    while self.atany("const", "volatile", "allowzero"): self.next()
                    return N("slicetype", line, e=self.unary())
                if self.acc("*"):
                    if self.acc(":"): self.expr()
                    self.exp("]")
                    while self.atany("const", "volatile"): self.next()
                    return N("slicetype", line, e=self.unary(), many=True)
                if self.at(":"):
                    self.next(); self.expr(); self.exp("]")
                    while self.atany("const", "volatile"): self.next()
                    return N("slicetype", line, e=self.unary())
                n = None
                if self.at("_") and self.peek().v in ("]", ":"): self.next()
                else: n = self.expr()
                if self.acc(":"): self.expr()
                self.exp("]"); save = self.no_struct; self.no_struct = 1
                el = self.unary()
                self.no_struct = save
                e = N("arrtype", line, n=n, e=el)
                if self.at("{") and not self.no_struct: return self.postfix(self.init(e))
                return e
        if t.t == "id":
            if t.v == "try": self.next(); return N("try", line, e=self.unary())
            if t.v == "comptime": self.next(); return self.block() if self.at("{") else self.unary()
            if t.v == "await": self.next(); return self.unary()
        return self.postfix(self.primary())
    def init(self, ty):
        line = self.exp("{").line; fs = []; es = []; save = self.no_struct; self.no_struct = 0
        while not self.acc("}"):
            if self.at(".") and self.peek().t == "id" and self.peek(2).v == "=" :
                self.next(); f = self.ident(); self.exp("="); fs.append((f, self.expr()))
            else: es.append(self.expr())
            self.acc(",")
        self.no_struct = save
        if es: return N("alit", line, ty=ty, elems=es)
        return N("slit", line, ty=ty, fields=fs)
    def primary(self):
        t = self.tok; line = t.line
        if t.t == "num":
            self.next(); return N("lit", line, v=t.v[0], t="float" if isinstance(t.v[0], float) else "int", suf="")
        if t.t == "str": self.next(); return N("lit", line, v=t.v, t="str", suf="")
        if t.t == "mstr":
            ls = []
            while self.tok.t == "mstr": ls.append(self.next().v)
            return N("lit", line, v="\n".join(ls), t="str", suf="")
        if t.t == "char": self.next(); return N("lit", line, v=ord(t.v), t="int", suf="")
        if t.t == "builtin":
            self.next(); return N("builtin", line, name=t.v, args=self.args() if self.at("(") else [])
        if t.v == "(" and t.t == "p":
            self.next(); save = self.no_struct; self.no_struct = 0
            e = self.expr(); self.exp(")"); self.no_struct = save; return e
        if t.v == "{" and t.t == "p": return self.block()
        if t.v == "." and t.t == "p":
            self.next()
            if self.at("{"): return self.init(None)
            return N("dotlit", line, id=self.ident())
        if t.t == "id":
            v = t.v
            if self.peek().v == ":" and self.peek(2).v in ("{", "while", "for", "inline", "switch"):
                self.next(); self.next()
                if self.at("{"): return self.block(v)
                e = self.primary(); e.label = v; return e
            if v in ("true", "false"): self.next(); return N("lit", line, v=v == "true", t="bool", suf="")
            if v == "null": self.next(); return N("lit", line, v=None, t="null", suf="")
            if v == "undefined": self.next(); return N("lit", line, v=None, t="undef", suf="")
            if v == "unreachable": self.next(); return N("unreach", line)
            if v in ("struct", "enum", "union", "opaque", "packed") or (v == "extern" and self.peek().v in ("struct", "union")): return self.container()
            if v == "error":
                self.next()
                if self.at("{"):
                    self.next(); ns = []
                    while not self.acc("}"): ns.append(self.ident()); self.acc(",")
                    return N("errset", line, names=ns)
                self.exp("."); return N("errval", line, id=self.ident())
            if v == "fn":
                self.next(); self.params(); self.rettype(); return N("fntype", line)
            if v == "inline": self.next(); e = self.primary(); e.inl = True; return e
            if v == "if":
                self.next(); self.exp("("); save = self.no_struct; self.no_struct = 0; c = self.expr(); self.exp(")"); self.no_struct = save
                cap = self.capture(); a = self.branch(); b = ecap = None
                if self.at(";") and self.peek().v == "else": self.next()
                if self.acc("else"): ecap = self.capture(); b = self.branch()
                return N("zif", line, c=c, cap=cap, a=a, b=b, ecap=ecap)
            if v == "while":
                self.next(); self.exp("("); save = self.no_struct; self.no_struct = 0; c = self.expr(); self.exp(")"); self.no_struct = save
                cap = self.capture(); st = None
                if self.acc(":"):
                    self.exp("(")
                    st = self.block() if self.at("{") else self.assignexpr()
                    self.exp(")")
                b = self.branch(); els = None
                if self.acc("else"): self.capture(); els = self.branch()
                return N("zwhile", line, c=c, cap=cap, step=st, body=b, els=els)
            if v == "for":
                self.next(); self.exp("("); its = []; save = self.no_struct; self.no_struct = 0
                while not self.acc(")"):
                    e = self.expr()
                    if self.acc(".."):
                        hi = None
                        if not self.atany(")", ","): hi = self.expr()
                        e = N("rangex", line, lo=e, hi=hi, incl=False)
                    its.append(e); self.acc(",")
                self.no_struct = save
                cap = self.capture(); b = self.branch(); els = None
                if self.acc("else"): els = self.branch()
                return N("zfor", line, iters=its, caps=cap, body=b, els=els)
            if v == "switch":
                self.next(); self.exp("("); save = self.no_struct; self.no_struct = 0; e = self.expr(); self.exp(")"); self.exp("{"); arms = []
                while not self.acc("}"):
                    inl = self.acc("inline"); pats = []
                    if self.acc("else"): pats = [None]
                    else:
                        while not self.at("=>"):
                            p = self.expr()
                            if self.acc("..."): p = N("rangex", line, lo=p, hi=self.expr(), incl=True)
                            pats.append(p); self.acc(",")
                    self.exp("=>"); cap = self.capture(); b = self.branch(); self.acc(",")
                    arms.append((pats, cap, b, inl))
                self.no_struct = save
                return N("zswitch", line, e=e, arms=arms)
            if v == "return":
                self.next(); e = None
                if not self.atany(";", "}", ",", ")"): e = self.expr()
                return N("retx", line, e=e)
            if v in ("break", "continue"):
                self.next(); l = None; e = None
                if self.acc(":"): l = self.ident()
                if v == "break" and not self.atany(";", "}", ",", ")"): e = self.expr()
                return N("brkx" if v == "break" else "contx", line, label=l, e=e)
            self.next(); return N("name", line, id=v)
        self.err()
    def args(self):
        self.exp("("); out = []; save = self.no_struct; self.no_struct = 0
        while not self.acc(")"):
            out.append((None, self.expr())); self.acc(",")
        self.no_struct = save
        return out
    def postfix(self, e):
        while True:
            t = self.tok; line = t.line
            if t.t != "p": return e
            if t.v == ".*": self.next(); e = N("un", line, op="*", e=e)
            elif t.v == ".?": self.next(); e = N("unwrap", line, e=e)
            elif t.v == ".":
                self.next()
                if self.at("{"): self.err()
                e = N("mem", line, o=e, f=self.ident())
            elif t.v == "(": e = N("call", line, f=e, args=self.args(), targs=None)
            elif t.v == "[":
                self.next(); save = self.no_struct; self.no_struct = 0
                i = self.expr()
                if self.acc(".."):
                    hi = None
                    if not self.atany("]", ":"): hi = self.expr()
                    if self.acc(":"): self.expr()
                    self.exp("]"); e = N("slice", line, o=e, lo=i, hi=hi, incl=False)
                else:
                    self.exp("]"); e = N("idx", line, o=e, i=i)
                self.no_struct = save
            elif t.v == "{" and not self.no_struct and e.k in ("name", "mem", "call") and not (e.k == "call"):
                e = self.init(e)
            elif t.v == "{" and not self.no_struct and e.k in ("builtin", "call") and (getattr(e, "name", "") in ("This", "TypeOf")):
                e = self.init(e)
            else: return e

def parse(src, fname="generated.zig"):
    return ZigParser(src, fname).parse()
