"""Independent description of protocols (the oracle side) and the protocol family the generated sources are analysed for.

Nothing here imports beschi: sizes, storage types, tags, defaults and the wire layout come from docs/protocols.md."""

NUM = {"byte":(1,"u"),"bool":(1,"b"),"uint16":(2,"u"),"int16":(2,"s"),"uint32":(4,"u"),"int32":(4,"s"),
       "uint64":(8,"u"),"int64":(8,"s"),"float":(4,"f"),"double":(8,"f")}
SIZE_TYPES = ["byte","uint16","int16","uint32","int32","uint64","int64"]
RANGE = {"byte":(0,255),"int16":(-2**15,2**15-1),"uint16":(0,2**16-1),"int32":(-2**31,2**31-1),"uint32":(0,2**32-1),
         "int64":(-2**63,2**63-1),"uint64":(0,2**64-1),"bool":(0,1)}

class Schema:
    def __init__(self, name, ns="App", list_size=None, string_size=None, enums=(), structs=(), messages=(), note=""):
        self.name = name; self.ns = ns; self.ls = list_size; self.ss = string_size; self.note = note
        self.enums = {}; self.enum_decl = {}
        for n, vals in enums:
            self.enum_decl[n] = vals
            self.enums[n] = [(v, i) if isinstance(v, str) else v for i, v in enumerate(vals)]
        self.structs = dict(structs); self.messages = dict(messages)
    list_size = property(lambda s: s.ls or "uint32")
    string_size = property(lambda s: s.ss or "uint32")
    # --- derived facts, straight from the documentation
    def storage(self, e):
        vs = [v for _, v in self.enums[e]]
        for t in ("byte", "int16", "int32"):
            lo, hi = RANGE[t]
            if min(vs) >= lo and max(vs) <= hi: return t
    def kind(self, ty):
        """('num',type) ('str',) ('enum',e) ('struct',s) ('list',kind)"""
        if ty.startswith("["): return ("list", self.kind(ty[1:-1]))
        if ty in NUM: return ("num", ty)
        if ty == "string": return ("str",)
        if ty in self.enums: return ("enum", ty)
        return ("struct", ty)
    def members(self, t):
        d = self.structs.get(t)
        if d is None: d = self.messages[t]
        return [(n, self.kind(k)) for n, k in d]
    def is_simple(self, t):
        for n, k in self.members(t):
            if k[0] in ("list", "str"): return False
            if k[0] == "struct" and not self.is_simple(k[1]): return False
        return True
    def fixed_size(self, k):
        """bytes of a kind whose size does not vary, else None"""
        if k[0] == "num": return NUM[k[1]][0]
        if k[0] == "enum": return NUM[self.storage(k[1])][0]
        if k[0] in ("str", "list"): return None
        tot = 0
        for n, m in self.members(k[1]):
            s = self.fixed_size(m)
            if s is None: return None
            tot += s
        return tot
    def min_size(self, k):
        if k[0] == "str": return NUM[self.string_size][0]
        if k[0] == "list": return NUM[self.list_size][0]
        if k[0] == "struct": return sum(self.min_size(m) for n, m in self.members(k[1]))
        return self.fixed_size(k)
    def tag(self, m): return list(self.messages).index(m) + 1
    def toml(self):
        o = []
        if self.ns or self.ls or self.ss:
            o.append("[meta]")
            if self.ns: o.append('namespace = "%s"' % self.ns)
            if self.ls: o.append('list_size_type = "%s"' % self.ls)
            if self.ss: o.append('string_size_type = "%s"' % self.ss)
        for n, vals in self.enum_decl.items():
            o.append("[[enums]]"); o.append('_name = "%s"' % n)
            o.append("_values = [" + ", ".join('"%s"' % v if isinstance(v, str) else '{_name="%s",_value=%d}' % v for v in vals) + "]")
        for sec, d in (("structs", self.structs), ("messages", self.messages)):
            for n, ms in d.items():
                o.append("[[%s]]" % sec); o.append('_name = "%s"' % n)
                for m, t in ms: o.append('%s = "%s"' % (m, t))
        return "\n".join(o) + "\n"

NUMS = [("b","byte"),("f","bool"),("u16","uint16"),("i16","int16"),("u32","uint32"),("i32","int32"),("u64","uint64"),("i64","int64"),("fl","float"),("db","double")]
ENUMS = [("Colour", ["Red","Green","Blue"]), ("Spec", [("Neg",-3),("Lrg",4000)]), ("Wide", [("Bottom",-70000),("Mid",5),("Top",2000000)]),
         ("Sparse", [("Late",200),("Early",3),("Half",100)])]
CORE = Schema("core", enums=ENUMS, structs=[
        ("Pair", [("x","float"),("y","double")]),
        ("Mix", [("kind","Colour"),("big","int64"),("pr","Pair"),("on","bool"),("dw","Wide")]),
        ("Named", [("title","string"),("pos","Pair"),("hue","Colour")]),
        ("Deep", [("tags","[string]"),("mixes","[Mix]"),("inner","Named"),("many","[Named]"),("nums","[uint16]"),("cs","[Spec]")]),
    ], messages=[
        ("Nothing", []),
        ("Numbers", [("amount_"+n if n in ("b","f") else "v"+n.upper(), t) for n, t in NUMS]),
        ("Simple", [("pr","Pair"),("mx","Mix"),("c","Colour"),("s","Spec"),("w","Wide"),("z","Sparse"),("t","byte")]),
        ("Text", [("first","string"),("second","string"),("names","[string]"),("n","uint16")]),
        ("Lists", [("l"+n.upper(), "[%s]" % t) for n, t in NUMS] + [("cols","[Colour]"),("specs","[Spec]"),("wides","[Wide]"),("sparses","[Sparse]"),("prs","[Pair]"),("mxs","[Mix]")]),
        ("Tree", [("d","Deep"),("nm","Named"),("ds","[Deep]"),("nms","[Named]"),("last","int32")]),
    ])
SMALL = dict(enums=[("Kind", ["A","B"])], structs=[("Inner", [("label","string"),("vals","[int16]")]), ("Pt", [("x","int32"),("k","Kind")])],
     messages=[("Msg", [("txt","string"),("txts","[string]"),("nums","[uint32]"),("ins","[Inner]"),("pts","[Pt]"),("one","Inner")]), ("Fix", [("a","byte"),("p","Pt")])])
def sized(l, s): return Schema("sz_%s_%s" % (l, s), list_size=l, string_size=s, **SMALL)
NOMETA = Schema("nometa", ns=None, **SMALL)
E256 = Schema("e256", enums=[("Full", ["v%d" % i for i in range(256)]), ("Over", ["w%d" % i for i in range(257)]), ("One", [("Only", 7)]),
                             ("Down", [("Hi",9),("Lo",-9)])],
     messages=[("M", [("f","Full"),("o","Over"),("n","One"),("d","Down"),("fs","[Full]"),("ds","[Down]")])])
EMPTYS = Schema("empties", structs=[("Void", []), ("Hold", [("v","Void"),("n","byte"),("vs","[Void]")])],
     messages=[("Alone", []), ("HasVoid", [("v","Void"),("h","Hold")]), ("OnlyVoid", [("v","Void")])])
MANY = Schema("many", messages=[("M%d" % i, [("x", ["byte","int16","string","[byte]"][i % 4])] if i % 5 else []) for i in range(255)])
NAMES = Schema("names", enums=[("my_enum", ["first_one","SecondOne"])],
     structs=[("snake_struct", [("camelCase","byte"),("snake_case","int16"),("PascalCase","string"),("with9digit","[byte]")])],
     messages=[("lowerMsg", [("ID","byte"),("userId","[string]"),("x1","snake_struct"),("HTTPServer","my_enum"),("ss","[snake_struct]")]), ("UPPER", [("a","my_enum")])])
ONEMSG = Schema("one", messages=[("Only", [("x","byte")])])
SIMPLEONLY = Schema("simpleonly", structs=[("P", [("x","float")])], messages=[("A", [("p","P")]),("B", [("n","uint64")])])
NEST = Schema("nest", enums=[("Kind", ["A","B","C"]), ("Gap", [("Neg",-3),("Far",4000)])],
     structs=[("In", [("k","Kind"),("b","byte")]), ("Mid", [("n","In"),("x","int16")]), ("Out", [("m","Mid"),("u","uint32")]),
              ("SMid", [("o","Out"),("ms","[Mid]"),("g","Gap")]), ("Top", [("s","SMid"),("ss","[SMid]"),("t","string")])],
     messages=[("Enclosing", [("o","Out")]), ("ListOf", [("os","[Out]"),("x","byte")]), ("Var", [("t","Top"),("ts","[Top]")])])
WIDE = Schema("wide", structs=[("Row", [("c%d" % i, ["uint64","double","int32","string","byte"][i % 5]) for i in range(15)]), ("Grid", [("g%d" % i, "double") for i in range(40)])],
     messages=[("Sheet", [("rows","[Row]"),("head","Row"),("grid","Grid"),("grids","[Grid]")]), ("Long", [("m%d" % i, ["int16","[byte]","float","string","[string]","bool"][i % 6]) for i in range(18)])])
TEMPS = ["reader","size","el","i","len","buffer","offset","data","result","err","tag","value","self_","msg","list","local_offset","idx","br","bw","writer","out","output","input","dr","dv","da","n","s","allocator","item"]
