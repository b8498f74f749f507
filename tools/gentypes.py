#!/usr/bin/env python3
"""Writes sim/cmd/sim/types_gen.go: random destination types, drawn once with a fixed seed."""
import random, os
R = random.Random(20240601)

SCAL = ["bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "float32", "float64", "string"]
NAMED = ["NB", "NI", "NI8", "NU8", "NU16", "NF", "NS"]    # named scalars
NCONT = ["NSl", "NSS", "NM", "NMS", "NA", "NAny"]        # named containers
CB = ["UJ", "UT", "UI", "US", "UB", "UX", "UE", "UV", "UL"]
KEYS = ["string", "string", "string", "NS", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "NI", "NI8"]
CBKEYS = ["UK", "US", "UKB", "UX"]
NAMES = ["A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "S", "X", "Y", "Z", "ID", "Id", "Name", "NameX", "NamE", "Val", "Value", "Items", "Kids", "Next", "Prev", "Map", "List", "Ünï", "LongFieldNameNumber1", "LongFieldNameNumber2"]
TAGS = ["a", "aa", "ab", "id", "ID", "name", "naïve", "日本", "with space", "k", "s", "x-y", "x_y", "$", "value", "vAlue", "1", "list", "m", "ſ", "longfieldnamenumber"]

class G:
    def __init__(self, cb, group):
        self.cb, self.group, self.number = cb, group, False
    def scalar(self):
        x = R.random()
        if x < .08: self.number = True; return "jscandec.Number"
        if x < .22: return R.choice(NAMED)
        return R.choice(SCAL)
    def leaf(self):
        x = R.random()
        if self.cb and x < .35: return R.choice(CB)
        x = R.random()
        if x < .12: return "any"
        if x < .14: return "struct{}"
        if x < .16: return R.choice(["Z0", "Z1", "Z2", "HideA", "HideB"])
        if x < .23: return "Point"
        if x < .33: return R.choice(NCONT)
        return self.scalar()
    def key(self):
        if self.cb and R.random() < .3: return R.choice(CBKEYS)
        return R.choice(KEYS)
    def type(self, d, rec=True):
        if rec and self.group and R.random() < .3:
            t = R.choice(self.group)
            return R.choice(["*%s", "*%s", "[]%s", "[]%s", "map[string]%s", "[]*%s", "map[string]*%s", "[][]%s", "[2]*%s", "*[]%s", "map[int]%s", "**%s", "[1][]%s", "map[string][]%s", "[]map[string]%s", "*map[string]%s"]) % t
        x = R.random()
        if d <= 0 or x < .34: return self.leaf()
        if x < .35: return "[]byte"
        if x < .52: return "[]" + self.type(d - 1, rec)
        if x < .62: return "[%d]" % R.choice([0, 1, 2, 2, 3, 5]) + self.type(d - 1, rec)
        if x < .78: return "map[%s]%s" % (self.key(), self.type(d - 1, rec))
        if x < .91: return "*" + self.type(d - 1, rec)
        return self.struct(d - 1, rec, R.randint(1, 4))
    def struct(self, d, rec, n):
        names = R.sample(NAMES, n)
        used, lines = set(), []
        for nm in names:
            t = self.type(d, rec)
            name, tag = nm, ""
            x = R.random()
            if x < .3:
                free = [g for g in TAGS if g not in used] if R.random() < .93 else TAGS
                name = R.choice(free)
                tag = name
                if R.random() < .2: tag += ",omitempty"
            elif x < .34: tag = "-"
            elif x < .36: name, tag = "-", "-,"
            elif x < .38: tag = "bad\\\\name"
            elif x < .41: nm = nm[0].lower() + nm[1:] + "_"; t = t
            if R.random() < .25 and tag != "-" and not nm.endswith("_") and "Number" not in t and not t.startswith("*") and t not in CB:
                tag += ",string"
            used.add(name)
            if tag and tag.startswith("bad"):
                lines.append("%s %s \"json:\\\"%s\\\"\"" % (nm, t, tag.replace("\\\\", "\\\\\\\\")))
            elif tag: lines.append("%s %s `json:\"%s\"`" % (nm, t, tag))
            else: lines.append("%s %s" % (nm, t))
        return "struct{\n" + "\n".join(lines) + "\n}"

decl, regs = [], []
def twin(s, names):
    s = s.replace("jscandec.Number", "json.Number")
    for n in sorted(names, key=len, reverse=True):
        s = s.replace(n + "E", n + "\0") if False else s
    import re
    for n in names:
        s = re.sub(r"\b%s\b" % n, n + "E", s)
    return s

N = 0
def emit(cb, rec):
    global N
    k = R.choice([1, 1, 2, 2, 3]) if rec else 1
    group = []
    for _ in range(k):
        N += 1
        group.append("G%03d" % N)
    g = G(cb, group if rec else [])
    src = {}
    for n in group:
        if rec: src[n] = g.struct(2 if k < 3 else 1, True, R.randint(2, 5))
        elif R.random() < .55: src[n] = g.struct(3, False, R.choice([1, 2, 3, 4, 5, 6, 9, 12]))
        else:
            while True:
                t = g.type(4, False)
                if t[0] in "[m*" and not (t[0] == "*" and t[1:] in CB): break
            src[n] = t
    for n in group: decl.append("type %s %s\n" % (n, src[n]))
    if g.number:
        for n in group: decl.append("type %sE %s\n" % (n, twin(src[n], group)))
    for n in group[:2]:
        if g.number: regs.append("regO[*%s, *%sE](\"*%s\")" % (n, n, n))
        else: regs.append("reg[*%s](\"*%s\")" % (n, n))

for _ in range(60): emit(False, False)
for _ in range(35): emit(False, True)
for _ in range(40): emit(True, False)
for _ in range(25): emit(True, True)

# Types of unusual size.
def wide(n, mk):
    decl.append("type %s struct {\n%s\n}\n" % (n, "\n".join(mk)))
    regs.append("reg[*%s](\"*%s\")" % (n, n))
SC = ["int", "string", "bool", "int8", "uint16", "float64", "*int", "[]int8", "any", "map[string]int", "uint8", "*string"]
wide("W70", ["F%d %s `json:\"f%d\"`" % (i, SC[i * 7 % len(SC)], i) for i in range(70)])
wide("W66", ["F%d %s" % (i, SC[i * 5 % len(SC)]) for i in range(48)] + ["%s %s" % (n, SC[i % len(SC)]) for i, n in enumerate(["Key", "KEY", "KeY", "Sos", "SOS", "SoS", "Name", "NaMe", "NAME"])] + ["K%d int `json:\"%s\"`" % (i, n) for i, n in enumerate(["key", "\u212aey", "sos", "\u017fos", "name", "Ünï", "ünï", "ǆ", "ǅ"])])
wide("W300", ["F%d %s" % (i, ["int16", "string", "bool"][i % 3]) for i in range(300)])
wide("WNest", ["F%d struct { %s }" % (i, "; ".join("X%d %s" % (j, ["int8", "string", "[]uint8", "*bool"][(i + j) % 4]) for j in range(14))) for i in range(19)] + ["Last []CB1", "Rec []WNest", "Any any"])
wide("WLong", ["F%d %s `json:\"%s\"`" % (i, SC[i % 4], n) for i, n in enumerate(["p" * 300, "p" * 299 + "q", "P" * 300 + "x", "abcdefgh1", "abcdefgh2", "abcdefghijklmnop1", "abcdefghijklmnop2", "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz0123456789-ab1", "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz0123456789-ab2", "x" * 255, "x" * 256, "x" * 257, "y" * 64, "y" * 63, "y" * 65])] + ["Next *WLong"])
for t in ["[300]int16", "[257]struct{}", "[][129]bool", "[][][][][][][][][][]int", "map[string]map[string]map[string]map[string]map[string]map[string]string", "*******int", "[]*[]*[]*[]*string", "[2][2][2][2][2]uint8", "[][700]byte"]:
    regs.append("reg[%s](\"%s\")" % (t, t))

out = ["// Code generated by tools/gentypes.py; DO NOT EDIT.\n", "package main\n", "import (\n\"encoding/json\"\n\njscandec \"github.com/romshark/jscan-experimental-decoder\"\n)\n", "var _ json.Number\nvar _ jscandec.Number\n"]
out += decl
out += ["func init() {\n", "\n".join(regs), "\n}\n"]
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../sim/cmd/sim/types_gen.go")
open(p, "w").write("\n".join(out))
os.system("/usr/lib/go-1.21/bin/gofmt -w " + p)
