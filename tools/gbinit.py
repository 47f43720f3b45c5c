#!/usr/bin/env python3
"""Rewrites a CBMC goto binary so that uninitialised data is zero instead of unknown.

    gbinit.py CBMC ARGS...

(runs CBMC with the rewritten goto binary of ARGS).

Every local variable whose type contains a union (that is how Kani lays out Rust enums) is assigned
zero right after its declaration. Safe Rust never reads uninitialised memory, so the set of
behaviours stays the same. What changes is that the discriminant of an enum stays a constant
during the symbolic execution when the program assigned a constant to it: otherwise the enum is a
mix of unknown bytes and constants, and the two arms of every `?` are explored. Functions that
produce solver-chosen values (kani::any) are left alone.
"""
import sys


class Reader:
    def __init__(self, data):
        self.d = data
        self.p = 0
        self.strings = {}
        self.ireps = {}

    def word(self):
        d, p = self.d, self.p
        shift = v = 0
        while True:
            b = d[p]
            p += 1
            v |= (b & 0x7F) << shift
            shift += 7
            if b < 0x80:
                break
        self.p = p
        return v

    def raw_string(self):
        d, p = self.d, self.p
        e = d.index(0, p)
        s = d[p:e]
        if b"\\" in s:
            out = bytearray()
            while d[p] != 0:
                if d[p] == 0x5C:
                    p += 1
                out.append(d[p])
                p += 1
            e, s = p, bytes(out)
        self.p = e + 1
        return s

    def sref(self):
        n = self.word()
        s = self.strings.get(n)
        if s is None:
            s = self.strings[n] = self.raw_string()
        return s

    def irep(self):
        n = self.word()
        i = self.ireps.get(n)
        if i is not None:
            return i
        i = self.ireps[n] = Irep(self.sref(), [], [])
        while True:
            t = self.d[self.p]
            self.p += 1
            if t == 0x53:
                i.sub.append(self.irep())
            elif t == 0x4E or t == 0x43:
                k = self.sref()
                i.named.append((k, self.irep(), t))
            elif t == 0:
                return i
            else:
                raise ValueError("bad irep")


class Irep:
    __slots__ = ("id", "sub", "named", "key")

    def __init__(self, id, sub, named):
        self.id = id
        self.sub = sub
        self.named = named
        self.key = None

    def get(self, k):
        for n, v, _ in self.named:
            if n == k:
                return v
        return None


class Writer:
    def __init__(self):
        self.o = bytearray()
        self.strings = {}
        self.ireps = {}

    def word(self, v):
        while v > 0x7F:
            self.o.append((v & 0x7F) | 0x80)
            v >>= 7
        self.o.append(v)

    def raw_string(self, s):
        if b"\\" in s:
            s = s.replace(b"\\", b"\\\\")
        self.o += s
        self.o.append(0)

    def sref(self, s):
        n = self.strings.get(s)
        if n is not None:
            self.word(n)
            return
        n = self.strings[s] = len(self.strings)
        self.word(n)
        self.raw_string(s)

    def irep(self, i):
        n = self.ireps.get(id(i))
        if n is not None:
            self.word(n)
            return
        n = self.ireps[id(i)] = len(self.ireps)
        self.word(n)
        self.sref(i.id)
        for s in i.sub:
            self.o.append(0x53)
            self.irep(s)
        for k, v, t in i.named:
            self.o.append(t)
            self.sref(k)
            self.irep(v)
        self.o.append(0)


def N(k, v):
    return (k, v, 0x4E)


class Transform:
    def __init__(self):
        self.types = {}
        self.zeros = {}
        self.unions = {}
        self.consts = {}
        self.keep = []
        self.assign_type = None
        self.no_target = None
        self.inited = 0

    def resolve(self, t):
        while t.id in (b"struct_tag", b"union_tag"):
            t = self.types[t.get(b"identifier").id]
        return t

    def has_union(self, t):
        r = self.unions.get(id(t))
        if r is not None:
            return r
        self.unions[id(t)] = False
        u = self.resolve(t)
        if u.id == b"union":
            r = True
        elif u.id == b"struct":
            r = any(self.has_union(c.get(b"type")) for c in u.get(b"components").sub)
        elif u.id == b"array":
            r = self.has_union(self.elem(u))
        else:
            r = False
        self.unions[id(t)] = r
        return r

    def elem(self, t):
        return t.sub[0] if t.sub else t.get(b"subtype")

    def width(self, t):
        t = self.resolve(t)
        if t.id == b"struct":
            return sum(self.width(c.get(b"type")) for c in t.get(b"components").sub)
        if t.id == b"union":
            return max([self.width(c.get(b"type")) for c in t.get(b"components").sub] or [0])
        if t.id == b"array":
            n = self.count(t)
            return (n or 0) * self.width(self.elem(t))
        w = t.get(b"width")
        return int(w.id) if w is not None else 0

    def count(self, t):
        s = t.get(b"size")
        if s is None or s.id != b"constant":
            return None
        return int(s.get(b"value").id, 16)

    def constant(self, t, v):
        return Irep(b"constant", [], [N(b"type", t), N(b"value", Irep(v, [], []))])

    def zero(self, t):
        k = id(t)
        if k not in self.zeros:
            self.zeros[k] = None
            self.zeros[k] = self.make_zero(t)
        return self.zeros[k]

    def make_zero(self, t):
        u = self.resolve(t)
        if u.id in (b"unsignedbv", b"signedbv", b"c_bool", b"floatbv"):
            return self.constant(t, b"0")
        if u.id == b"bool":
            return self.constant(t, b"false")
        if u.id == b"pointer":
            return self.constant(t, b"NULL")
        if u.id == b"struct":
            ops = [self.zero(c.get(b"type")) for c in u.get(b"components").sub]
            if any(o is None for o in ops):
                return None
            return Irep(b"struct", ops, [N(b"type", t)])
        if u.id == b"union":
            cs = u.get(b"components").sub
            if not cs:
                return None
            c = max(cs, key=lambda c: self.width(c.get(b"type")))
            z = self.zero(c.get(b"type"))
            if z is None:
                return None
            return Irep(b"union", [z], [N(b"type", t), N(b"component_name", c.get(b"name"))])
        if u.id == b"array":
            n = self.count(u)
            z = self.zero(self.elem(u))
            if n is None or z is None:
                return None
            if n <= 64:
                return Irep(b"array", [z] * n, [N(b"type", t)])
            return Irep(b"array_of", [z], [N(b"type", t)])
        return None


# Larger variables are left alone: they are not results.
MAX_BITS = 512


def skip_function(name):
    return b"any_raw" in name or b"nondet" in name


def run(src, dst):
    r = Reader(open(src, "rb").read())
    if r.d[:4] != b"\x7fGBF":
        raise ValueError("not a goto binary")
    r.p = 4
    w = Writer()
    w.o += b"\x7fGBF"
    version = r.word()
    if version != 6:
        raise ValueError("unknown version %d" % version)
    w.word(version)
    n = r.word()
    syms = []
    t = Transform()
    for _ in range(n):
        s = [r.irep(), r.irep(), r.irep()] + [r.sref() for _ in range(5)] + [r.word(), r.word()]
        syms.append(s)
        if s[0].id in (b"struct", b"union"):
            t.types[s[3]] = s[0]
    w.word(n)
    for s in syms:
        for i in s[:3]:
            w.irep(i)
        for i in s[3:8]:
            w.sref(i)
        w.word(s[8])
        w.word(s[9])
    functions = []
    for _ in range(r.word()):
        name = r.raw_string()
        skip = skip_function(name)
        ins = []
        for _ in range(r.word()):
            code, loc, typ, guard, tn = r.irep(), r.irep(), r.word(), r.irep(), r.word()
            targets = [r.word() for _ in range(r.word())]
            labels = [r.sref() for _ in range(r.word())]
            ins.append((code, loc, typ, guard, tn, targets, labels))
            st = code.get(b"statement")
            if st is not None and st.id == b"decl" and not skip:
                sym = code.sub[0]
                ty = sym.get(b"type")
                if t.has_union(ty) and t.width(ty) <= MAX_BITS:
                    z = t.zero(ty)
                    if z is not None:
                        a = Irep(b"code", [sym, z], [(k, Irep(b"assign", [], []) if k == b"statement" else v, f)
                                                     for k, v, f in code.named])
                        t.keep.append(a)
                        ins.append((a, loc, None, guard, None, [], []))
                        t.inited += 1
            if st is not None and st.id == b"assign":
                t.assign_type = typ
            if t.no_target is None or tn > t.no_target:
                t.no_target = tn
        functions.append((name, ins))
    w.word(len(functions))
    for name, ins in functions:
        w.raw_string(name)
        w.word(len(ins))
        for code, loc, typ, guard, tn, targets, labels in ins:
            w.irep(code)
            w.irep(loc)
            w.word(t.assign_type if typ is None else typ)
            w.irep(guard)
            w.word(t.no_target if tn is None else tn)
            w.word(len(targets))
            for x in targets:
                w.word(x)
            w.word(len(labels))
            for x in labels:
                w.sref(x)
    w.o += r.d[r.p:]
    open(dst, "wb").write(w.o)
    return t


def main():
    """gbinit.py CBMC ARGS...: runs CBMC with the rewritten goto binary in ARGS."""
    import os
    args = sys.argv[1:]
    for n, a in enumerate(args[1:], 1):
        if a.endswith(".out") and os.path.isfile(a):
            sys.setrecursionlimit(100000)
            try:
                run(a, a + ".init")
                args[n] = a + ".init"
            except (ValueError, KeyError, IndexError, AttributeError, TypeError) as e:
                # The program as it is means the same; it is only slower to decide.
                print("gbinit: %r" % e, file=sys.stderr)
    os.execv(args[0], args)


if __name__ == "__main__":
    main()
