"""Generates programs that define types, and an account of their values that does not use the library."""
import json
import os
import random

MAXC = 2**64 - 1


# ---- types: ('leaf', text, count) ('param', i) ('opt', t) ('res', t, u) ('tup', [t..]) ('arr', t, n) ('app', Def, [t..])

def leaf(text, n):
    return ("leaf", text, n)


UNIT, BOOL, NZ, NO, REF = leaf("()", 1), leaf("bool", 2), leaf("Nz", 3), leaf("No", 0), leaf("Ref<'static>", 2)


ALIASES = set()


def el(k):
    # an alias: the derive's parser knows no const arguments
    ALIASES.add(k)
    return leaf("E%d" % k, k)


def text(t, names=()):
    k = t[0]
    if k == "leaf":
        return t[1]
    if k == "param":
        return names[t[1]]
    if k == "assoc":
        return "<%s as Assoc>::Item" % names[t[1]]
    if k == "opt":
        return "Option<%s>" % text(t[1], names)
    if k == "res":
        return "Result<%s, %s>" % (text(t[1], names), text(t[2], names))
    if k == "tup":
        return "(%s,)" % ", ".join(text(x, names) for x in t[1])
    if k == "arr":
        return "[%s; %d]" % (text(t[1], names), t[2])
    if k == "app":
        a = t[1].lts and ["'static"] * len(t[1].lts) or []
        a = a + [text(x, names) for x in t[2]]
        return t[1].path + ("<%s>" % ", ".join(a) if a else "")
    raise ValueError(k)


class TooBig(Exception):
    pass


def _prod(cs):
    p, nz = 1, 1
    for c in cs:
        p *= c
        nz *= max(c, 1)
    if nz > MAXC:
        raise TooBig()
    return p


def _sum(cs):
    s = sum(cs)
    if s > MAXC:
        raise TooBig()
    return s


def count(t, env=()):
    """number of values; TooBig when it or any part of it is beyond 64 bits"""
    k = t[0]
    if k == "leaf":
        return t[2]
    if k == "param":
        return env[t[1]][0]
    if k == "assoc":
        return env[t[1]][1]
    if k == "opt":
        return _sum([1, count(t[1], env)])
    if k == "res":
        return _sum([count(t[1], env), count(t[2], env)])
    if k == "tup":
        return _prod([count(x, env) for x in t[1]])
    if k == "arr":
        return _prod([count(t[1], env)] * t[2])
    if k == "app":
        return t[1].count([(count(x, env), ASSOC.get(x[1] if x[0] == "leaf" else None)) for x in t[2]])
    raise ValueError(k)


ASSOC = {"AssocBool": 2, "AssocTri": 3}


class Def:
    """A derived struct or enum. variants: [(name, shape, [(field, type)], discriminant text)]"""

    def __init__(self, name, kind, variants, params=(), lts=(), where="", bounds=None, attrs="", vis="pub ", path=None, wrap=None, defaults=None):
        self.name, self.kind, self.variants, self.params, self.lts = name, kind, variants, list(params), list(lts)
        self.where, self.bounds, self.attrs, self.vis = where, bounds or {}, attrs, vis
        self.path = path or name
        self.wrap = wrap
        self.defaults = defaults or {}

    def order(self):
        if self.kind == "struct":
            return self.variants
        return [v for v in self.variants if v[1] == "unit"] + [v for v in self.variants if v[1] != "unit"]

    def count(self, env):
        return _sum([_prod([count(t, env) for _, t in v[2]]) for v in self.variants])

    def head(self, bounds, defaults=False, extra=""):
        p = list(self.lts)
        for x in self.params:
            b = [y for y in ((self.bounds.get(x, "") if bounds else ""), extra) if y]
            p.append(x + (": " + " + ".join(b) if b else "") + (" = " + self.defaults[x] if defaults and x in self.defaults else ""))
        return "<%s>" % ", ".join(p) if p else ""

    def body(self, v, vis):
        name, shape, fields, _ = v
        if shape == "unit":
            return ""
        if shape == "tuple":
            return "(%s)" % ", ".join(vis + text(t, self.params) for _, t in fields)
        return " { %s }" % ", ".join("%s%s: %s" % (vis, f, text(t, self.params)) for f, t in fields)

    def definition(self):
        a = "#[derive(Copy, Clone, EnumLike)]\n" + (self.attrs + "\n" if self.attrs else "")
        w = " where " + self.where if self.where else ""
        if self.kind == "struct":
            v = self.variants[0]
            b = self.body(v, self.vis)
            if v[1] == "named" or v[1] == "empty{}":
                s = a + "%sstruct %s%s%s%s" % (self.vis, self.name, self.head(True, True), w, b if v[1] == "named" else " {}")
            else:
                s = a + "%sstruct %s%s%s%s;" % (self.vis, self.name, self.head(True, True), "()" if v[1] == "empty()" else b, w)
        else:
            vs = ["%s%s%s" % (v[0], self.body(v, ""), " = " + v[3] if v[3] else "") for v in self.variants]
            s = a + "%senum %s%s%s { %s }" % (self.vis, self.name, self.head(True, True), w, ", ".join(vs))
        if self.wrap:
            s = self.wrap(s)
        return s

    def spec(self):
        """impl Spec, written from the declaration alone"""
        P = self.params
        me = self.path
        ord_ = self.order()
        args = self.lts + P
        out = ["#[allow(unconditional_panic, arithmetic_overflow)]\nimpl%s Spec for %s%s where %s%s {" % (
            self.head(True, extra="Spec"), me, "<%s>" % ", ".join(args) if args else "", self.where + ", " if self.where else "",
            "%s%s: EnumLike" % (me, "<%s>" % ", ".join(args) if args else ""))]
        cs = []
        for v in ord_:
            cs.append(" * ".join(["1"] + ["<%s as Spec>::COUNT" % text(t, P) for _, t in v[2]]))
        out.append(" const COUNT: u128 = 0 %s;" % "".join(" + " + c for c in cs))
        out.append(" #[allow(unused_mut, unused_variables, unused_assignments, unreachable_code)] fn nth(mut i: u128) -> Self {")
        units = 0
        while units < len(ord_) and not ord_[units][2]:
            units += 1

        def ctor(v):
            n = me if self.kind == "struct" else me + "::" + v[0]
            if v[1] == "unit":
                return n
            if not v[2]:
                return n + " {}"
            return n + " { %s }" % ", ".join("%s: { let r = <%s as Spec>::nth(i %% <%s as Spec>::COUNT); i /= <%s as Spec>::COUNT; r }" % (
                (f if v[1] == "named" else str(k)), text(t, P), text(t, P), text(t, P)) for k, (f, t) in enumerate(v[2]))

        if units:
            out.append("  match i { %s _ => () }" % " ".join("%d => return %s," % (k, ctor(ord_[k])) for k in range(units)))
            out.append("  i -= %d;" % units)
        for v, c in list(zip(ord_, cs))[units:]:
            out.append("  { let c: u128 = %s; if i < c { return %s; } i -= c; }" % (c, ctor(v)))
        out.append("  panic!(\"harness: no such value\") }")
        out.append(" #[allow(unused_variables, unused_mut, unused_assignments)] fn idx(&self) -> u128 { match *self {")
        off = ["0"]
        for v, c in zip(ord_, cs):
            n = me if self.kind == "struct" else me + "::" + v[0]
            if v[1] == "unit":
                pat = n
            else:
                pat = n + " { %s }" % ", ".join("%s: ref q%d" % ((f if v[1] == "named" else str(k)), k) for k, (f, t) in enumerate(v[2]))
            e = "let mut w: u128 = 1; let mut s: u128 = %s;" % " + ".join(off)
            for k, (f, t) in enumerate(v[2]):
                e += " s += w * q%d.idx(); w *= <%s as Spec>::COUNT;" % (k, text(t, P))
            out.append("  %s => { %s s }" % (pat, e))
            off = [off[0] if v[2] else str(int(off[0]) + 1)] + off[1:] if not v[2] and len(off) == 1 else off + [c]
        out.append(" } } }")
        return "\n".join(out)


# ---- random builtin nestings

def weight(t, env=()):
    """leaves in a value of the type, an upper bound on its size"""
    k = t[0]
    if k in ("leaf", "assoc"):
        return 1
    if k == "param":
        return env[t[1]] if env else 1
    if k == "opt":
        return 1 + weight(t[1], env)
    if k == "res":
        return 1 + weight(t[1], env) + weight(t[2], env)
    if k == "tup":
        return 1 + sum(weight(x, env) for x in t[1])
    if k == "arr":
        return 1 + weight(t[1], env) * t[2]
    return 1 + sum(weight(f, [weight(x, env) for x in t[2]]) for v in t[1].variants for _, f in v[2])


def ok(t, limit=MAXC):
    try:
        return count(t) <= limit and weight(t) <= 250
    except TooBig:
        return False


def rand_leaf(r, big=False):
    x = r.random()
    if x < 0.3:
        return BOOL
    if x < 0.42:
        return UNIT
    if x < 0.52:
        return NZ
    if x < 0.58:
        return NO
    if x < 0.64:
        return REF
    if big and x < 0.75:
        return el(r.choice([255, 256, 257, 65535, 65536, 65537, 2**32 - 1, 2**32, 2**32 + 1, 2**63 - 1, 2**63, 2**64 - 1]))
    return el(r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 16, 17]))


def rand_ty(r, depth, pool=(), limit=MAXC, big=False):
    for _ in range(200):
        t = _rand_ty(r, depth, pool, big)
        if ok(t, limit):
            return t
    return BOOL


def _rand_ty(r, depth, pool, big):
    if depth == 0 or r.random() < 0.2:
        if pool and r.random() < 0.6:
            return r.choice(pool)
        return rand_leaf(r, big)
    k = r.choice(["opt", "res", "tup", "tup", "arr"])
    sub = lambda: _rand_ty(r, depth - 1, pool, big)
    if k == "opt":
        return ("opt", sub())
    if k == "res":
        return ("res", sub(), sub())
    if k == "tup":
        return ("tup", [sub() for _ in range(r.choice([1, 2, 2, 3, 3, 4, 5, 7]))])
    return ("arr", sub(), r.choice([0, 1, 2, 2, 3, 3, 4, 5]))


def rand_tuple(r, n, limit=MAXC):
    """a tuple of n parts whose counts tell the positions apart"""
    for _ in range(300):
        parts = []
        room = limit
        for i in range(n):
            left = n - i
            pick = [UNIT, BOOL, BOOL, NZ, el(3), el(4), el(5), REF]
            if n <= 6:
                pick += [el(7), el(11), el(255), el(256)]
            x = r.choice(pick)
            if room // max(x[2], 1) < 1:
                x = UNIT
            room //= max(x[2], 1)
            parts.append(x)
        if r.random() < 0.06:
            parts[r.randrange(n)] = NO
        r.shuffle(parts)
        t = ("tup", parts)
        if ok(t, limit):
            return t
    return ("tup", [BOOL] * n)


def builtin_types(r, tier):
    L = [UNIT, BOOL]
    for n in range(1, 33):
        L.append(("tup", [BOOL] * n))
        for _ in range(2 if tier == "quick" else 5):
            L.append(rand_tuple(r, n))
        # one part that differs, at a position of its own
        at = r.randrange(n)
        L.append(("tup", [el(3) if i == at else BOOL for i in range(n)]))
    for n in range(0, 33):
        L.append(("arr", BOOL, n))
        L.append(("arr", NZ, n))
        for e in (el(3), REF, ("opt", BOOL), el(4), ("tup", [BOOL, NZ])) if tier != "quick" else (r.choice([el(3), REF, ("opt", BOOL), el(4), ("tup", [BOOL, NZ])]),):
            L.append(("arr", e, n))
    for n in (0, 1, 2, 5, 32):
        L += [("arr", UNIT, n), ("arr", NO, n), ("arr", ("opt", NO), n)]
    for k in (2, 3, 5, 255, 256, 257, 65535, 65536, 65537, 2**32 - 1, 2**32, 2**32 + 1):
        n = 1
        while k ** (n + 1) <= MAXC and n < 32:
            n += 1
        L += [("arr", el(k), n), ("arr", el(k), max(1, n - 1)), ("opt", ("arr", el(k), n))]
    L += [("tup", [el(2**32 - 1), el(2**32 + 1)]), ("tup", [el(2**32 + 1), el(2**32 - 1)]), ("opt", el(2**64 - 2)), ("res", el(2**63), el(2**63 - 1)),
          ("tup", [el(2**64 - 1), UNIT]), ("tup", [UNIT, el(2**64 - 1)]), ("tup", [el(3), el((2**64 - 1) // 3)]), ("tup", [el((2**64 - 1) // 3), el(3)]),
          ("opt", NO), ("res", NO, BOOL), ("res", BOOL, NO), ("res", NO, NO), ("tup", [NO]), ("tup", [NO, BOOL]), ("tup", [BOOL, NO]), ("opt", ("tup", [NO, NZ])),
          ("opt", ("opt", ("opt", BOOL))), ("res", ("res", BOOL, NZ), ("res", NZ, ("opt", BOOL)))]
    for _ in range(120 if tier == "quick" else 500):
        L.append(rand_ty(r, r.choice([1, 2, 2, 3, 3, 4]), big=r.random() < 0.3))
    return [t for t in L if ok(t)]


# ---- random definitions

FIELDS = ["value", "x", "y", "x0", "x1", "f", "a", "b", "discr", "n", "offset", "to_discr", "from_discr", "xx", "xvalue", "product", "range_high", "rem",
          "result", "i", "type_", "_0", "value_", "left", "right", "k", "w", "s", "num_variants", "t", "some", "other", "v", "d"]
VARIANTS = ["A", "B", "C", "D", "E", "None", "Some", "Ok", "Err", "X", "Y", "Option", "Result", "EnumLike", "T", "U", "Unit", "V0", "V1", "V2", "V3", "V4", "V5",
            "Red", "Green", "Blue", "True", "False", "Value", "Zero", "One", "Two", "Iter", "Vec", "Box", "Copy", "Clone", "Usize"]


def gen_fields(r, n, named, tys):
    names = r.sample(FIELDS, n) if named else [str(i) for i in range(n)]
    return [(names[i], tys()) for i in range(n)]


def gen_def(r, i, pool, limit, want=None):
    """returns (Def, [argument lists])"""
    for _ in range(300):
        try:
            return _gen_def(r, i, pool, limit, want)
        except TooBig:
            continue
    return _gen_def(r, i, [BOOL], limit, "clike")


def _gen_def(r, i, pool, limit, want):
    name = "%s%d" % (r.choice(["Gen", "Kind", "State", "Item"]), i)
    params, lts, bounds, defaults, where, attrs = [], [], {}, {}, "", []
    partial = False
    k = want or r.choice(["clike", "struct", "struct", "enum", "enum", "enum", "generic", "generic"])
    generic = k == "generic"
    if generic:
        params = r.choice([["T"], ["T"], ["T", "U"], ["T", "U"], ["A", "B", "C"], ["X"]])
        for p in params:
            b = r.choice(["", "", "Copy", "EnumLike", "EnumLike + Copy", "'static"])
            if b:
                bounds[p] = b
        w = []
        if r.random() < 0.4:
            w.append("%s: %s" % (r.choice(params), r.choice(["Copy", "EnumLike", "Sized + Copy"])))
        if r.random() < 0.25:
            w.append("Option<%s>: EnumLike" % r.choice(params))
        where = ", ".join(w)
        if r.random() < 0.25:
            defaults[params[-1]] = "bool"
    assoc = generic and r.random() < 0.25
    if assoc:
        if r.random() < 0.5:
            bounds[params[0]] = "Assoc"
        else:
            where = ", ".join([x for x in (where,) if x] + ["%s: Assoc" % params[0]])
        defaults.pop(params[0], None)
    # a bound that EnumLike does not imply, so that the implementation must repeat it
    marked = -1
    if generic and r.random() < 0.5:
        marked = r.randrange(1 if assoc else 0, len(params) + (1 if assoc and len(params) == 1 else 0))
        if marked >= len(params):
            marked = -1
    if marked >= 0:
        p = params[marked]
        x = r.random()
        if x < 0.3:
            bounds[p] = "Mark"
        elif x < 0.65:
            where = ", ".join(["%s: Mark" % p] + [x for x in (where,) if x])
        else:
            where = ", ".join([x for x in (where,) if x] + ["Option<%s>: Mark" % p])
    if r.random() < 0.12 and k != "clike":
        lts = ["'a"]
    kind = "enum" if k in ("clike", "enum") or generic and r.random() < 0.6 else "struct"

    used = set()

    def field_ty():
        if lts and "'a" not in used:
            used.add("'a")
            return leaf("Ref<'a>", 2)
        if generic and r.random() < 0.55:
            p = r.randrange(len(params))
            used.add(p)
            t = ("param", p)
            if assoc and p == 0 and r.random() < 0.6:
                return ("assoc", 0)
            x = r.random()
            if x < 0.5:
                return t
            if x < 0.65:
                return ("opt", t)
            if x < 0.75:
                return ("arr", t, r.choice([0, 1, 2, 3]))
            if x < 0.85:
                return ("tup", [t, rand_leaf(r)])
            return ("res", rand_leaf(r), t)
        return rand_ty(r, r.choice([0, 0, 0, 1, 2]), pool, limit)

    if kind == "struct":
        n = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 9, 12])
        if generic or lts:
            n = max(n, 1)
        if n == 0:
            v = ("", r.choice(["unit", "empty{}", "empty()"]), [], "")
        else:
            named = r.random() < 0.5
            v = ("", "named" if named else "tuple", gen_fields(r, n, named, field_ty), "")
        variants = [v]
        if r.random() < 0.15:
            attrs.append("#[repr(C)]")
    elif k == "clike":
        n = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 40, 255, 256, 257])
        names = r.sample(VARIANTS, n) if n <= 20 else ["V%d" % j for j in range(n)]
        variants = [(x, "unit", [], "") for x in names]
        if n and r.random() < 0.6:
            val = r.choice([0, 3, 100, 1000])
            out = []
            step = r.choice([1, 2, 7])
            vals = [val + step * j for j in range(n)]
            if r.random() < 0.5:
                vals.reverse()
            for x, d in zip(variants, vals):
                out.append((x[0], "unit", [], r.choice(["%d", "0x%x"]) % d))
            variants = out
            if r.random() < 0.35:
                # only some explicit, and perhaps negative: the others count on from there
                at = -r.choice([0, 1, 5, 100])
                variants = []
                first = at
                for j, (x, _, _, _) in enumerate(out):
                    give = r.random() < 0.4 or (j == 0 and first != 0)
                    if j:
                        at += r.choice([1, 3, 50]) if give else 1
                    variants.append((x, "unit", [], str(at) if give else ""))
                vals = [2**40]
                partial = True
                attrs += r.choice([[], ["#[repr(i16)]"], ["#[repr(i64)]"]]) if at < 30000 else []
            if n and max(vals) < 256 and r.random() < 0.5:
                attrs.append("#[repr(u8)]")
            elif n and max(vals) < 2**31 and r.random() < 0.5:
                attrs.append("#[repr(i32)]")
    else:
        n = r.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8])
        names = r.sample(VARIANTS, n)
        variants = []
        for x in names:
            s = r.choice(["unit", "tuple", "tuple", "named", "named"])
            m = 0 if s == "unit" else r.choice([1, 1, 1, 2, 2, 3, 4, 6])
            variants.append((x, s, gen_fields(r, m, s == "named", field_ty), ""))
        if r.random() < 0.15:
            attrs.append(r.choice(["#[repr(u8)]", "#[repr(C)]", "#[repr(u16)]"]))
            if "u8" in attrs[-1] and r.random() < 0.5:
                variants = [(a, s, f, str(10 * (j + 1))) for j, (a, s, f, _) in enumerate(variants)]
    # parameters that no field mentions are not allowed
    for p in range(len(params)):
        if p not in used or assoc and p == 0 and not any(("param", 0) == t for v in variants for _, t in v[2]):
            tgt = [v for v in variants if v[2]]
            f = ("param", p)
            if tgt:
                v = tgt[0]
                fn = "extra%d" % p if v[1] == "named" else str(len(v[2]))
                v[2].append((fn, f))
            elif kind == "enum":
                variants.append(("Extra%d" % p, "tuple", [("0", f)], ""))
            else:
                raise TooBig()
    if lts and "'a" not in used:
        tgt = [v for v in variants if v[2]]
        if tgt:
            v = tgt[0]
            v[2].append(("extra_a" if v[1] == "named" else str(len(v[2])), leaf("Ref<'a>", 2)))
        else:
            lts = []
    if not partial and any(v[3] for v in variants) and not all(v[3] for v in variants):
        variants = [(a, s, f, "") for a, s, f, _ in variants]
    if r.random() < 0.2:
        attrs.insert(0, "/// a documented type\n#[allow(dead_code)]")
    if kind == "enum" and r.random() < 0.1:
        attrs.append("#[non_exhaustive]")
    path, wrap = name, None
    x = r.random()
    if x < 0.12:
        path = "m%d::%s" % (i, name)
        wrap = lambda s, i=i: "pub mod m%d { use super::*;\n%s\n}" % (i, s)
    vis = "pub " if path != name else r.choice(["pub ", "", "pub(crate) "])
    d = Def(name, kind, variants, params, lts, where, bounds, "\n".join(attrs), vis, path, wrap, defaults)
    # instances
    insts = []
    if not params:
        d.count([])
        if d.count([]) > limit:
            raise TooBig()
        insts = [[]]
    else:
        for _ in range(60):
            args = []
            for j, p in enumerate(params):
                if assoc and j == 0:
                    args.append(r.choice([leaf("AssocBool", 1), leaf("AssocTri", 1)]))
                elif j == marked:
                    args.append(r.choice([UNIT, BOOL, NZ, REF, el(3), el(7), ("opt", BOOL), ("opt", el(5)), ("opt", ("opt", NZ))]))
                else:
                    args.append(rand_ty(r, r.choice([0, 0, 1, 2]), pool, limit))
            if ok(("app", d, args), limit) and args not in insts:
                insts.append(args)
            if len(insts) >= 3:
                break
        if not insts:
            raise TooBig()
    return d, insts


def derived_defs(r, n, base):
    """[(Def, [types])], each building on those before it"""
    pool, out = [BOOL, NZ, REF], []
    for i in range(n):
        big = r.random() < 0.15
        d, insts = gen_def(r, base + i, pool, MAXC if big else 2**20, want="clike" if i < 2 else "enum" if i < 5 else "struct" if i < 7 else "generic" if i < 10 else None)
        tys = [("app", d, a) for a in insts if weight(("app", d, a)) <= 600]
        out.append((d, tys))
        pool += [t for t in tys if count(t) <= 2000 and weight(t) <= 60]
        pool = pool[:3] + pool[3:][-14:]
    return out


# definitions that every run includes: shapes the derive must tell apart
def fixed_defs():
    B, T3, E5 = BOOL, el(3), el(5)
    D = []
    D.append((Def("Fx0", "enum", [("A", "tuple", [("0", T3)], ""), ("B", "unit", [], ""), ("C", "named", [("x", B), ("value", E5)], ""), ("D", "unit", [], "")]), None))
    D.append((Def("Fx1", "struct", [("", "named", [("value", T3), ("x", B), ("discr", E5), ("x0", NZ)], "")]), None))
    D.append((Def("Fx2", "struct", [("", "tuple", [(str(i), t) for i, t in enumerate([B, T3, B, E5, B, NZ, UNIT, B, T3, B, REF, B, B])], "")]), None))
    D.append((Def("Fx3", "enum", [("A", "tuple", [("0", NO)], ""), ("B", "tuple", [("0", B), ("1", NO)], ""), ("C", "tuple", [("0", B), ("1", T3)], ""), ("D", "unit", [], "")]), None))
    D.append((Def("Fx4", "enum", [("A", "unit", [], "5"), ("B", "unit", [], "3"), ("C", "unit", [], "200"), ("D", "unit", [], "0")], attrs="#[repr(u8)]"), None))
    D.append((Def("Fx5", "enum", []), None))
    D.append((Def("Fx6", "enum", [("Only", "unit", [], "")]), None))
    D.append((Def("Fx7", "enum", [("Only", "named", [("left", T3), ("right", E5), ("other", B)], "")]), None))
    D.append((Def("Fx8", "struct", [("", "tuple", [("0", el(2**32 - 1)), ("1", el(2**32 + 1))], "")]), None))
    D.append((Def("Fx9", "enum", [("A", "unit", [], ""), ("B", "tuple", [("0", el(2**63))], ""), ("C", "tuple", [("0", el(2**63 - 2))], "")]), None))
    D.append((Def("FxA", "enum", [("A", "tuple", [("0", ("param", 0)), ("1", ("param", 1))], ""), ("B", "named", [("x", ("param", 1))], ""), ("C", "unit", [], "")], params=["T", "U"]),
              [[BOOL, T3], [T3, BOOL], [NO, T3], [T3, NO], [UNIT, UNIT]]))
    # as wide as the wrappers and the vectors go
    D.append((Def("FxB", "struct", [("", "tuple", [(str(i), B) for i in range(16)], "")]), None))
    D.append((Def("FxC", "struct", [("", "named", [("f%d" % i, B if i % 3 else NZ) for i in range(32)], "")]), None))
    # many unit variants between those with fields, many variants with fields, many fields
    units = [("V%d" % i, "unit", [], "") for i in range(300)]
    units.insert(0, ("P", "tuple", [("0", T3), ("1", B)], ""))
    units.insert(151, ("Q", "named", [("x", E5)], ""))
    units.append(("R", "tuple", [("0", NZ)], ""))
    D.append((Def("FxD", "enum", units), None))
    D.append((Def("FxE", "enum", [("V%d" % i, "tuple" if i % 3 else "named", [("0" if i % 3 else "x", [B, T3, NZ, UNIT][i % 4])], "") for i in range(130)]), None))
    D.append((Def("FxF", "struct", [("", "named", [("f%d" % i, [B, T3, NZ][i // 5 % 3] if i % 5 == 4 else UNIT) for i in range(140)], "")]), None))
    return [(d, [("app", d, a) for a in (i or [[]])]) for d, i in D]


# twins: a tuple, an array and a derived struct of the same parts
def twins(r, base, n):
    out = []
    for i in range(n):
        m = r.choice([1, 2, 3, 4, 5, 6, 8, 12])
        t = rand_tuple(r, m, 2**40)
        d = Def("Twin%d" % (base + i), "struct", [("", "tuple", [(str(j), x) for j, x in enumerate(t[1])], "")])
        out.append((d, [("app", d, []), t]))
        e = rand_leaf(r)
        if ok(("arr", e, m), 2**40):
            d = Def("TwinArr%d" % (base + i), "struct", [("", "named", [("f%d" % j, e) for j in range(m)], "")])
            out.append((d, [("app", d, []), ("arr", e, m), ("tup", [e] * m)]))
    return out


def extra_nestings(r, tys, n):
    small = [t for t in tys if count(t) <= 2**30]
    return [rand_ty(r, r.choice([1, 2, 3]), small) for _ in range(n)]


HEAD = """// generated by lib/gentypes.py
#![allow(dead_code, unused_imports, non_camel_case_types, non_snake_case, unused_parens, unused_variables, unreachable_code, unused_mut, unused_assignments, path_statements)]
use enum_like::EnumLike;
use enum_like_derive::EnumLike;
use evmon::el::El;
use evmon::gen::*;

"""


def storage(r, c):
    m = ["vec_u32", "vec_u64", "vec_u128", "smallvec_u32"]
    if c <= 256:
        m.append("vec_u8")
    if c <= 65536:
        m.append("vec_u16")
    return r.choice(m)


def program(r, defs, tys, users, use_rate):
    """one program: definitions, then a table of the types judged"""
    s = [HEAD] + ["type E%d = El<%d>;" % (k, k) for k in sorted(ALIASES)]
    info = {}
    for d, _ in defs:
        s.append(d.definition())
        s.append(d.spec())
        info[d.name] = d.definition()
    rows, seen = [], set()
    for t in tys:
        e = text(t)
        if e in seen:
            continue
        seen.add(e)
        c = count(t)
        u = "None"
        if users and 2 <= c <= 2**32 and r.random() < use_rate:
            u = "evmon::uses!(%s, %s, %s)" % (storage(r, c), e, "true" if c <= 2**20 else "false")
        dtext = info.get(t[1].name, "") if t[0] == "app" else ""
        rows.append("ops::<%s>(%s, %s, %d, %s)" % (e, json.dumps(e), json.dumps(dtext), c, u))
    fns = []
    for i in range(0, len(rows), 20):
        s.append("fn table%d() -> Vec<Ops> { vec![\n  %s\n] }" % (i // 20, ",\n  ".join(rows[i : i + 20])))
        fns.append("table%d()" % (i // 20))
    s.append("fn main() { let mut t: Vec<Ops> = vec![]; %s evmon::gen::main(t) }" % " ".join("t.extend(%s);" % f for f in fns))
    return "\n".join(s) + "\n", len(rows)


PROBE = HEAD + """
#[derive(Copy, Clone, EnumLike)]
pub enum Probe { A, B }
impl Spec for Probe { const COUNT: u128 = 2; fn nth(i: u128) -> Self { if i == 0 { Probe::A } else { Probe::B } } fn idx(&self) -> u128 { match self { Probe::A => 0, Probe::B => 1 } } }
fn main() { evmon::gen::main(vec![ops::<Probe>("Probe", "", 2, evmon::uses!(vec_u32, Probe, true)), ops::<Option<bool>>("Option<bool>", "", 3, None)]) }
"""

CARGO = """[package]
name = "evgen"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
evmon = { path = "%(harness)s" }
enum_vec = { path = "%(repo)s/enum_vec", features = ["smallvec"] }
enum_like = { path = "%(repo)s/enum_like" }
enum_like_derive = { path = "%(repo)s/enum_like_derive" }
enum_set2 = { path = "%(repo)s/enum_set" }

[patch.crates-io]
enum_like = { path = "%(repo)s/enum_like" }
enum_like_derive = { path = "%(repo)s/enum_like_derive" }

[profile.dev]
debug = 0
opt-level = 0
incremental = false

[profile.release]
debug = 0
opt-level = 0
overflow-checks = false
debug-assertions = false
incremental = false

[profile.opt]
inherits = "release"
opt-level = 2
"""


def write(dir_, prop, seed, tier, harness, repo, bins):
    """writes the generated crate; returns the names of its programs"""
    r = random.Random("%s-%s-%s" % (prop, seed, tier))
    os.makedirs(os.path.join(dir_, "src", "bin"), exist_ok=True)
    with open(os.path.join(dir_, "Cargo.toml"), "w") as f:
        f.write(CARGO % {"harness": harness, "repo": repo})
    names, total = [], 0
    progs = []
    many = 1 if tier == "quick" else 4
    if prop in ("C15", "C17"):
        L = builtin_types(r, tier)
        k = bins if prop == "C15" else max(1, bins // 2)
        for i in range(k):
            progs.append(([], L[i::k], False))
    if prop in ("C16", "C17"):
        k = bins if prop == "C16" else max(1, bins - bins // 2)
        for i in range(k):
            defs = (fixed_defs() if i == 0 else []) + derived_defs(r, 36 * many, 1000 * i) + twins(r, 1000 * i, 4 * many)
            tys = [t for _, ts in defs for t in ts]
            tys += extra_nestings(r, tys, 20 * many)
            progs.append((defs, tys, prop == "C16"))
    for i, (defs, tys, users) in enumerate(progs):
        src, n = program(r, defs, tys, users, 0.4)
        total += n
        names.append("gen%d" % i)
        with open(os.path.join(dir_, "src", "bin", "gen%d.rs" % i), "w") as f:
            f.write(src)
    with open(os.path.join(dir_, "src", "bin", "probe.rs"), "w") as f:
        f.write(PROBE)
    return names, total


if __name__ == "__main__":
    import sys

    print(write(sys.argv[1], sys.argv[2], sys.argv[3], "quick", "/verif/harness", "/repo", 8))
