"""Random programs for #[auto_enum], printed twice: annotated, and with every branch value boxed.

The generator follows the documented rules of the macro (which positions are searched, which
values get a variant, how many are needed), so that every annotated program must compile, and
must leave the same event trace as its boxed twin on the same input stream."""
import random, re

KS = {
    "I": dict(attrs=["Iterator"], ret="impl Iterator<Item = u32>", bx="bi", bt="BI", use="use_i"),
    "E": dict(attrs=["DoubleEndedIterator, ExactSizeIterator", "Iterator, DoubleEndedIterator, ExactSizeIterator",
                     "ExactSizeIterator, DoubleEndedIterator, Iterator"],
              ret="impl DoubleEndedIterator<Item = u32> + ExactSizeIterator", bx="be", bt="BE", use="use_e"),
    "D": dict(attrs=["Debug", "fmt::Debug"], ret="impl std::fmt::Debug", bx="bd", bt="BD", use="use_d"),
    "DD": dict(attrs=["Debug, Display", "Display, Debug", "fmt::Display, Debug", "Display, fmt::Debug"],
               ret="impl std::fmt::Debug + std::fmt::Display", bx="bdd", bt="BDD", use="use_dd"),
    "F": dict(attrs=["Future"], ret="impl std::future::Future<Output = u32>", bx="bf", bt="BF", use="use_f"),
}


T_ = lambda seen, unseen, names: dict(seen=seen, unseen=unseen, names=names)
TYPED = {
    "I": [T_(["Iterator<Item = u32>"], "std::iter::Iterator<Item = u32>", ["Iterator"])],
    "E": [T_(["DoubleEndedIterator<Item = u32>"], "std::iter::DoubleEndedIterator<Item = u32>", ["DoubleEndedIterator"]), T_(["ExactSizeIterator"], "core::iter::ExactSizeIterator", ["ExactSizeIterator"])],
    "D": [T_(["Debug", "fmt::Debug"], "std::fmt::Debug", ["Debug", "fmt::Debug"])],
    "DD": [T_(["Debug", "fmt::Debug"], "std::fmt::Debug", ["Debug", "fmt::Debug"]), T_(["Display", "fmt::Display"], "core::fmt::Display", ["Display", "fmt::Display"])],
    "F": [T_(["Future<Output = u32>"], "std::future::Future<Output = u32>", ["Future"])],
}


class X:
    """A piece of program text: `a` annotated, `r` boxed reference."""
    __slots__ = ("a", "r")

    def __init__(self, a, r=None):
        self.a = a
        self.r = a if r is None else r

    def __add__(self, o):
        o = o if isinstance(o, X) else X(o)
        return X(self.a + o.a, self.r + o.r)

    def __radd__(self, o):
        return X(o) + self


def J(tmpl, *xs):
    parts = tmpl.split("§")
    assert len(parts) == len(xs) + 1, (tmpl, len(xs))
    out = X(parts[0])
    for p, x in zip(parts[1:], xs):
        out = out + (x if isinstance(x, X) else X(str(x))) + p
    return out


def cat(xs, sep=" "):
    out = X("")
    for i, x in enumerate(xs):
        out = out + (sep if i else "") + x
    return out


class Ann:
    def __init__(self, g, K, marker=None):
        self.K, self.k, self.marker, self.count = K, KS[K], marker, 0
        self.bound = 0
        if g.p.get("size"):  # the consumer is told the size bound of this annotation's result
            self.id = len(g.anns)
            self.k = dict(KS[K], use=f"{KS[K]['use']}@{self.id}@")
        self.name = marker or "marker"
        args = g.rng.choice(self.k["attrs"])
        if marker:
            m = f"marker = {marker}"
            args = g.rng.choice([f"{m}, {args}", f"{args}, {m}"])
        if g.rng.random() < 0.1:
            args += ","
        self.args = args

    def typed(self, g, local=False):
        """With type analysis: the attribute lists any part of the traits, the type names them all."""
        if not g.p.get("typed"):
            return self.attr(), self.k["ret"]
        names, ty = [], []
        for t in TYPED[self.K]:
            forms = g.rng.sample(t["seen"], g.rng.choice([1, 1, 1, 2]) if len(t["seen"]) > 1 else 1)
            if g.flip(0.15) and not (local and t is TYPED[self.K][0]):  # a let needs one recognised trait
                forms = [t["unseen"]]
                names.append(g.rng.choice(t["names"]))
            elif g.flip(0.3):
                names.append(g.rng.choice(t["names"]))
            ty += forms
        if self.K == "E" and g.flip(0.4):
            ty.append("Iterator<Item = u32>")
        for extra in ("'static", "Sized", "Unpin"):
            if g.flip(0.1):
                ty.append(extra)
        g.rng.shuffle(ty)
        if self.marker:
            names.insert(g.rng.randrange(len(names) + 1), f"marker = {self.marker}")
        g.feats.add("listed" if names else "unlisted")
        a = ", ".join(names) + ("," if names and g.flip(0.1) else "")
        return X(f"#[auto_enum({a})] " if a or g.flip(0.2) else "#[auto_enum] ", ""), "impl " + " + ".join(f"({t})" if g.flip(0.08) and not t.startswith("'") else t for t in ty)

    def attr(self):
        return X(f"#[auto_enum({self.args})] ", "")

    def see(self, x, inner=0):
        """Largest branch value so far: a leaf has 8 + 8 * P bytes."""
        self.bound = max([self.bound, inner] + [8 + 8 * int(p) for p in re.findall(r"(?:leaf|tr|trr)::<(?:u32, |_, )?\d+, (\d+)>", x.a)])

    def wrap(self, x, inner=0):
        self.count += 1
        self.see(x, inner)
        return X(x.a, f"{self.k['bx']}({x.r})")

    def mark(self, g, env, d):
        """A marker macro; its contents are opaque to the attribute."""
        keep = env.but(tr=None, loops=(), marks=())
        if isinstance(env.ret, (Ann, tuple)):
            keep.ret = None
        p = g.p
        if p.get("stable"):  # (a dummy does not reach inner annotations here)
            g.p = dict(p, inner=0)
        try:
            x = g.leaf(keep, d)
        finally:
            g.p = p
        self.see(x)
        self.count += 1
        g.feats.add("marker")
        o, c = g.rng.choice([("(", ")"), ("(", ")"), ("[", "]"), ("{", "}")])
        return g.attd(X(f"{self.name}!{o}{x.a}{c}", f"{self.k['bx']}({x.r})"), 0.08)


class Env:
    __slots__ = ("ret", "tr", "loops", "marks", "vars", "inclosure", "slot")

    def __init__(self, ret=None, tr=None, loops=(), marks=(), vars=(), inclosure=False, slot=None):
        self.slot = slot
        self.ret, self.tr, self.loops, self.marks, self.vars, self.inclosure = ret, tr, tuple(loops), tuple(marks), tuple(vars), inclosure

    def but(self, **kw):
        e = Env(self.ret, self.tr, self.loops, self.marks, self.vars, self.inclosure, self.slot)
        for k, v in kw.items():
            setattr(e, k, tuple(v) if k in ("loops", "marks", "vars") else v)
        return e


class Retry(Exception):
    pass


# positions of a u32 expression (§): in the scope itself, where no unlabelled loop control may stand, and in a scope of their own
POS = ["if § > 1 {{ t({i}); }}", "if c({i}) {{ t({i}); }} else if § > 3 {{ t({i}); }} else {{ sink(§); }}", "if let 0..=2 = § {{ t({i}); }}", "for _ in 0..§ % 3 {{ t({i}); }}", "for {v} in [§, 1u32].iter().copied() {{ sink({v}); }}",
       "match § {{ 0 | 1 => t({i}), 2..=40 => {{}} _ => sink(1) }}", "match n({i}, 4) {{ {v} if § > 2 => sink({v}), {v} => t({v}) }}", "match (§, n({i}, 3)) {{ (1, _) | (_, 0) => t({i}), _ => {{}} }}", "match n({i}, 3) {{ 0 => sink(§), 1 => {{ sink(§); }} _ => {{}} }}",
       "let [{v}, {w}] = [§, §]; sink({v} ^ {w});", "let ({v}, mut {w}) = (§, 1u32); {w} += {v} % 9; sink({w});", "let St {{ f: {v}, .. }} = St {{ f: §, ..St {{ f: 1, g: § }} }}; sink({v});", "let {v} = [1u32, 2, 3][§ as usize % 3]; sink({v});",
       "let mut {v} = [1u32, 2, 3]; {v}[§ as usize % 3] = §; sink({v}[1]);", "let mut {v} = 1u32; {v} = §; {v} ^= §; sink({v});", "let mut {v} = 1u32; *(&mut {v}) = § % 7; sink({v});", "let {v}; ({v}, _) = (§, 1u32); sink({v});", "sink((§));", "sink(!§);", "sink(-(§ as i32) as u32);",
       "sink(*&§);", "sink(*&mut (§ + 1));", "sink((§..§).len() as u32 % 5);", "sink((§ % 5..=4).count() as u32);", "sink((§ as u64 % 1000) as u32);", "sink(unsafe {{ § }});", "sink({{ {{ § }} }});", "sink('{l}: {{ if c({i}) {{ break '{l} 1u32; }} break '{l} § }});",
       "sink(§.wrapping_mul(3));", "sink(3u32.wrapping_add(§).wrapping_sub(§ | 2));", "sink(idf({i}, §));", "sink((idf::<u32>)({i}, §));", "sink([§; 2][1]);", "sink((§, 1u32).0);", "sink(St {{ f: §, g: 1 }}.f);", "let {v}: u32 = §; sink({v});", "let _ = §;", "let {v} = &§; sink(*{v});", "sink(if let Some({v}) = Some(§) {{ {v} }} else {{ § }});",
       "sink(if § > 2 && § < 50 || c({i}) {{ 1 }} else {{ 2 }});", "sink(match Some(§) {{ Some({v}) => {v}, None => § }});", "sink(Some(§).map(|{v}| {v} % 9).unwrap_or(§));", "let {v} = |{w}: u32| {w} ^ 3; sink({v}(§));", "sink((|{w}: u32| {w} % 8)(§));", "static_(§);", "#[allow(unused)] let {v} = §;", "{{ sink(§) }}", "unsafe {{ sink(§) }}",
       "sink([1u32, 2, 3].iter().copied().nth(§ as usize % 5).unwrap_or(§));", "return_(§, || c({i}));", "sink(§ % 7 + § / 3 - 0 * §);", "let {v} = (§, (§, [§])); sink(({v}.1).1[0]);", "sink(<u32 as ::core::clone::Clone>::clone(&§));", "sink([[§, 1], [2, §]][1][1]);"]
POSL = ["while § > 4000 {{ tick(); t({i}); }}", "while let 3 = § % 4 {{ tick(); t({i}); }}", "sink(loop {{ tick(); break § }});", "sink('{l}: loop {{ tick(); if c({i}) {{ continue '{l}; }} break '{l} §; }});", "loop {{ tick(); sink(§); break; }}", "while c({i}) {{ tick(); sink(§) }}", "for _ in 0..2 {{ if § > 9 {{ continue; }} t({i}); }}",
        "loop {{ tick(); let Some({v}) = opt({i}) else {{ sink(§); break; }}; sink({v}); if § > 4 {{ break; }} }}", "loop {{ tick(); let ({v}, true) = (§, c({i})) else {{ break }}; sink({v}); }}", "sink('{l}: {{ let Some({v}) = opt({i}) else {{ t({i}); break '{l} §; }}; {v} }});"]
POSC = ["sink((|| §)());", "sink((move |{w}: u32| {{ {w}.wrapping_add(§) }})(2));", "sink(block_on(async {{ § }}));", "sink(block_on(async move {{ idf({i}, async {{ § }}.await) }}));", "sink(block_on(async {{ ::core::future::ready(§).await }}));", "sink((|| -> Option<u32> {{ Some(opt({i})? + §) }})().unwrap_or(4));",
        "sink((0..2u32).map(|{w}| {w} + § % 50).sum::<u32>());", "let {v} = || {{ return §; }}; sink({v}());", "let {v} = || move || §; sink({v}()());", "sink((|| {{ if c({i}) {{ return §; }} § }})());"]

BASE = dict(pos=0.3, stmt=1.2, ret=0.0, esc=0.15, div=0.0, loop=0.0, marker=0.0, nested=0.0, inner=0.0, noise=0.0,
            sameloop=0.15, tmp=0.5, unit=0.0, never=0.0, ks=["I", "D", "D", "DD", "F", "E"], kinds=dict(fn=3, let=2, expr=1, arg=1, clet=1, cexpr=1),
            chain=0.1, depth=2, labels=["'a", "'b", "'c"], q=0.0, itemhdr=0.3)

PROFILES = {
    "C14": dict(BASE, depth=3, nested=0.0, chain=0.25, noise=0.08, inner=0.06, loop=0.06),
    "C15": dict(BASE, inner=0.08, noise=0.05, div=0.05, nested=0.05, ret=0.9, esc=0.5, kinds=dict(fn=4, clet=2, cexpr=2), unit=0.1, loop=0.1, stmt=1.8),
    "C16": dict(BASE, inner=0.08, noise=0.05, q=0.9, kinds=dict(tfn=3, tclet=1, tcexpr=1), esc=0.3, stmt=2.2, marker=0.1, ks=["DD"]),
    "C17": dict(BASE, inner=0.06, noise=0.05, nested=0.08, ret=0.1, loop=0.75, esc=0.5, stmt=1.6, unit=0.1, depth=3, kinds=dict(fn=2, let=2, expr=1, arg=1, clet=1)),
    "C18": dict(BASE, inner=0.06, div=0.5, never=0.3, loop=0.25, ret=0.4, esc=0.3, marker=0.15, nested=0.15, kinds=dict(fn=3, let=3, letloop=2, clet=1, expr=1)),
    "C19": dict(BASE, marker=0.75, ret=0.3, esc=0.2, inner=0.15, noise=0.05, loop=0.15, kinds=dict(fn=2, let=1, mlet=3, mstmt=2, mfn=3, clet=1, tfn=1, expr=1)),
    "C20": dict(BASE, nested=0.5, inner=0.35, marker=0.1, ret=0.25, esc=0.15, depth=3, loop=0.15, stmt=1.5, kinds=dict(fn=4, let=2, expr=1, clet=1, tfn=1, arg=1)),
    "C21": dict(BASE, noise=0.7, ret=0.35, esc=0.25, loop=0.25, inner=0.08, stmt=2.2, kinds=dict(fn=4, let=2, clet=1, cexpr=1, tfn=2, expr=1)),
    "C26": dict(BASE, ret=0.3, div=0.2, loop=0.2, nested=0.2, inner=0.15, marker=0.1, esc=0.2, ks=["I", "I", "D", "DD", "E"], kinds=dict(fn=4, let=2, clet=1, expr=1, arg=1), chain=0.0, size=True),
    "C23": dict(BASE, ret=0.35, nested=0.2, loop=0.15, marker=0.15, inner=0.2, q=0.3, div=0.1, kinds=dict(fn=4, let=4, mfn=2, mlet=1, tfn=2), chain=0.0, typed=True),
    "C24": dict(BASE, ret=0.3, nested=0.2, loop=0.2, inner=0.2, marker=0.15, noise=0.1, q=0.3, kinds=dict(fn=4, let=2, clet=1, tfn=2, mfn=1)),
    "MIX": dict(BASE, ret=0.3, div=0.2, nested=0.2, loop=0.2, inner=0.2, marker=0.15, noise=0.2, q=0.3, depth=3,
                kinds=dict(fn=4, let=2, clet=1, cexpr=1, tfn=2, tclet=1, mfn=1, mlet=1, letloop=1, expr=1, arg=1)),
}


class Gen:
    def __init__(self, seed, profile, over=None):
        self.rng = random.Random(seed)
        self.p = dict(PROFILES[profile], **(over or {}))
        self.id = 0
        self.nleaf = 0
        self.feats = set()
        self.anns = []
        self.nl = 0
        self.sizes = []
        self.vals = 0
        self.free, self.fresh = [], [f"mk{i}" for i in range(1, 60)]
        self.rng.shuffle(self.fresh)
        self.fresh.insert(0, self.rng.choice(["vmark", "mark", "m", "Marker", "marker_", "vec_", "r_"]))

    # -- small helpers
    def flip(self, p):
        return self.rng.random() < p

    def i(self):
        self.id += 1
        return self.id

    def ch(self, opts):
        """Weighted choice over [(weight, thunk)]."""
        tot = sum(w for w, _ in opts)
        x = self.rng.random() * tot
        for w, f in opts:
            x -= w
            if x <= 0 and w > 0:
                return f()
        return opts[-1][1]()

    def name(self, base="x"):
        self.nl += 1
        return f"{base}{self.nl}"

    def ann(self, env=None, K=None, custom=None):
        mk = None
        if custom if custom is not None else self.flip(0.3):
            # a name that no enclosing annotation uses; names of finished regions may come back
            mk = self.rng.choice(self.free) if self.free and self.flip(0.4) else self.fresh.pop(0)
            if mk in self.free:
                self.free.remove(mk)
        a = Ann(self, K or self.rng.choice(self.p["ks"]), mk)
        self.anns.append(a)
        return a

    def enter(self, env, ann):
        """The marker names visible inside the region annotated with `ann`."""
        keep = [m for m in env.marks if m.marker]
        return env.but(marks=keep + [ann])

    def attd(self, x, p=0.05):
        """The expression, perhaps with an attribute that means nothing to the macro."""
        if not self.flip(p * self.p.get("attrs", 1)):
            return x
        self.feats.add("attr")
        a = self.rng.choice(["#[allow(unused)] ", "#[allow(unused)] ", "#[cfg(all())] ", "#[cfg_attr(any(), inline)] ", "#[cfg_attr(any(), never)] ", "#[allow(clippy::all)] #[warn(dead_code)] "])
        return X(a) + x

    # -- expressions of type u32
    def u(self, env, d=1):
        g = self
        opts = [
            (4, lambda: X(str(g.rng.randrange(0, 9)) + "u32")),
            (3, lambda: X(f"n({g.i()}, {g.rng.randrange(1, 5)})")),
        ]
        if env.vars:
            opts.append((2, lambda: X(g.rng.choice(env.vars))))
        if d > 0:
            opts += [
                (1, lambda: J(f"if c({g.i()}) {{ § }} else {{ § }}", g.ub(env, d - 1), g.ub(env, d - 1))),
                (0.6, lambda: J(f"tv({g.i()}, §)", g.u(env, d - 1))),
                (0.4, lambda: J("(§).wrapping_add(§)", g.u(env, d - 1), g.u(env, d - 1))),
                (0.5, lambda: J("{ § § }", g.stmts(env, 1, d - 1), g.u(g.after, d - 1))),
                (0.4, lambda: J(f"match n({g.i()}, 2) {{ 0 => §, _ => § }}", g.u(env, d - 1), g.u(env, d - 1))),
                (0.3, lambda: g.uloop(env, d)),
                (g.p["tmp"], lambda: J(f"tmp({g.i()}).v(§)", g.u(env, d - 1))),
            ]
            if g.p["esc"] and g.can_esc(env):
                opts.append((2 * g.p["esc"], lambda: J(f"if c({g.i()}) {{ § }} else {{ § }}", g.esc(env, d - 1), g.u(env, d - 1))))
                opts.append((g.p["esc"], lambda: J(f"match opt({g.i()}) {{ Some(q) => q, None => §, }}", g.esc(env, d - 1))))
            if g.p["noise"]:
                opts.append((2 * g.p["noise"], lambda: g.noise(env, d)))
            if env.ret in ("opt", "res"):
                opts.append((0.8, lambda: X(f"{'opt' if env.ret == 'opt' else 'ur'}({g.i()})?")))
            if env.tr is not None:
                opts.append((3 * g.p["q"], lambda: g.q(env, d)))
        return g.ch(opts)

    def ub(self, env, d):
        return cat([self.stmts(env, 1, d), self.u(self.after, d)]) if self.flip(0.3) else self.u(env, d)

    def uloop(self, env, d):
        k = self.rng.randrange(4)
        lab = self.rng.choice(self.p["labels"]) if self.flip(0.5) else None
        if k == 3 or (k == 2 and lab):
            lab = lab or "'d"
            e = env.but(loops=env.loops + ((lab, "block", "u32"),))
            return J(f"{lab}: {{ if c({self.i()}) {{ break {lab} §; }} § § }}", self.u(env.but(loops=e.loops), 0), self.stmts(e, 1, d - 1), self.u(e, d - 1))
        e = env.but(loops=env.loops + ((lab, "loop", "u32"),))
        L = f"{lab}: " if lab else ""
        B = f"break {lab}" if lab and self.flip(0.5) else "break"
        return J(f"{L}loop {{ tick(); § if c({self.i()}) {{ {B} §; }} § }}", self.stmts(e, 1, d - 1), self.u(env.but(loops=e.loops), 0), self.stmts(e, 1, d - 1))

    # -- the ? operator
    def q(self, env, d):
        """An expression of type u32 that contains `?` for env.tr."""
        ann = env.tr
        self.feats.add("q")

        def op(x):
            ann.count += 1
            x = X(f"{x.a}?", f"q!({ann.k['bx']}, {x.r})")
            y = self.attd(x, 0.1)
            return x if y is x else J("(§)", y)
        n, p = self.leafno()
        k = self.rng.randrange(8)
        if k == 7:  # two at once
            m, o = self.leafno()
            return op(op(X(f"trr::<_, {n}, {p}>({self.i()}, tr::<{m}, {o}>({self.i()}))")))
        if k <= 2:
            return op(X(f"tr::<{n}, {p}>({self.i()})"))
        if k == 3:
            return op(J(f"trr::<u32, {n}, {p}>({self.i()}, §)", self.u(env, d - 1)))
        if k == 4:  # chained: a closure result, a method call
            return op(J(f"tr::<{n}, {p}>({self.i()}).map(|w| w + 1)")) + ".wrapping_mul(3)"
        if k == 5:  # ? inside the operand of ?
            return op(J(f"trr::<u32, {n}, {p}>({self.i()}, §)", self.q(env, d - 1) if d > 0 else X("3")))
        return op(J(f"(if c({self.i()}) {{ § tr::<{n}, {p}>({self.i()}) }} else {{ trr::<u32, {n}, {p}>({self.i()}, §) }})",
                    self.stmts(env, 1, d - 1), self.u(env, d - 1)))

    def two(self, env, d):
        """A body with exactly two `?`."""
        g = self
        self.feats.add("q")
        ann = env.tr

        def op():
            n, p = g.leafno()
            ann.count += 1
            return X(f"tr::<{n}, {p}>({g.i()})?", f"q!({ann.k['bx']}, tr::<{n}, {p}>({g.i()}))".replace(f"({g.id}))", f"({g.id - 1}))"))
        e = env.but(tr=None)
        s = g.stmts(e, 0.7, 1)
        n, p = g.leafno()
        m, o = g.leafno()
        k = g.rng.randrange(10)
        if k == 0:
            i, j = g.i(), g.i()
            ann.count += 2
            return s + X(f" Ok(trr::<_, {n}, {p}>({i}, tr::<{m}, {o}>({j}))??)", f" Ok(q!({ann.k['bx']}, q!({ann.k['bx']}, trr::<_, {n}, {p}>({i}, tr::<{m}, {o}>({j})))))")
        if k == 1:
            i, j = g.i(), g.i()
            ann.count += 2
            return s + X(f" Ok(trr::<u32, {n}, {p}>({i}, tr::<{m}, {o}>({j})?)?)", f" Ok(q!({ann.k['bx']}, trr::<u32, {n}, {p}>({i}, q!({ann.k['bx']}, tr::<{m}, {o}>({j})))))")
        a, b = op(), op()
        return s + " " + J(["Ok(if c(%d) { § } else { § })" % g.i(), "return Ok((§).wrapping_add(§));", "Ok([§, §][n(%d, 2) as usize])" % g.i(), "let w0 = §; { Ok(w0.wrapping_add(§)) }",
                            "for w0 in 0..(§) % 3 { sink(w0); sink(§); } Ok(2)", "match § { 0 => Ok(1), w0 => { if c(%d) { return Ok(w0); } Ok(§) } }" % g.i(),
                            "if let 1 | 2 = § { t(%d); } let w0 = async { n(%d, 2) }; Ok((§).wrapping_add(block_on(w0)))" % (g.i(), g.i()), "loop { tick(); if § > 2 { break Ok(§); } }"][k - 2], a, b)

    # -- leaving the current scope
    def loops_seen(self, env):
        out, seen = [], set()
        for idx in range(len(env.loops) - 1, -1, -1):
            lab, kind, val = env.loops[idx]
            if lab and lab not in seen:
                out.append((lab, kind, val))
            if idx == len(env.loops) - 1 and kind != "block":
                out.append((None, kind, val))
            if lab:
                seen.add(lab)
        return out

    def can_esc(self, env):
        return env.ret is not None or bool(env.loops)

    def esc(self, env, d, semi=True):
        """An expression of type `!` that leaves some scope normally."""
        opts = []
        g = self
        if env.ret is not None:
            opts.append((2.0, lambda: g.esc_ret(env, d)))
        for lab, kind, val in g.loops_seen(env):
            L = f" {lab}" if lab else ""
            if kind != "block":
                opts.append((0.5, lambda L=L: X(f"continue{L}")))
            if kind in ("while", "for") or val == "unit":
                opts.append((0.7, lambda L=L: X(f"break{L}")))
            elif val == "u32":
                opts.append((0.7, lambda L=L: J(f"break{L} §", g.u(env, 0))))
            elif isinstance(val, Ann):
                opts.append((2.5, lambda L=L, val=val: g.brk(env, val, L, d)))
            elif isinstance(val, tuple):
                opts.append((0.7, lambda L=L, val=val: X(f"break{L} {g.leaf_at(val)}")))
        if not opts:
            raise Retry
        return g.attd(g.ch(opts), 0.07)

    def brk(self, env, ann, L, d):
        self.feats.add("break")
        if ann.K == "D" and self.flip(self.p["unit"]):
            ann.count += 1
            return X(f"break{L}", f"break{L} {ann.k['bx']}(())")
        v = self.value(ann, env, d)
        if v.a.startswith("'"):
            v = J("(§)", v)
        return J(f"break{L} §", v)

    def esc_ret(self, env, d):
        r = env.ret
        if isinstance(r, Ann):
            self.feats.add("return")
            if r.K == "D" and self.flip(self.p["unit"]):
                r.count += 1
                self.feats.add("unit")
                return X("return", f"return {r.k['bx']}(())")
            return J("return §", self.value(r, env, d))
        if r == "u32":
            return J("return §", self.u(env, 0))
        if r == "opt":
            return self.ch([(1, lambda: X("return None")), (1, lambda: J("return Some(§)", self.u(env, 0)))])
        if r == "res":
            return self.ch([(1, lambda: X("return Err(9)")), (1, lambda: J("return Ok(§)", self.u(env, 0)))])
        if isinstance(r, tuple) and r[0] == "try":
            ann = r[1]
            o = [(1, lambda: J("return Ok(§)", self.u(env, 0)))]
            if ann in env.marks and self.p["marker"]:
                o.append((1, lambda: J("return Err(§)", ann.mark(self, env, 0))))
            return self.ch(o)
        if isinstance(r, tuple) and r[0] == "res_noise":
            return self.ch([(1, lambda: X("return Err(4)")), (1, lambda: X("return Ok(5)"))])
        raise Retry

    # -- branch values
    def leafno(self):
        self.nleaf += 1
        p = self.rng.choice([0, 0, 1, 2, 5])
        self.sizes.append(p)
        return self.nleaf, p

    def leaf_at(self, np, v=None):
        return f"leaf::<{np[0]}, {np[1]}>({self.rng.randrange(9) if v is None else v})"

    def leaf(self, env, d=1):
        """An expression of one new leaf type."""
        g = self
        np = self.leafno()

        def mk(env, d):
            return g.attd(J(f"leaf::<{np[0]}, {np[1]}>(§)", g.u(env, d)), 0.04)
        if d <= 0:
            return mk(env, 0)
        opts = [
            (6, lambda: mk(env, d - 1)),
            (0.7, lambda: J(f"if c({g.i()}) {{ § }} else {{ § }}", mk(env, d - 1), mk(env, 0))),
            (0.7, lambda: J(f"match n({g.i()}, 3) {{ 0 => §, 1 => {{ § § }} _ => § }}", mk(env, 0), g.stmts(env, 1, d - 1), mk(env, 0), mk(env, 0))),
            (0.5, lambda: J("(§)", mk(env, d - 1))),
            (0.7, lambda: J(f"§.idm({g.i()})", mk(env, d - 1))),
            (0.7, lambda: J(f"idf({g.i()}, §)", mk(env, d - 1))),
            (0.5, lambda: J(f"two({g.i()}, §, §)", g.u(env, d - 1), mk(env, 0))),
            (0.5, lambda: J("{ § § }", g.stmts(env, 1, d - 1), mk(g.after, d - 1))),
            (0.3, lambda: J("unsafe { § }", mk(env, 0))),
            # (a macro that only shares its last name with one that diverges)
            (0.1 + 0.4 * g.p["div"], lambda: J(g.rng.choice(["lk::panic!(§)", "(::rt::lk::unreachable!(§))", "lk::unreachable!(§)", "{ ::rt::lk::panic!(§) }"]), mk(Env(), 0))),
            (0.5 + g.p["div"], lambda: g.ldiv(env, d - 1, mk)),
        ]
        if g.p["sameloop"]:
            def lp():
                lab = g.rng.choice(g.p["labels"]) if g.flip(0.4) else None
                e = env.but(loops=env.loops + ((lab, "loop", np),))
                return J(f"{lab + ': ' if lab else ''}loop {{ tick(); § if c({g.i()}) {{ break §; }} }}", g.stmts(e, 1, d - 1), mk(env.but(loops=e.loops), 0))
            opts.append((g.p["sameloop"], lp))
        return g.ch(opts)

    def ldiv(self, env, d, mk):
        """One value, from an expression some parts of which diverge."""
        g = self
        f0 = set(g.feats)
        dv = lambda: g.div(env, d, block_ok=False)
        k = g.rng.randrange(6)
        if k == 0:
            x = J(f"match n({g.i()}, 3) {{ 0 => §, 1 => {{ § § }} _ => § }}", mk(env, d), g.stmts(env, 1, d), mk(env, 0), dv())
        elif k == 1:
            x = J(f"match n({g.i()}, 3) {{ 0 => §, 1 => {{ § § }} _ => § }}", dv(), g.stmts(env, 1, d), dv(), mk(env, 0))
        elif k == 2:
            x = J(f"if c({g.i()}) {{ § }} else {{ § § }}", dv(), g.stmts(env, 1, d), mk(env, d))
        elif k == 3:
            x = J(f"if c({g.i()}) {{ § }} else if c({g.i()}) {{ § }} else {{ § }}", mk(env, d), dv(), dv())
        elif k == 4:
            x = J(f"{{ § match opt({g.i()}) {{ Some(_) => §, None => § }} }}", g.stmts(env, 1, d), mk(env, d), dv())
        else:
            x = J(f"(match c({g.i()}) {{ true => §, false => § }}).idm({g.i()})", mk(env, 0), dv())
        if "div" not in f0:
            g.feats.discard("div")
        return x

    def value(self, ann, env, d):
        """The operand of a wrapped return or break."""
        if ann in env.marks and self.flip(self.p["marker"] * 0.5):
            return ann.mark(self, env, d - 1)
        return ann.wrap(self.leaf(env, d - 1))

    # -- statements
    def stmts(self, env, mean=None, d=1):
        mean = self.p["stmt"] if mean is None else mean
        k = min(4, int(self.rng.expovariate(1.0 / max(0.01, mean))))
        out = []
        vs = list(env.vars)
        for _ in range(k):
            s, v = self.stmt(env.but(vars=vs), d)
            out.append(s)
            if v:
                vs.append(v)
        self.after = env.but(vars=vs)  # for what follows in the same block
        return cat(out)

    def stmt(self, env, d):
        g = self
        opts = [(2, lambda: (X(f"t({g.i()});"), None))]

        def let():
            v = g.name("v")
            x = g.u(env, d)
            return J(f"let {v} = §;", x), v
        opts.append((1.5, let))
        opts.append((0.7, lambda: (J("sink(§);", g.u(env, d)), None)))

        def guard():
            # a local with an observed drop; since Rust 2024 a tail expression may borrow it
            v = g.name("l")
            return X(f"let {v} = tmp({g.i()});"), f"{v}.peek().val()" if g.p.get("e24") else None
        opts.append((g.p["tmp"] * (3 if g.p.get("e24") else 1), guard))
        if d > 0:
            opts.append((0.8, lambda: (J(f"if c({g.i()}) {{ § }}", g.stmts(env, 1, d - 1)), None)))
            opts.append((0.4, lambda: (J(f"match n({g.i()}, 3) {{ 0 => {{ § }} 1 => t({g.i()}), _ => {{}} }}", g.stmts(env, 1, d - 1)), None)))

            def forl():
                lab = g.rng.choice(g.p["labels"]) if g.flip(0.4) else None
                e = env.but(loops=env.loops + ((lab, "for", "unit"),))
                return J(f"{lab + ': ' if lab else ''}for _ in 0..n({g.i()}, 3) {{ § }}", g.stmts(e, 1.5, d - 1)), None

            def whil():
                lab = g.rng.choice(g.p["labels"]) if g.flip(0.4) else None
                e = env.but(loops=env.loops + ((lab, "while", "unit"),))
                cond = g.rng.choice([f"c({g.i()})", f"let Some(w) = opt({g.i()})"])
                return J(f"{lab + ': ' if lab else ''}while {cond} {{ § }}", g.stmts(e, 1.5, d - 1)), None

            def loopl():
                lab = g.rng.choice(g.p["labels"]) if g.flip(0.4) else None
                e = env.but(loops=env.loops + ((lab, "loop", "unit"),))
                return J(f"{lab + ': ' if lab else ''}loop {{ tick(); § if c({g.i()}) {{ break; }} § }}", g.stmts(e, 1, d - 1), g.stmts(e, 1, d - 1)), None
            opts += [(0.5, forl), (0.4, whil), (0.4, loopl)]
            if g.p["pos"]:
                opts.append((1.2 * g.p["pos"], lambda: (g.pos(env, d), None)))
            if g.p["noise"]:
                opts.append((2.5 * g.p["noise"], lambda: (J("sink(§);", g.noise(env, d)), None)))
                opts.append((0.8 * g.p["noise"], lambda: (g.item_noise(), None)))
            if g.p["inner"]:
                opts.append((3 * g.p["inner"], lambda: (g.inner(env, d - 1), None)))
        if env.slot and env.slot[1] in env.marks and d > 0:
            # a value of an enclosing annotation, perhaps not the innermost, put aside for its end
            def put():
                nm, m = env.slot
                g.feats.add("slot")
                x = m.mark(g, env.but(ret=None, tr=None, loops=(), slot=None), d - 1)
                f = g.rng.choice(["§", "§", "(|| §)()", "{ § }", "(move |_: u8| { return §; })(1)", "idf(%d, §)" % g.i(), "block_on(async { § })", "if c(%d) { § } else { § }" % g.i()])
                if "move" in f and ".peek()" in x.a:
                    f = "(|| §)()"  # not again in the next round of a loop
                xs = [x] if f.count("§") == 1 else [x, m.mark(g, env.but(ret=None, tr=None, loops=(), slot=None), 0)]
                return J(f"{nm} = Some({f});", *xs), None
            opts.append((3, put))
        if g.p["esc"] and g.can_esc(env):
            opts.append((3 * g.p["esc"], lambda: (J(f"if c({g.i()}) {{ § }}", g.semi(g.esc(env, d))), None)))
            opts.append((0.6 * g.p["esc"], lambda: (J(f"let Some({g.name('z')}) = opt({g.i()}) else {{ § }};", g.semi(g.esc(env, d))), None)))
        if env.tr is not None:
            opts.append((3 * g.p["q"], lambda: (J("sink(§);", g.q(env, d)), None)))

            def eq():
                n, p = g.leafno()
                env.tr.count += 1
                return X(f"if c({g.i()}) {{ Err::<u32, _>(leaf::<{n}, {p}>(1))?; }}",
                         f"if c({g.id}) {{ q!({env.tr.k['bx']}, Err::<u32, _>(leaf::<{n}, {p}>(1))); }}"), None
            opts.append((0.7 * g.p["q"], eq))
        return g.ch(opts)

    def hole(self, env, d):
        """A u32 expression: one with an annotation inside, or any."""
        if self.p["inner"] and self.flip(min(0.5, 2 * self.p["inner"])):
            return J("{ § § }", self.inner(env.but(ret=None, tr=None, loops=()), d - 1), self.u(env, 0))
        if d >= 0 and self.p["esc"] and self.can_esc(env) and self.flip(min(0.4, 1.5 * self.p["esc"])):
            f = self.rng.choice(["{ if c(%d) { § } § }", "if c(%d) { § } else { § }", "match n(%d, 3) { 0 => § _ => § }"]) % self.i()
            e = self.esc(env, d - 1)
            return J(f, e + "," if f[0] == "m" else self.semi(e), self.u(env, 0))
        return self.u(env, d - 1)

    def pos(self, env, d):
        """A statement with expressions in some syntactic position."""
        g = self
        g.feats.add("pos")
        k = g.rng.random()
        f = g.rng.choice(POS if k < .65 else POSL if k < .85 else POSC)
        env = env if k < .65 else env.but(loops=()) if k < .85 else Env()
        if "'{l}: {{" in f:  # no unlabelled break or continue in there
            env = env.but(loops=env.loops + ((None, "block", None),))
        v, w = g.name("p"), g.name("p")
        f = re.sub(r"\{i\}", lambda _: str(g.i()), f)
        f = f.replace("{v}", v).replace("{w}", w).replace("{l}", g.name("lb")).replace("{{", "{").replace("}}", "}")
        ps, xs = f.split("§"), []
        for a, b in zip(ps, ps[1:]):
            x = g.hole(env, d)
            free = re.search(r"[(\[]$|[^=!<>]= $|, $", a) and re.match(r"[)\];,]", b)
            xs.append(x if free and not x.a.startswith("-") or re.match(r"\w+\([^()]*\)$|\w+$", x.a) else J("(§)", x))
        return J(f, *xs)

    def semi(self, x):
        return x + ";" if self.flip(0.7) else x

    # -- inner annotated code (another level)
    def inner(self, env, d):
        self.feats.add("inner")
        ann = self.ann(env)
        x = self.inner_(ann, env, d)
        if ann.marker:
            self.free.append(ann.marker)
        return x

    def inner_(self, ann, env, d):
        k = self.rng.randrange(4)
        e = self.enter(env, ann)
        if k == 0:
            v = self.name("y")
            top = self.top(ann, e, max(d, 0), root=True)
            self.need(ann)
            at, ty = ann.typed(self, True)
            return J(f"§let {v}§ = §; sink({ann.k['use']}({self.i()}, {v}));", at, self.lty(ty), top)
        if k == 1:
            v, f = self.name("a"), self.name("f")
            ce = Env(ret=ann, marks=e.marks, vars=[v], inclosure=True)
            body = self.body(ann, ce, max(d, 0))
            self.need(ann)
            return J(f"§let {f} = |{v}: u32| {{ § }}; sink({ann.k['use']}({self.i()}, {f}(n({self.i()}, 4))));", ann.attr(), body)
        if k == 2:
            top = self.top(ann, e, max(d, 0), root=True, attrable=True)
            self.need(ann)
            return J(f"sink({ann.k['use']}({self.i()}, §§));", ann.attr(), top)
        # a nested function that is annotated itself
        f = self.name("g")
        ce = Env(ret=ann, marks=[ann])
        body = self.body(ann, ce, max(d, 0))
        self.need(ann)
        at, ty = ann.typed(self)
        return J(f"§fn {f}() -> § {{ § }} sink({ann.k['use']}({self.i()}, {f}()));", at, X(ty, ann.k["bt"]), body)

    # -- code of other scopes
    def noise(self, env, d):
        """A u32 expression whose control flow stays inside its own scope."""
        g = self
        g.feats.add("noise")
        k = g.rng.randrange(9)
        ce = Env(ret="u32", marks=[], vars=[])
        re_ = Env(ret=("res_noise",), marks=[])
        if k == 0:
            return J(f"(|w: u32| -> u32 {{ § if c({g.i()}) {{ return §; }} § w }})(§)", g.stmts(ce, 1, d - 1), g.u(ce, 0), g.stmts(ce, 1, d - 1), g.u(env, 0))
        if k == 1:
            return J(f"(|| -> Result<u32, u32> {{ § let w = ur({g.i()})?; § if c({g.i()}) {{ return Err(w); }} Ok(w + ur({g.i()})?) }})().unwrap_or(3)",
                     g.stmts(re_, 1, d - 1), g.stmts(re_, 1, d - 1))
        if k == 2:
            return J(f"block_on(async {{ § if c({g.i()}) {{ return §; }} § 6u32 }})", g.stmts(ce, 1, d - 1), g.u(ce, 0), g.stmts(ce, 1, d - 1))
        if k == 3:
            return J(f"block_on(async move {{ § let w = ur({g.i()})?; if c({g.i()}) {{ return Err(w); }} Ok::<u32, u32>(w + ur({g.i()})?) }}).unwrap_or(4)", g.stmts(re_, 1, d - 1))
        if k == 4:
            return J(f"block_on(async {{ let w = || {{ if c({g.i()}) {{ return 2; }} § }}; let z = async {{ return w(); }}; z.await + w() }})", g.u(ce, 0))
        if k == 5:
            return J(f"(0..3u32).map(|w| {{ if w == n({g.i()}, 3) {{ return 8; }} § }}).filter(|w| *w < 9).fold(0, |a, b| a * 3 + b)", g.u(ce, d - 1))
        if k == 6:
            dm = X("#[auto_enum] ", "") if g.p.get("stable") else X("")
            return J(f"{{ §fn inner(w: u32) -> u32 {{ if c({g.i()}) {{ return w; }} § }} inner(§) }}", dm, g.u(Env(ret="u32"), d - 1), g.u(env, 0))
        if k == 7:
            dm = X("#[auto_enum] ", "") if g.p.get("stable") else X("")  # (an item of its own: the outer dummy does not look into it)
            return J(f"{{ §fn inner() -> Result<u32, u32> {{ let w = ur({g.i()})?; § Ok(w + ur({g.i()})?) }} inner().unwrap_or(1) }}", dm, g.stmts(re_, 1, d - 1))
        return J(f"[1u32, 2, 3].iter().try_fold(0u32, |a, b| {{ if c({g.i()}) {{ return None; }} let w = opt({g.i()})?; Some(a + b + w) }}).unwrap_or(2)")

    def item_noise(self):
        g = self
        g.feats.add("noise")
        nm = g.name("It")
        k = g.rng.randrange(8)
        mk = g.rng.choice(["marker", "marker", g.anns[-1].name if g.anns else "marker"])
        own = f"macro_rules! {mk} {{ ($x:expr) => {{ $x + 1 }} }}"
        if k == 4:  # the macro of a nested item may have the name of the marker
            return X(f"const {nm.upper()}: u32 = {{ {own} {mk}!(4) }}; sink({nm.upper()});")
        if k == 5:
            return X(f"fn {nm.lower()}_(w: u32) -> u32 {{ {own} if c({g.i()}) {{ return {mk}!(w); }} {mk}!(3) }} sink({nm.lower()}_(2));")
        if k == 6:
            return X(f"static {nm.upper()}: [fn(u32) -> u32; 2] = [|w| {{ if c({g.i()}) {{ return w; }} loop {{ break 3 }} }}, {{ {own} |w| {mk}!(w) }}]; sink({nm.upper()}[n({g.i()}, 2) as usize](2));")
        if k == 7:
            return X(f"trait {nm} {{ const K: u32 = {{ {own} {mk}!(6) }}; fn m(&self) -> Option<u32> {{ {own} if c({g.i()}) {{ return None; }} let w = opt({g.i()})?; Some({mk}!(w)) }} }} impl {nm} for u8 {{}} sink(<u8 as {nm}>::m(&7).unwrap_or(<u8 as {nm}>::K));")
        if k == 0:
            return X(f"struct {nm}; impl {nm} {{ #[allow(unused)] fn m(&self) -> Result<u32, u32> {{ if c({g.i()}) {{ return Err(1); }} let w = ur({g.i()})?; Ok(w) }} }} sink({nm}.m().unwrap_or(2));")
        if k == 1:
            return X(f"fn {nm.lower()}_() -> Option<u32> {{ for w in 0..3 {{ if c({g.i()}) {{ return Some(w); }} }} let w = opt({g.i()})?; return Some(w); }} sink({nm.lower()}_().unwrap_or(5));")
        if k == 2:
            return X(f"const {nm.upper()}: u32 = {{ let mut w = 0; loop {{ if w > 4 {{ break w; }} w += 1; }} }}; sink({nm.upper()});")
        return X(f"macro_rules! {nm.lower()} {{ ($x:expr) => {{ (|| {{ if c({g.i()}) {{ return $x; }} $x + 1 }})() }} }} sink({nm.lower()}!(4u32));")

    # -- branches
    def div(self, env, d, block_ok=True):
        """A branch recognised as producing no value: (text, needs_block)."""
        g = self
        g.feats.add("div")
        m = g.rng.choice(["panic!", "std::panic!", "unreachable!", "core::unreachable!", "core::panic!", "std::unreachable!", "::std::panic!", "::core::unreachable!"])
        opts = [(1, lambda: X(f'{m}("p{g.i()}")')), (0.2, lambda: X(f"{m}()"))]
        if g.can_esc(env):
            opts.append((5, lambda: g.esc(env, d)))
        if env.ret in ("opt", "res") and g.flip(0.35):
            # leaves through `?`; the type of the expression is that of the other branches
            g.feats.add("none?")
            x = X({"opt": g.rng.choice(["None?", "std::option::Option::None?", "core::option::Option::None?", "::std::option::Option::None?", "::core::option::Option::None?"]),
                   "res": g.rng.choice(["Err", "std::result::Result::Err", "core::result::Result::Err", "::std::result::Result::Err", "::core::result::Result::Err"]) + f"({g.rng.randrange(50, 60)}u32)?"}[env.ret])
            k = g.rng.randrange(6)
            return J(["{ § }", "(§)", "unsafe { § }", "§", "§", "§"][k], x) if k or d <= 0 else J("{ § § }", g.stmts(env, 1, d - 1), x)
        x = g.ch(opts)
        k = g.rng.randrange(9)
        if k == 0:
            return J("{ § }", x)
        if k == 1:
            return J("{ § §; }", g.stmts(env, 1, d - 1), x)
        if k == 2:
            return J("(§)", x)
        if k == 3 and d > 0:
            return J(f"match n({g.i()}, 2) {{ 0 => §, _ => § }}", x, g.div(env, d - 1))
        if k == 4 and block_ok:
            return J(f"{{ let _u: u32 = §; }}", x)
        if k == 5:
            z = g.name("zz")
            its = g.rng.sample([f"fn {z}() {{}}", f"const {z.upper()}: u32 = 3;", f"static {z.upper()}S: u32 = 3;", f"use std::mem as {z}_u;", f"struct {z.upper()}T;", f"type {z.upper()}A = u8;", f"trait {z.upper()}R {{}}",
                                f"#[derive(Clone)] enum {z.upper()}E {{ A }}", f"mod {z}_m {{}}", f"macro_rules! {z}_r {{ () => {{}} }}", f"impl Q{z} {{}} struct Q{z};", f"extern crate std as {z}_c;", f"union {z.upper()}N {{ a: u8 }}"], g.rng.choice([1, 1, 1, 2]))
            return J(f"{{ §; {' '.join(its)} }}", x)
        if k == 6:
            return J("unsafe { § }", x)
        return x

    def branch(self, ann, env, d):
        """(kind, stmts, attr on the tail, tail)"""
        g = self
        before = g.bst(env, d)
        env = g.after
        opts = [(4, lambda: ("leaf", before, "", ann.wrap(g.leaf(env, d))))]
        if g.p["div"]:
            opts.append((5 * g.p["div"], lambda: ("div", before, "", g.div(env, d))))
        if g.p["never"]:
            opts.append((2 * g.p["never"], lambda: ("never", before, "#[never] ", g.nev(ann, env, d))))
        if g.p["nested"] and d > 0:
            opts.append((6 * g.p["nested"], lambda: ("nested", before, "#[nested] ", g.nest(ann, env, d - 1))))

            def ln():
                g.feats.add("nested")
                v = g.name("y")
                x = g.top(ann, env, d - 1, nested=True)
                if g.flip(0.15) and g.can_esc(env):
                    x = J("#N#let §@_ = (§) else { § }; ", X(v), x, g.semi(g.esc(env, 0)))
                elif g.flip(0.15):
                    x = J(f"#N#let mut {v} = §; ", x)
                else:
                    x = J(f"#N#let {v} = §; ", x)
                s = before + x + g.bst(env, d - 1)
                return ("nlet", s, "", X(v))
            opts.append((1.5 * g.p["nested"], ln))
        if g.p["marker"] and ann in env.marks:
            opts.append((5 * g.p["marker"], lambda: ("marker", before, "", ann.mark(g, env, d))))
            opts.append((0.7 * g.p["marker"], lambda: ("marker", before, "", J(f"§.idm({g.i()})", ann.mark(g, env, d)) if g.flip(0.5) else J("(§)", ann.mark(g, env, d)))))
        if g.p["inner"] and d > 0:
            def inn():
                g.feats.add("inner")
                a2 = g.ann(env, K=ann.K)
                v = g.name("y")
                s = before + J(f"§let {v} = §; ", a2.attr(), g.top(a2, g.enter(env, a2), d - 1, root=True))
                g.need(a2)
                if a2.marker:
                    g.free.append(a2.marker)
                return ("leaf", s, "", ann.wrap(X(v), a2.bound + 8))
            opts.append((3 * g.p["inner"], inn))
        return g.ch(opts)

    def nest(self, ann, env, d):
        self.feats.add("nested")
        return self.top(ann, env, d, nested=True)

    def nev(self, ann, env, d):
        """Something explicitly marked #[never]."""
        g = self
        g.feats.add("never")
        if ann in env.marks and g.flip(0.4):
            return J(f"pick({g.i()}, || §, || §)", ann.mark(g, Env(), 0), ann.mark(g, Env(), 0))
        k = g.rng.randrange(3)
        if k == 0:
            return J(f'loop {{ tick(); § if c({g.i()}) {{ panic!("n{g.i()}"); }} }}', g.stmts(env.but(loops=env.loops + ((None, "loop", "nobreak"),)), 1, d - 1))
        if k == 1:
            return J(f'if c({g.i()}) {{ panic!("n{g.i()}") }} else {{ § panic!("m{g.i()}") }}', g.stmts(env, 1, d - 1))
        return X(f'std::panic::panic_any(String::from("n{g.i()}"))')

    def bst(self, env, d):
        return self.stmts(env, 0.4 if self.flip(0.5) else 0, max(0, d - 1))

    def arm(self, pat, ann, env, d):
        kind, s, attr, tail = self.branch(ann, env, d)
        self.vals += kind in ("leaf", "marker")
        s = X(s.a.replace("#N#", "#[nested] "), s.r.replace("#N#", ""))
        extra = X("#[allow(unused)] ") if self.flip(0.05) else X("")
        if s.a.strip() == "" and self.flip(0.8):
            if attr and self.flip(0.5):
                return J("§§§ => §,", extra, X(attr, ""), pat, tail)
            return J("§§ => §§,", extra, pat, X(attr, ""), tail)
        if attr == "#[never] ":
            return J("§§§ => { § § }", extra, X(attr, ""), pat, s, tail)
        return J("§§ => { § §§ }§", extra, pat, s, X(attr, ""), tail, self.rng.choice(["", ","]))

    def blk(self, ann, env, d):
        kind, s, attr, tail = self.branch(ann, env, d)
        self.vals += kind in ("leaf", "marker")
        s = X(s.a.replace("#N#", "#[nested] "), s.r.replace("#N#", ""))
        return J("{ § §§ }", s, X(attr, ""), tail)

    def match(self, ann, env, d):
        g = self
        k = g.rng.randrange(5)
        if k <= 1:
            m = g.rng.randrange(2, 5)
            if m == 4 and g.flip(0.3):
                arms = [g.arm("0 | 1", ann, env, d), g.arm(f"2 if c({g.i()})", ann, env, d)]
            else:
                arms = [g.arm(str(i), ann, env, d) for i in range(m - 1)]
            arms.append(g.arm("_", ann, env, d))
            scr = X(f"n({g.i()}, {m})") if g.flip(0.6) or not g.can_esc(env) else J("(§) % 4", g.u(env, 1))
            return J("match § { § }", scr, cat(arms))
        if k == 2:
            v = g.name("m")
            e = env.but(vars=list(env.vars) + [v])
            arms = [] if g.flip(0.3) else [g.arm(f"Some({v}) if c({g.i()})", ann, e, d)]
            arms += [g.arm(f"Some({v})", ann, e, d), g.arm("None", ann, env, d)]
            return J(f"match opt({g.i()}) {{ § }}", cat(arms))
        if k == 3:
            v = g.name("m")
            e = env.but(vars=list(env.vars) + [v])
            arms = [g.arm("(true, 0)", ann, env, d), g.arm(f"(false, {v}) | (true, {v}) if c({g.i()})", ann, e, d), g.arm(f"(_, {v} @ 1..=3)", ann, e, d), g.arm("_", ann, env, d)]
            return J(f"match (c({g.i()}), n({g.i()}, 4)) {{ § }}", cat(arms))
        return J(f"match {{ § c({g.i()}) }} {{ § § }}", g.stmts(env, 1, 0), g.arm("true", ann, env, d), g.arm("false", ann, env, d))

    def if_(self, ann, env, d):
        g = self
        out = X("")
        for j in range(g.rng.choice([1, 1, 2, 3])):
            e = env
            if g.flip(0.3):
                v = g.name("m")
                cond = f"let Some({v}) = opt({g.i()})"
                e = env.but(vars=list(env.vars) + [v])
            else:
                cond = f"c({g.i()})"
            out = out + J(f"if {cond} § else ", g.blk(ann, e, d))
        return out + g.blk(ann, env, d)

    def loop(self, ann, env, d):
        g = self
        g.feats.add("loop")
        lab = g.rng.choice(g.p["labels"]) if g.flip(0.6) else None
        e = env.but(loops=env.loops + ((lab, "loop", ann),))
        L = f" {lab}" if lab and g.flip(0.5) else ""
        body = [g.stmts(e, 1.2, d)]
        if lab and d > 0 and g.flip(0.6):
            # leave through one or two inner loops
            ilab = g.rng.choice(g.p["labels"]) if g.flip(0.5) else None
            kind, hd = g.rng.choice([("for", f"for _ in 0..n({g.i()}, 3)"), ("while", f"while c({g.i()})"), ("loop", "loop")])
            ie = e.but(loops=e.loops + ((ilab, kind, "unit"),))
            il = f"{ilab}: " if ilab else ""
            stop = f"if c({g.i()}) {{ break; }}" if kind == "loop" else ""
            if ilab != lab:
                body.append(J(f"{il}{hd} {{ § if c({g.i()}) {{ § }} {stop} § }}", g.stmts(ie, 1, d - 1), g.brk(ie, ann, f" {lab}", d - 1), g.stmts(ie, 1, d - 1)))
            else:
                body.append(J(f"{il}{hd} {{ § if c({g.i()}) {{ break{g.rng.choice(['', ' ' + lab])}; }} {stop} § }}", g.stmts(ie, 1, d - 1), g.stmts(ie, 1, d - 1)))
            if g.flip(0.2):
                bl = g.rng.choice([x for x in g.p["labels"] if x != lab])
                be = e.but(loops=e.loops + ((bl, "block", "unit"),))
                body.append(J(f"{bl}: {{ if c({g.i()}) {{ break {bl}; }} § if c({g.i()}) {{ §; }} }}", g.stmts(be, 1, d - 1), g.brk(be, ann, f" {lab}", 0)))
        if g.flip(0.3):
            # the head of a `for` belongs to the loop around it, that of a `while` does not
            k = g.rng.randrange(4 if lab else 3)
            if k < 3:
                ilab = g.rng.choice(g.p["labels"]) if g.flip(0.5) else None
                hd = ["0..({{ if c({i}) {{ § }} n({i}, 3) }})", "if c({i}) {{ § }} else {{ 0..n({i}, 3) }}", "(0..n({i}, 3)).map(|x| x).take({{ if c({i}) {{ § }} 2 }})"][k]
                hd = re.sub(r"\{i\}", lambda _: str(g.i()), hd).replace("{{", "{").replace("}}", "}")
                body.append(J(f"{ilab + ': ' if ilab else ''}for _ in {hd} {{ § }}", g.semi(g.brk(e, ann, L, d - 1)), g.stmts(e.but(loops=e.loops + ((ilab, "for", "unit"),)), 1, d - 1)))
            else:
                body.append(J(f"while {{ tick(); if c({g.i()}) {{ § }} c({g.i()}) }} {{ § }}", g.semi(g.brk(e.but(loops=e.loops + ((None, "block", None),)), ann, f" {lab}", d - 1)), g.stmts(e.but(loops=e.loops + ((None, "while", "unit"),)), 1, d - 1)))
        body.append(J(f"if c({g.i()}) {{ § }}", g.semi(g.brk(e, ann, L, d))))
        body.append(g.stmts(e, 0.8, d - 1))
        if g.flip(0.6):
            body.append(g.brk(e, ann, L, d) + ";")
        return J(f"{lab + ': ' if lab else ''}loop {{ tick(); § }}", cat(body))

    def some(self, f, *a):
        """Like f, but at least one branch delivers a value (its type is not `!`)."""
        v = self.vals
        x = f(*a)
        if self.vals == v:
            raise Retry
        return x

    def top(self, ann, env, d, root=False, attrable=False, nested=False):
        """An expression in searched position."""
        g = self
        d = max(d, 0)
        opts = [(4, lambda: g.match(ann, env, d)), (3, lambda: g.if_(ann, env, d))]
        if g.p["loop"]:
            opts.append((8 * g.p["loop"], lambda: g.loop(ann, env, d)))
        if d > 0:
            opts += [
                (0.8, lambda: J("{ § § }", g.stmts(env, 1, d - 1), g.top(ann, g.after, d - 1))),
                (0.4, lambda: J("unsafe { § § }", g.stmts(env, 1, d - 1), g.top(ann, g.after, d - 1))),
                (0.6, lambda: J("(§)", g.top(ann, env, d - 1))),
                (0.8, lambda: J(f"(§).idm({g.i()})", g.some(g.top, ann, env, d - 1))),
                (0.4, lambda: J(f"{{ § § }}.idm({g.i()})", g.stmts(env, 1, d - 1), g.some(g.top, ann, env, d - 1))),
                (0.4, lambda: J(f"§.idm({g.i()}).idm({g.i()})", g.some(g.match, ann, env, d - 1))),
            ]
        return g.attd(g.ch(opts), 0.06)

    def body(self, ann, env, d):
        """The body of an annotated function or closure (statements and tail)."""
        g = self
        s = g.stmts(env, None, d)
        if isinstance(env.ret, Ann) and g.p["ret"] and g.flip(g.p["ret"]):
            s = s + " " + J(f"if c({g.i()}) {{ § }}", g.semi(g.esc_ret(env, d))) + " " + g.stmts(env, None, d)
        if isinstance(env.ret, Ann) and g.flip(0.08 if g.p["ret"] else 0):
            # no tail expression at all
            while ann.count < 2:
                s = s + " " + J(f"if c({g.i()}) {{ § }}", g.semi(g.esc_ret(env, d)))
            return s + " " + J("return §;", g.value(ann, env, d))
        return s + " " + g.top(ann, g.after, d)

    def lty(self, ty):
        return X(": " + ty, "") if self.p.get("typed") else X("")

    def need(self, ann):
        if ann.count < 2:
            raise Retry

    # -- whole programs
    def header(self, ret):
        """A function header in one of several spellings; returns (before, call prefix)."""
        g = self
        k = g.rng.randrange(10) if g.flip(g.p["itemhdr"]) else 0
        if k == 0:
            return J("fn f() -> § ", ret), "f()", None
        if k == 1:
            return J("pub(crate) unsafe fn f() -> § ", ret), "unsafe { f() }", None
        if k == 2:
            return J("/// doc\n#[inline] #[allow(unused)] pub fn f(_a: u32, (_b, _c): (u8, &str)) -> § ", ret), 'f(1, (2, "x"))', None
        if k == 3:
            return J("fn f<G: Clone + 'static, const Q: usize>(_g: [G; Q]) -> § where G: PartialEq ", ret), "f([1u8, 2])", None
        if k == 4:
            return J("fn f(&self) -> § ", ret), "S(3).f()", "impl"
        if k == 5:
            return J("fn f(self: Box<Self>) -> § ", ret), "Box::new(S(4)).f()", "impl"
        if k == 6:
            return J("pub fn f(mut _k: u32) -> § ", ret), "S::f(1)", "impl"
        if k == 7:
            g.feats.add("async")
            return J("async fn f() -> § ", ret), "block_on(f())", None
        if k == 8:
            return J("fn f<'a>(&'a self, _: &'a u32) -> § ", ret), "S(5).f(&1)", "trait"
        return J("extern \"Rust\" fn f() -> § ", ret), "f()", None

    def fnitem(self, attr, ret, body):
        h, call, imp = self.header(ret)
        f = J("§§{ § }", attr, h, body)
        if imp:
            tr = J("trait Tr { fn f<'a>(&'a self, _: &'a u32) -> §; } ", ret) if imp == "trait" else X("")
            f = J("§struct S(u32); impl § S { § }", tr, "Tr for" if imp == "trait" else "", f)
        return f, call

    def program(self):
        """(X items, X run body)"""
        g = self
        kinds = g.p["kinds"]
        kind = g.rng.choices(list(kinds), list(kinds.values()))[0]
        g.kind = kind
        d = g.p["depth"]
        stable = g.p.get("stable") or g.flip(0.5)
        dummy = X("#[auto_enum] " if stable else "", "")
        if kind == "fn":
            ann = g.ann()
            chain = ann.K == "I" and g.flip(g.p["chain"])
            env = Env(ret=None if chain or not g.p["ret"] else ann, marks=[ann])
            if not chain:
                body = g.body(ann, env, d)
            else:
                s = g.stmts(env, None, d)
                if g.flip(0.5):
                    tl = g.top(ann, env, d)
                    # (newer standard libraries have Filter::count ask for the size hint, which a Box<dyn Iterator> does not pass on)
                    ad = ".map(|w| tv(900, w))" + (".map(|w| w ^ 5)" if g.p.get("stable") else ".filter(|w| w % 5 != 3)")
                    body = s + " " + X(f"({tl.a}){ad}", f"bi(({tl.r}){ad})")
                else:
                    m = g.match(ann, env, d)
                    body = s + " " + X(f"{m.a}.skip(1).map(|w| tv(901, w))", f"bi({m.r}.skip(1).map(|w| tv(901, w)))")
            g.need(ann)
            at, ty = ann.typed(g)
            f, call = g.fnitem(at, X(ty, ann.k["bt"]), body)
            return f, X(f"{ann.k['use']}(0, {call})")
        if kind == "expr":
            ann = g.ann()
            env = Env(marks=[ann])
            s = g.stmts(Env(), None, d)
            tl = g.top(ann, env, d)
            g.need(ann)
            f, call = g.fnitem(dummy, X(ann.k["ret"], ann.k["bt"]), J("§ §§", s, ann.attr(), tl))
            return f, X(f"{ann.k['use']}(0, {call})")
        if kind in ("let", "arg", "letloop", "mlet", "mstmt"):
            fr = g.rng.choice(["u32", "u32", "opt", "res"])
            rt, ok, un = {"u32": ("u32", "§", ""), "opt": ("Option<u32>", "Some(§)", ".unwrap_or(66)"),
                          "res": ("Result<u32, u32>", "Ok(§)", ".unwrap_or_else(|e| 70 + e)")}[fr]
            ann = g.ann()
            env = Env(ret=fr)
            ienv = env.but(marks=[ann])
            use = ann.k["use"]
            if kind == "let":
                top = g.top(ann, ienv, d)
                g.need(ann)
                at, ty = ann.typed(g, True)
                pat = g.rng.choice(["mut r0", "r0", "r0", "r0 @ _", "(r0)"])
                if g.flip(0.12):
                    mid = J(f"§let {pat}§ = (§) else {{ § }}; § let r1 = {use}({g.i()}, r0);", at, g.lty(ty), top, g.semi(g.esc(env, 1)), g.stmts(env, 1, 1))
                else:
                    mid = J(f"§let {pat}§ = §; § let r1 = {use}({g.i()}, r0);", at, g.lty(ty), top, g.stmts(env, 1, 1))
                body = J("§ § " + ok, g.stmts(env, None, d), mid, X("r1"))
            elif kind == "arg":
                top = g.top(ann, ienv, d, attrable=True)
                g.need(ann)
                body = J("§ " + ok, g.stmts(env, None, d), J(f"{use}({g.u(env, 0).a}, §§)", ann.attr(), top))
            elif kind == "letloop":
                lab = g.rng.choice(g.p["labels"]) if g.flip(0.6) else None
                le = env.but(loops=((lab, "loop", "u32"),))
                top = g.top(ann, le.but(marks=[ann]), d)
                g.need(ann)
                body = J(f"let r0 = {lab + ': ' if lab else ''}loop {{ tick(); § §let r1 = §; § let r2 = {use}({g.i()}, r1); if c({g.i()}) {{ break r2; }} }}; " + ok,
                         g.stmts(le, 1, d), ann.attr(), top, g.stmts(le, 1, 1), X("r0"))
            elif kind == "mlet":
                ex = g.markexpr(ann, ienv, d)
                g.need(ann)
                at, ty = ann.typed(g, True)
                body = J(f"§ §let r0§ = §; let r1 = {use}({g.i()}, r0); " + ok, g.stmts(env, None, d), at, g.lty(ty), ex, X("r1"))
            else:
                ex = g.markexpr(ann, ienv, d)
                g.need(ann)
                body = J(f"§ §sink({use}({g.i()}, §)); " + ok, g.stmts(env, None, d), ann.attr(), ex, X("8"))
            f, call = g.fnitem(dummy, X(rt), body)
            return f, X(call + un)
        if kind in ("clet", "cexpr"):
            ann = g.ann()
            v = g.name("a")
            ce = Env(ret=ann if g.p["ret"] else None, marks=[ann], vars=[v], inclosure=True)
            b = g.body(ann, ce, d) if g.flip(0.7) else None
            b = J("{ § }", b) if b is not None else g.top(ann, ce, d)
            g.need(ann)
            mv = g.rng.choice(["", "move "])
            use = ann.k["use"]
            on = ("", "")
            if g.flip(0.12):
                g.feats.add("async")
                mv, on = g.rng.choice(["async ", "async move "]), ("block_on(", ")")
            if kind == "clet":
                mid = J(f"§let f0 = {mv}|{v}: u32| §;", ann.attr(), b)
            else:
                mid = J(f"let f0 = §{mv}|{v}: u32| §;", ann.attr(), b)
            body = J(f"§ § let r = {use}({g.i()}, {on[0]}f0(n({g.i()}, 4)){on[1]}); r.wrapping_add({use}({g.i()}, {on[0]}f0(2){on[1]}))", g.stmts(Env(), 1, 1), mid)
            f, call = g.fnitem(dummy, X("u32"), body)
            return f, X(call)
        if kind == "mfn":
            ann = g.ann()
            env = Env(ret=ann if g.p["ret"] else None, marks=[ann])
            s = g.stmts(env, None, d)
            ex = g.markexpr(ann, env, d)
            g.need(ann)
            at, ty = ann.typed(g)
            f, call = g.fnitem(at, X(ty, ann.k["bt"]), J("§ §", s, ex))
            return f, X(f"{ann.k['use']}(0, {call})")
        if kind in ("tfn", "tclet", "tcexpr"):
            ann = g.ann(K=g.rng.choice([k for k in g.p["ks"] if k in ("D", "DD")] or ["DD"]))
            over = dict(g.p)
            g.p = dict(g.p, q=max(g.p["q"], 0.6))
            v = g.name("a")
            env = Env(ret=("try", ann), tr=ann, marks=[ann], vars=[v] if kind != "tfn" else [], inclosure=kind != "tfn")
            body = J("§ sink(§); § sink(§);", g.stmts(env, 2, d), g.q(env, d), g.stmts(env, 2, d), g.q(env, d))
            tail = g.ch([(2, lambda: J("Ok(§)", g.u(env, d))),
                         (2, lambda: J("Ok(§)", g.q(env, d))),
                         (1, lambda: J(f"if c({g.i()}) {{ § }} else {{ Ok(§) }}", self.errq(ann, env, d), g.u(env, 1))),
                         (1, lambda: J(f"match n({g.i()}, 3) {{ 0 => §, 1 => Ok(§), _ => {{ § return Ok(3); }} }}", self.errq(ann, env, d), g.q(env, 1), g.stmts(env, 1, 1))),
                         (1 * (g.p["marker"] > 0), lambda: J("Err(§)", ann.mark(g, env, 0)))])
            body = J("§ §", body, tail)
            if g.flip(0.25):
                ann.count, ann.bound = 0, 0
                g.anns = g.anns[:1]
                body = g.two(env, d)
            g.need(ann)
            use = "use_rd" if ann.K == "D" else "use_r"
            g.p = over
            if kind == "tfn":
                R = g.rng.choice(["Result", "Result", "core::result::Result", "std::result::Result"])
                at, ty = ann.typed(g)
                f, call = g.fnitem(at, X(f"{R}<u32, {ty}>", f"Result<u32, {ann.k['bt']}>"), body)
                return f, X(f"{use}(0, {call})")
            on = ("", "", "")
            if g.flip(0.1):
                g.feats.add("async")
                on = ("async ", "block_on(", ")")
            if kind == "tclet":
                mid = J(f"§let f0 = {on[0]}|{v}: u32| {{ § }};", ann.attr(), body)
            else:
                mid = J(f"let f0 = §{on[0]}|{v}: u32| {{ § }};", ann.attr(), body)
            f, call = g.fnitem(dummy, X("u32"), J(f"§ § let r = {use}({g.i()}, {on[1]}f0(n({g.i()}, 4)){on[2]}); r.wrapping_add({use}({g.i()}, {on[1]}f0(1){on[2]}))", g.stmts(Env(), 1, 1), mid))
            return f, X(call)
        raise AssertionError(kind)

    def errq(self, ann, env, d):
        """`Err(leaf)?` in tail position."""
        ann.count += 1
        n, p = self.leafno()
        self.feats.add("errq")
        return X(f"Err(leaf::<{n}, {p}>(2))?", f"q!({ann.k['bx']}, Err(leaf::<{n}, {p}>(2)))")

    def markexpr(self, ann, env, d):
        """An expression that is not searched, but delivers markers."""
        g = self
        cl = Env(marks=[m for m in env.marks], inclosure=True)

        def mk(e, dd=1):
            return ann.mark(g, e, dd)

        def inblock(e):
            return J("{ § § }", g.stmts(e, 1, 1), mk(e))
        k = g.rng.randrange(9)
        if d > 0 and g.flip(0.3):
            nm = g.name("slot")
            e = env.but(slot=(nm, ann), loops=())
            over, g.p = g.p, dict(g.p, inner=max(g.p["inner"], 0.5))
            body = g.stmts(e, 3, 2)
            g.p = over
            return J(f"{{ let mut {nm} = None; § {nm}.unwrap_or_else(|| §) }}", body, mk(cl))
        if k == 0:
            return J(f"pick({g.i()}, || §, || §)", mk(cl), inblock(cl))
        if k == 1:
            return J(f"arr({g.i()}, [§, §])", mk(env), mk(env))
        if k == 2:
            return J(f"Some(§).filter(|_| c({g.i()})).unwrap_or_else(|| §)", mk(env), mk(cl))
        if k == 3:
            return J(f"idf({g.i()}, if c({g.i()}) {{ § § }} else {{ § }})", g.stmts(env, 1, 1), mk(env), mk(env))
        if k == 4:
            return J(f"idf({g.i()}, match n({g.i()}, 3) {{ 0 => §, 1 => {{ § }} _ => § }})", mk(env), mk(env), mk(env))
        if k == 5:
            return J(f"block_on(async {{ if c({g.i()}) {{ § }} else {{ § }} }})", mk(cl), mk(cl))
        if k == 6:
            return J(f"(move || {{ § if c({g.i()}) {{ return §; }} § }})()", g.stmts(Env(marks=cl.marks), 1, 1), mk(cl), mk(cl))
        if k == 7:
            return J(f"{{ let z0 = (§, c({g.i()}), §); if z0.1 {{ #N#z0.0 }} else {{ #N#z0.2 }} }}", mk(env), mk(env)) if False else \
                J(f"pick2({g.i()}, [§, §])", mk(env), mk(env))
        return J(f"std::iter::once_with(|| §).chain(std::iter::once_with(|| §)).nth(n({g.i()}, 2) as usize).unwrap()", mk(cl), mk(cl))


def sized(g, x):
    return X(re.sub(r"(use_\w+)@(\d+)@\(", lambda m: f"{m[1]}_s({g.anns[int(m[2])].bound}, ", x.a), re.sub(r"(use_\w+)@\d+@\(", r"\1(", x.r))


def generate(seed, profile, want=None, over=None, maxlen=9000):
    """A program with (at least one of) the wanted features; deterministic in `seed`."""
    for attempt in range(400):
        g = Gen(f"{seed}/{attempt}", profile, over)
        try:
            items, run = g.program()
        except (Retry, RecursionError):
            continue
        if len(items.a) > maxlen:
            continue
        if want and not (g.feats & want):
            continue
        if g.p.get("size"):
            items, run = sized(g, items), sized(g, run)
        return g, items, run
    raise RuntimeError("generator produced nothing")


def module(name, items, run):
    """Rust source of one program: `mod <name> { mod a; mod r; }` on known lines."""
    return (f"pub mod {name} {{\n"
            f"pub mod a {{ use auto_enums::auto_enum; use rt::*; use std::{{option, result, fmt, fmt::Debug, fmt::Display, future::Future}};\n{items.a}\npub fn run() -> u32 {{ {run.a} }} }}\n"
            f"pub mod r {{ use rt::*; use std::{{option, result}};\n{items.r}\npub fn run() -> u32 {{ {run.r} }} }}\n}}\n")
