"""C27: source positions and diagnostics of annotated code."""
import os, random, re
from .. import core, diff, gen

PROFILES = ("C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C23")
WARN = "#![feature(stmt_expr_attributes, proc_macro_hygiene, try_blocks, coroutines, never_type)]\n"


def programs(c, tag, count, shards):
    """[(name, module, edition)] by shard."""
    parts = [[] for _ in range(shards)]
    for k in range(count):
        prof = PROFILES[k % len(PROFILES)]
        e24 = (k % shards) % 2 == 1
        g, items, run = gen.generate(f"{c.prop}/{c.seed}/{tag}/{k}", prof, None, dict(e24=e24))
        parts[k % shards].append((f"p{k}", gen.module(f"p{k}", items, run), False))
    return parts


def token(line, col):
    """What stands at a position: a name, its path and generics, the call and its number."""
    t = line[col - 1:col + 60]
    m = re.match(r"[\w:]+(::<[^>]*>)?!?\(?\d*", t)
    return m.group() if m else t[:12]


def locations(c, rustc, count, runs):
    """Every event of an annotated program comes from the same source text as in its boxed twin."""
    out = c.path("librtloc.rlib")
    ok, d = rustc(os.path.join(core.ROOT, "rt", "rt.rs"), out, crate_type="rlib", cfgs=["loc"], extra=["--crate-name", "rt"])
    if not ok:
        raise core.Inconclusive("runtime does not compile: " + core.errors(d)[0]["rendered"])
    ext = dict(rustc.externs, rt=out)

    def shard(t):
        idx, progs = t
        src, where = diff.main_src(progs)
        f = c.write(f"loc{idx}.rs", src)
        exe = c.path(f"loc{idx}.exe")
        ok, d = rustc(f, exe, edition="2024" if idx % 2 else "2021", externs=ext)
        if not ok:
            return None
        rc, so, se = core.run_limited([exe, str(c.seed), str(runs)], 200)
        if "DONE" not in so:
            return None
        lines = src.split("\n")
        bad, st, seen = [], [0, 0, 0, 0], set()
        for l in so.splitlines():
            w = l.split(" ")
            if w[0] == "STAT":
                st = [st[0] + int(w[2]), st[1] + int(w[3]), st[2] + int(w[4]), st[3]]
            elif w[0] == "LOC":
                _, name, kind, id_, f1, l1, c1, f2, l2, c2 = w
                own1, own2 = f1 == f, f2 == f
                if not own1 and not own2:
                    continue
                st[3] += 1
                t1 = token(lines[int(l1) - 1], int(c1)) if own1 else f1
                t2 = token(lines[int(l2) - 1], int(c2)) if own2 else f2
                lo, hi = where[name]
                if t1 != t2 or not lo <= int(l2) <= hi:
                    if name not in seen:
                        seen.add(name)
                        bad.append((name, f"{name}: an event (kind {kind}, number {id_}) of the annotated program is reported at line {l2} column {c2} (`{t2}`); its source is `{t1}`", next(s for n, s, _ in progs if n == name)))
        return bad, st
    odd = 0
    tot = [0, 0, 0, 0]
    c.samples.append({"program": programs(c, "loc", 9, 1)[0][0][1][:1500]})
    res = core.pmap(shard, list(enumerate(programs(c, "loc", count, core.JOBS))))
    if not any(res):
        raise core.Inconclusive("no shard of the location stage could be run")
    for r in res:
        if r is None:
            odd += 1
            continue
        for name, what, src in r[0]:
            c.violation(what, {"program.rs": src})
        tot = [a + b for a, b in zip(tot, r[1])]
    c.evaluations += tot[0]
    c.ndistinct += tot[3]
    c.extra.update(events_located=tot[0], distinct_positions_compared=tot[3], runs_that_differ=tot[2], location_shards_not_run=odd)


def halves(src, where):
    lines = src.split("\n")
    return lines, {n: (lo, next(i for i in range(lo, hi + 1) if "pub mod r {" in lines[i - 1]), hi) for n, (lo, hi) in where.items()}


def reports(d, f, lines, hv, level, secondary=False):
    """{(program, half): [(code, text of the place, rendered)]}"""
    got = {}
    for w in d:
        if w.get("level") != level or not w.get("code"):
            continue
        for s in w["spans"]:
            if not (s["is_primary"] or secondary) or s["file_name"] != f:
                continue
            for n, (lo, mid, hi) in hv.items():
                if lo <= s["line_start"] <= hi:
                    line = lines[s["line_start"] - 1]
                    txt = line[s["column_start"] - 1:s["column_end"] - 1] if s["line_start"] == s["line_end"] else "..."
                    if w["code"]["code"] in STYLE:
                        before = min((line[:x["column_start"] - 1].rstrip() for x in w["spans"] if x["line_start"] == s["line_start"]), key=len)
                        if w["code"]["code"] == "unused_parens" or not re.search(r"(\)|\belse|\bSome\(\w+\) = \w+\(\w+\))$", before):
                            continue
                    got.setdefault((n, "a" if s["line_start"] < mid else "r"), []).append((w["code"]["code"], txt, w["rendered"]))
    return got


# lints on redundant parentheses and braces: a wrapped value stands in other surroundings than the value itself,
# so only the braces of if branches, which the user cannot drop, are judged
STYLE = {"unused_parens", "unused_braces"}
# the user's own lints, which the twin's boxing hides
OWN = {"unused_imports", "break_with_label_and_loop", "unused_labels"}


def warnings(c, rustc, count):
    """The annotated half is given no warning that its boxed twin does not get."""
    def shard(t):
        idx, progs = t
        src, where = diff.main_src(progs, head=WARN)
        f = c.write(f"warn{idx}.rs", src)
        ok, d = rustc(f, c.path(f"warn{idx}.rmeta"), edition="2024" if idx % 2 else "2021", lints="warn", extra=["--emit=metadata", "-Wunused", "-Wrust-2018-idioms", "-Wlet-underscore"])
        lines, hv = halves(src, where)
        return ok, reports(d, f, lines, hv, "warning"), progs
    seen, kinds = set(), {}
    for ok, got, progs in core.pmap(shard, list(enumerate(programs(c, "warn", count, core.JOBS)))):
        if not ok:
            c.extra["warning_shards_not_compiled"] = c.extra.get("warning_shards_not_compiled", 0) + 1
            continue
        for n, src, _ in progs:
            def count_(half):
                t = {}
                for x in got.get((n, half), []):
                    t.setdefault(x[0], []).append(x)
                return t
            ref = count_("r")
            for code, xs in count_("a").items():
                kinds[code] = kinds.get(code, 0) + len(xs)
                if code in OWN or len(xs) <= len(ref.get(code, [])):
                    continue
                for _, _, rendered in xs:
                    if code not in seen:
                        seen.add(code)
                        c.violation(f"a warning [{code}] is added by the annotation:\n{rendered[:1500]}", {"program.rs": src})
        c.evaluations += len(progs)
    c.extra["warnings_by_kind"] = kinds


def errors(c, rustc, count, how):
    """A mistake in the user's own code is reported where it is."""
    rng = random.Random(f"{c.prop}:{c.seed}:{how}")
    def spoil(m, rng):
        a, r = m.split("pub mod r {", 1)
        ids = [x for x in re.findall(r"(?<![\w:.])n\((\d+), \d+\)", a) if len(re.findall(rf"(?<![\w:.])n\({x}, \d+\)", a)) == 1]
        if not ids:
            return None
        k = rng.choice(ids)
        new = (lambda x: f"nope_{k}({k}, 3)") if how == "name" else (lambda x: f"\"bad_{k}\"")
        pat = rf"(?<![\w:.])n\({k}, \d+\)"
        return re.sub(pat, new, a) + "pub mod r {" + re.sub(pat, new, r), k

    def shard(t):
        idx, progs = t
        rng = random.Random(f"{c.prop}:{c.seed}:{how}:{idx}")
        ps, key = [], {}
        for n, m, na in progs:
            x = spoil(m, rng)
            if x:
                ps.append((n, x[0], na))
                key[n] = x[1]
        src, where = diff.main_src(ps)
        f = c.write(f"err{how}{idx}.rs", src)
        ok, d = rustc(f, c.path(f"err{how}{idx}.rmeta"), edition="2024" if idx % 2 else "2021", extra=["--emit=metadata"])
        lines, hv = halves(src, where)
        return reports(d, f, lines, hv, "error"), ps, key
    judged = 0
    for got, progs, key in core.pmap(shard, list(enumerate(programs(c, how, count, core.JOBS)))):
        for n, src, _ in progs:
            w = f"nope_{key[n]}" if how == "name" else f"bad_{key[n]}"
            ref = {(x[0], x[1]) for x in got.get((n, "r"), []) if w in x[1]}
            if not ref:
                continue
            judged += 1
            if not any(w in x[1] for x in got.get((n, "a"), [])):
                c.violation(f"{n}: the mistake `{w}` is not reported where it is; the annotated code gets:\n" + "\n".join(x[2][:500] for x in got.get((n, "a"), [])[:3]), {"program.rs": src})
    c.evaluations += judged
    c.extra[f"mistakes_judged_{how}"] = judged


# ({N}: an unknown type, {L}: an unknown lifetime, {V}: an unknown value): annotated items, one mistake in each
ITEMS = [
    "#[auto_enum(Iterator)] fn f(x: {N}, k: u8) -> impl Iterator<Item = u8> {{ if k > 1 {{ std::iter::once(k) }} else {{ std::iter::empty() }} }}",
    "#[auto_enum(Iterator)] fn f(k: u8) -> impl Iterator<Item = {N}> {{ if k > 1 {{ std::iter::empty() }} else {{ std::iter::empty() }} }}",
    "#[auto_enum(Iterator)] fn f<T: {N}>(k: u8, t: T) -> impl Iterator<Item = T> {{ match k {{ 0 => std::iter::once(t), _ => std::iter::empty() }} }}",
    "#[auto_enum(Iterator)] fn f<T>(k: u8, t: T) -> impl Iterator<Item = T> where T: {N} {{ match k {{ 0 => std::iter::once(t), _ => std::iter::empty() }} }}",
    "#[auto_enum(Iterator)] fn f(k: &{L} u8) -> impl Iterator<Item = u8> {{ match *k {{ 0 => std::iter::once(1), _ => std::iter::empty() }} }}",
    "#[auto_enum(Iterator)] fn f(k: u8) -> impl Iterator<Item = u8> {{ match k {{ {V} | 1 if {V}() => std::iter::once(1), _ => std::iter::empty() }} }}",
    "#[auto_enum(Iterator)] fn f(k: u8) -> impl Iterator<Item = u8> {{ let y: {N} = k; if y > 0 {{ return std::iter::once(1) }} std::iter::empty() }}",
    "#[auto_enum(Fn)] fn f(k: u8) -> impl Fn(u8) -> u8 {{ if k > 0 {{ |x: {N}| x }} else {{ move |x| x + k }} }}",
    "#[auto_enum(Debug)] fn f(k: u8) -> Result<u8, impl std::fmt::Debug> {{ let v = {V}(k)?; Err(if v {{ 1 }} else {{ 2 }})? }}",
    "fn f(k: u8) {{ #[auto_enum(Iterator)] let it: Vec<{N}> = match k {{ 0 => std::iter::once(1), _ => std::iter::empty() }}; }}",
    "fn f(k: u8) {{ #[auto_enum(Iterator)] let it = match k {{ 0 => std::iter::once(1), _ => {{ let {N} {{ .. }} = k; std::iter::empty() }} }}; }}",
    "fn f(k: u8) {{ let it; it = #[auto_enum(Debug)] match k {{ 0 => 1u8, _ => {V}!() }}; }}",
    "#[auto_enum(Iterator)] fn f(k: u8) -> impl Iterator<Item = u8> {{ #[nested] {{ if k > 0 {{ marker!({V}) }} else {{ std::iter::empty() }} }} }}",
    "#[auto_enum({T})] fn f(k: u8) -> impl {N} {{ if k > 0 {{ 1u8 }} else {{ 2u16 }} }}",
    "#[auto_enum({T})] fn f(k: u8) -> Option<impl {N}> {{ if k > 0 {{ Some(1u8) }} else {{ Some(2u16) }} }}",
    "#[enum_derive({T})] enum E {{ A(u8), B({N}) }}",
    "#[enum_derive({T})] enum E<A, B> {{ A(A), B(Option<(B, {N})>) }}",
    "#[enum_derive({T})] enum E<A: {N}, B> {{ A(A), B(B) }}",
    "#[enum_derive({T})] enum E<A, B> where B: {N} {{ A(A), B(B) }}",
    "#[enum_derive({T})] enum E<A, B> {{ A(A), B(&{L} B) }}",
    "#[enum_derive({T})] enum E<A, B = {N}> {{ A(A), B(B) }}",
    "#[enum_derive({T})] enum E<A, const B: {N}> {{ A(A), B([A; B]) }}",
    "#[enum_derive({T})] enum E<A, B> {{ A(A), #[{N}attr] B(B) }}",
    "#[enum_derive({T})] #[derive({N})] enum E<A, B> {{ A(A), B(B) }}",
]
TRAITS = ["Iterator", "Debug", "Fn", "Future", "io::Read", "Clone", "Deref", "Error", "fmt::Write", "Display", "DoubleEndedIterator", "AsRef", "Index", "Coroutine", "Transpose", "serde::Serialize",
          "futures03::Stream", "rayon::ParallelIterator", "tokio1::AsyncRead", "http_body1::Body"]


def items(c, rustc, rounds):
    """A mistake in an annotated item, in its signature or in a field is reported where it is."""
    rng = random.Random(f"{c.prop}:{c.seed}:items")
    src, want = [WARN, "#![allow(unused)] use auto_enums::{auto_enum, enum_derive};"], {}
    for r in range(rounds):
        for k, t in enumerate(rng.sample(ITEMS, len(ITEMS))):
            n = f"{r}x{k}"
            src.append(f"mod m{n} {{ use super::*;\n" + t.format(N=f"Nope{n}", V=f"nope{n}", L=f"'nope{n}", T=rng.choice(TRAITS)) + "\n}")
            want[n] = (len("\n".join(src).split("\n")) - 1, t)
    src.append("fn main() {}")
    text = "\n".join(src)
    f = c.write("items.rs", text)
    ok, d = rustc(f, c.path("items.rmeta"), edition=rng.choice(["2021", "2024"]), extra=["--emit=metadata", "-Zdeduplicate-diagnostics=yes"])
    got, lines = {}, text.split("\n")
    for w in d:
        for s in w.get("spans", []):
            if w.get("level") == "error" and s["is_primary"] and s["file_name"] == f and s["line_start"] == s["line_end"]:
                got.setdefault(s["line_start"], []).append((lines[s["line_start"] - 1][s["column_start"] - 1:s["column_end"] - 1], w["rendered"]))
    for n, (l, t) in want.items():
        if not any(re.search(rf"(?i)nope{n}(?!\d)", x) for x, _ in got.get(l, [])):
            c.violation(f"a mistake in an annotated item is not reported where it is:\n{lines[l - 1]}\n" + "\n".join(r[:600] for _, r in got.get(l, [])[:3]), {"program.rs": lines[l - 1]})
    c.evaluations += len(want)
    c.extra["items_judged"] = len(want)


def c27(c):
    rustc = core.base(c)
    rustc.externs["rt"] = diff.build_rt(c, rustc)
    locations(c, rustc, 1200 if c.quick else 20000, 40)
    k = 800 if c.quick else 8000
    warnings(c, rustc, k)
    errors(c, rustc, k, "name")
    errors(c, rustc, k, "type")
    items(c, rustc, 12 if c.quick else 120)
    c.rule = ("an evaluation is one event of an annotated program whose source position is compared with its boxed twin's, one program whose warnings are compared, or one mistake whose "
              "report is looked for; distinct_nontrivial counts distinct positions")


CHECKS = {"C27": c27}
