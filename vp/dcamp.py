"""Campaigns over random enums: every variant driven directly and through the enum."""
import os, random
from . import core, shapes



HEAD = """#![feature(trusted_len, fn_traits, unboxed_closures, coroutines, coroutine_trait, stmt_expr_attributes, formatting_options, extend_one, iter_advance_by, error_generic_member_access, exact_size_is_empty, never_type, deref_pure_trait)]
#![allow(warnings)]
#[macro_use] extern crate dv;
use auto_enums::enum_derive;
use std::iter::FromIterator;
use dv::*;
"""


def build_dv(c, rustc):
    out = c.path("libdv.rlib")
    ok, d = rustc(os.path.join(core.ROOT, "rt", "dv.rs"), out, crate_type="rlib", extra=["--crate-name", "dv"])
    if not ok:
        raise core.Inconclusive("runtime does not compile: " + "\n".join(x["rendered"] for x in core.errors(d)[:3]))
    return out


def main_src(files, mods, head=HEAD):
    """mods: [(name, source, cases)]"""
    src = head
    for f in files:
        f, subs = f if isinstance(f, tuple) else (f, {})
        t = open(os.path.join(core.ROOT, "rt", f)).read() + "\n"
        for a, b in subs.items():
            t = t.replace(a, b)
        src += t
    lines, where = src.count("\n"), {}
    body = [src]
    cases = []
    for name, text, cs in mods:
        n = text.count("\n")
        where[name] = (lines + 1, lines + n)
        lines += n
        body.append(text)
        cases += cs
    body.append("fn main() { dv::main(&[\n" + "".join(f'Case {{ name: "{n}", direct: {d}, subject: {s} }},\n' for n, d, s in cases) + "]); }\n")
    return "".join(body), where


def run_shard(c, rustc, idx, files, mods, runs, head=HEAD, timeout=400, tag="d"):
    src, where = main_src(files, mods, head)
    f = c.write(f"{tag}{idx}.rs", src)
    exe = c.path(f"{tag}{idx}.exe")
    edition = ("2021", "2024", "2018")[idx % 3] if not os.environ.get("VP_EDITION") else os.environ["VP_EDITION"]
    ok, diags = rustc(f, exe, timeout=timeout, edition=edition)
    res = dict(bad=[], stats=[])
    if not ok:
        # the drivers alone must compile
        s2, _ = main_src(files, [], head)
        f2 = c.write(f"{tag}{idx}-drivers.rs", s2)
        ok2, d2 = rustc(f2, c.path(f"{tag}{idx}-drivers.exe"), extra=["--emit=metadata"], edition=edition)
        if not ok2:
            raise core.Inconclusive("drivers do not compile: " + core.errors(d2)[0]["rendered"][:2000])
        hits, first = {}, core.errors(diags)
        text = src.split("\n")
        for d in first:
            for lo, hi in core.primary_lines(d, f):
                if text[lo - 1].startswith("pub fn d"):
                    raise core.Inconclusive("a driver call on the bare value does not compile: " + d["rendered"][:1500])
                for name, (a, b) in where.items():
                    if a <= lo <= b:
                        hits.setdefault(name, d["rendered"])
        if not hits:
            hits = {"?": first[0]["rendered"] if first else "?"}
        for name, m in list(hits.items())[:3]:
            body = next((t for n, t, _ in mods if n == name), src)
            res["bad"].append((f"derived enum {name} does not compile or its traits are missing:\n{m[:1800]}", {"module.rs": body, "shard.rs": src}))
        return res
    lim = 200
    rc, out, err = core.run_limited([exe, str(c.seed), str(runs)], lim)
    if "DONE" not in out:
        last = [x for x in out.splitlines() if x][-1:] or ["?"]
        name = last[0].split(" ")[1].split("/")[0] if last[0].startswith("AUTO ") else "?"
        body = next((t for n, t, _ in mods if n == name), src)
        res["bad"].append((f"{last[0]}: the run " + (f"did not finish within {lim} s" if rc is None else f"died with {rc}") + f": {err[-800:]}", {"module.rs": body, "shard.rs": src}))
    for line in out.splitlines():
        w = line.split(" ")
        if w[0] == "MISMATCH":
            name = w[1].split("/")[0]
            body = next((t for n, t, _ in mods if n == name), src)
            res["bad"].append((line, {"module.rs": body, "shard.rs": src, "how.txt": f"edition {edition}; run: <shard> {c.seed} {runs} {w[1]}"}))
        elif w[0] == "STAT":
            res["stats"].append((w[1], [int(x) for x in w[2:7]], w[7] if len(w) > 7 else ""))
        elif w[0] == "XSTAT":
            x = c.extra.setdefault("monitor_counters", {})
            x[w[1]] = x.get(w[1], 0) + int(w[2])
    return res


def campaign(c, rustc, files, groups, count, runs, head=HEAD, shards=None, tag="d"):
    """groups: [(weight, group)]; count enums in all."""
    if "dv" not in rustc.externs:
        rustc.externs["dv"] = build_dv(c, rustc)
    rng = random.Random(f"{c.prop}:{c.seed}:{tag}")
    mods = []
    for k in range(count):
        g = rng.choices([g for _, g in groups], [w for w, _ in groups])[0] if k >= len(groups) else groups[k][1]
        text, cases = shapes.shape(rng, f"s{k}", g)
        mods.append((f"s{k}", text, cases))
    execute(c, rustc, files, mods, runs, head, shards, tag)


def execute(c, rustc, files, mods, runs, head=HEAD, shards=None, tag="d"):
    shards = shards or core.JOBS
    parts = [p for p in (mods[i::shards] for i in range(shards)) if p]
    res = core.pmap(lambda t: run_shard(c, rustc, t[0], files, t[1], runs, head, tag=tag), list(enumerate(parts)))
    tot = dict(runs=0, events=0, traces=0, panics=0, calls=0)
    ops = c.extra.setdefault("observed_events_by_kind", {})
    ncases = 0
    for r in res:
        for b in r["bad"]:
            c.violation(*b)
        for name, (n, ev, tr, pa, ca), o in r["stats"]:
            ncases += 1
            for k, v in zip(("runs", "events", "traces", "panics", "calls"), (n, ev, tr, pa, ca)):
                tot[k] += v
            for x in filter(None, o.split(",")):
                k, v = x.rsplit(":", 1)
                ops[k] = ops.get(k, 0) + int(v)
    c.evaluations += tot["runs"]
    c.ndistinct += tot["traces"]
    e = c.extra
    for k, v in (("enums", len(mods)), ("variants_driven", ncases), ("events_observed", tot["events"]), ("monitored_calls", tot["calls"]), ("panicking_runs", tot["panics"])):
        e[k] = e.get(k, 0) + v
    if len(ops) > 80:
        c.extra["observed_events_by_kind"] = dict(sorted(ops.items(), key=lambda t: -t[1])[:80])
    c.samples.append({"enum": mods[-1][1][:1500]})
    c.rule = c.rule or ("each evaluation drives one value by a random script twice, by itself and as the active variant of a derived enum, and compares every "
                        "result, monitored call, panic and drop; distinct_nontrivial counts distinct event logs per variant")
