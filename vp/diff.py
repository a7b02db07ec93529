"""Differential runs of generated programs: compile shards, run, judge."""
import json, os, re
from . import core, gen

HEAD = "#![feature(stmt_expr_attributes, proc_macro_hygiene, try_blocks, coroutines, never_type)]\n#![allow(warnings)]\n"


def build_rt(c, rustc):
    out = c.path("librt.rlib")
    ok, d = rustc(os.path.join(core.ROOT, "rt", "rt.rs"), out, crate_type="rlib", extra=["--crate-name", "rt"])
    if not ok:
        raise core.Inconclusive("runtime does not compile: " + "\n".join(x["rendered"] for x in core.errors(d)[:3]))
    return out


def main_src(progs, refonly=False, head=HEAD):
    """progs: [(name, module source, noalloc)] -> source text, {name: (first line, last line)}"""
    lines = head.count("\n")
    out, where = [head], {}
    for name, src, _ in progs:
        n = src.count("\n")
        where[name] = (lines + 1, lines + n)
        lines += n
        out.append(src)
    out.append("fn main() { rt::main(&[\n")
    for name, _, na in progs:
        out.append(f'rt::Prog {{ name: "{name}", auto: {name}::a::run, refp: {name}::r::run, noalloc: {"true" if na else "false"} }},\n')
    out.append("]); }\n")
    return "".join(out), where


def strip_auto(src):
    """Only the reference half of a module, to tell generator mistakes from violations."""
    return re.sub(r"pub mod a \{.*?\npub mod r \{", "pub mod a { pub fn run() -> u32 { 0 } }\npub mod r {", src, flags=re.S)


def run_shard(c, rustc, idx, progs, runs, tag="s", head=HEAD, timeout=300, edition="2021"):
    src, where = main_src(progs, head=head)
    f = c.write(f"{tag}{idx}.rs", src)
    exe = c.path(f"{tag}{idx}.exe")
    ok, diags = rustc(f, exe, timeout=timeout, edition=edition)
    res = dict(bad=[], stats=[], compiled=ok)
    if not ok:
        errs = core.errors(diags)
        hits = {}
        for d in errs:
            for lo, hi in core.primary_lines(d, f):
                for name, (a, b) in where.items():
                    if a <= lo <= b:
                        hits.setdefault(name, d["rendered"])
        # Is it the generator's own fault? The boxed halves must compile by themselves.
        rsrc, _ = main_src([(n, strip_auto(s), na) for n, s, na in progs], head=head)
        rf = c.write(f"{tag}{idx}-ref.rs", rsrc)
        rok, rd = rustc(rf, c.path(f"{tag}{idx}-ref.exe"), extra=["--emit=metadata"], timeout=timeout, edition=edition)
        if not rok:
            raise core.Inconclusive("the boxed reference does not compile (generator mistake): " + core.errors(rd)[0]["rendered"][:1500])
        if not hits:
            hits = {"?": errs[0]["rendered"] if errs else "unknown compile error"}
        for name, msg in list(hits.items())[:3]:
            body = next((s for n, s, _ in progs if n == name), src)
            res["bad"].append((f"program {name} does not compile when annotated (its boxed form does):\n{msg[:1500]}",
                               {"program.rs": body, "how.txt": f"edition {edition}, shard of {c.prop}, seed {c.seed}"}))
        return res
    lim = min(120, timeout)
    rc, out, err = core.run_limited([exe, str(c.seed), str(runs)], lim)
    if "DONE" not in out:
        # a hard crash (abort, stack overflow) or an endless run
        last = [l for l in out.splitlines() if l][-1:] or ["?"]
        if last[0].startswith("AUTO "):
            name = last[0].split(" ")[1]
            body = next((s for n, s, _ in progs if n == name), src)
            res["bad"].append((f"program {name}: the annotated half " + (f"did not finish within {lim} s" if rc is None else f"died with {rc}") +
                               f", its boxed twin finished every run: {err[-800:]}", {"program.rs": body, "shard.rs": src}))
        else:
            raise core.Inconclusive(f"shard {idx} ended with {rc} without finishing: {out[-500:]} {err[-1500:]}")
    for line in out.splitlines():
        w = line.split(" ")
        if w[0] == "MISMATCH":
            body = next((s for n, s, _ in progs if n == w[1]), src)
            res["bad"].append((line, {"program.rs": body, "shard.rs": src, "how.txt": f"edition {edition}; run: <shard> {c.seed} {runs} {w[1]}"}))
        elif w[0] == "STAT":
            res["stats"].append(tuple([w[1]] + [int(x) for x in w[2:]]))
    return res


def campaign(c, profile, count, runs, want=None, shards=None, noalloc=False, extra_progs=(), rustc=None, over=None, module=gen.module, head=HEAD, tag="s"):
    rustc = rustc or core.base(c)
    rustc.externs["rt"] = build_rt(c, rustc)
    shards = shards or core.JOBS
    progs = list(extra_progs)
    feats, kinds = {}, {}
    e24 = lambda k: (k % shards) % 2 == 1  # every other shard is a Rust 2024 crate
    for k in range(count):
        g, items, run = gen.generate(f"{c.prop}/{c.seed}/{profile}/{k}", profile, want, dict(over or {}, e24=e24(k + len(extra_progs))))
        name = f"p{k}"
        progs.append((name, module(name, items, run), noalloc and "Box" not in run.a and "panic_any" not in items.a))
        for x in g.feats:
            feats[x] = feats.get(x, 0) + 1
        kinds[g.kind] = kinds.get(g.kind, 0) + 1
    parts = [progs[i::shards] for i in range(shards)]
    parts = [p for p in parts if p]
    res = core.pmap(lambda t: run_shard(c, rustc, t[0], t[1], runs, tag=tag, head=head, edition="2024" if e24(t[0]) else "2018" if t[0] % 4 == 2 else "2021"), list(enumerate(parts)))
    tot = dict(runs=0, events=0, traces=0, leaves=0, panics=0, fuel=0, dry=0)
    for r in res:
        for b in r["bad"]:
            c.violation(*b)
        for (name, n, ev, tr, lv, pa, fu, dry) in r["stats"]:
            tot["runs"] += n; tot["events"] += ev; tot["traces"] += tr; tot["leaves"] += lv
            tot["panics"] += pa; tot["fuel"] += fu; tot["dry"] += dry
    c.evaluations += tot["runs"]
    c.ndistinct += tot["traces"]
    c.extra.update(programs=len(progs), events_observed=tot["events"], distinct_traces=tot["traces"], branch_values_seen=tot["leaves"],
                   panicking_runs=tot["panics"], fuel_exhausted_runs=tot["fuel"], silent_runs=tot["dry"],
                   features={k: feats[k] for k in sorted(feats)}, kinds={k: kinds[k] for k in sorted(kinds)})
    c.samples.append({"program": progs[-1][1][:1800]})
    c.rule = ("each evaluation is one run of an annotated program and its boxed twin on the same input stream; "
              "distinct_nontrivial counts distinct event traces per program")
    return progs, res
