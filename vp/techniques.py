"""What MANIFEST.json says about each check."""
HOOKS = {"guard": "cfg(auto_enums_vp), set with `--cfg auto_enums_vp` on a `rustc --test` build of src/lib.rs (and AUTO_ENUMS_VP_HARNESS naming the harness source)",
         "enable": "C22 builds /repo/src/lib.rs with rustc --test --cfg auto_enums_vp and AUTO_ENUMS_VP_HARNESS=/verif/rt/fuzz_macro.rs; all other checks build /repo without the hook",
         "source_commits": ["e67c707"]}
NOTES = ""
NA = {}
_L = ("runtime monitoring: generated annotated programs run beside their boxed twins, event traces, results, panics and drops compared",
      "random programs of the documented grammar, deterministic in VERIF_SEED; bounded program size, 60 input streams per program")
TECH = {k: _L for k in ("C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21")}

_D = ("runtime monitoring: random enums driven by random scripts beside the bare value, every monitored call, result, panic and drop compared",
      "random enum shapes, payloads and scripts, deterministic in VERIF_SEED; held on the executions observed")
TECH.update({k: _D for k in ("C01", "C02", "C03", "C04", "C05", "C06", "C08", "C10")})

TECH["C07"] = ("runtime monitoring: address, drop and Unpin monitors over polled enums, natively and under Miri (undefined-behaviour interpreter); compile probes for Drop/Unpin rejection",
               "random pinned enums and scripts, deterministic in VERIF_SEED; Miri runs a bounded subset; held on the executions observed")
TECH["C09"] = ("runtime monitoring: rayon computations over derived enums in pools of 1-8 threads with split/steal perturbation, per-item exactly-once and order oracles",
               "random sources, thread counts and split limits, deterministic workloads; schedules are those the runs produced")
TECH["C11"] = ("runtime monitoring: every transpose operation on random enums, payload identity, move counts, variant and drops monitored; rejected shapes probed with the compiler",
               "random shapes and payloads, deterministic in VERIF_SEED")
_T = ("runtime monitoring: generated programs probe at run time which traits every instantiation implements, and behave beside the plain enum; compiler diagnostics are the rejection oracle",
      "random enums, trait lists and aliases, deterministic in VERIF_SEED; held on the programs observed")
TECH.update({"C12": _T, "C13": _T})
TECH["C25"] = ("runtime monitoring: the macro crate rebuilt for each feature selection with marking standard derives; the running program reports who implemented each trait; no_std programs run",
               "a set of feature selections (none, single, default, all, random subsets), deterministic in VERIF_SEED")

TECH["C26"] = ("runtime monitoring: counting allocator, size, construction and drop monitors on annotated programs beside boxed twins and on derived enums beside the bare value",
               "random programs, enums and scripts, deterministic in VERIF_SEED; held on the executions observed")
TECH["C23"] = ("runtime monitoring: type-analysed programs beside boxed twins; run-time trait probes of annotated let bindings; the compiler accepts promised impl Trait types",
               "random programs and trait types, deterministic in VERIF_SEED; held on the executions observed")
TECH["C24"] = ("runtime monitoring: repeated expansions compared across processes and places; annotated programs and derived enums run in hostile scopes (shadowed prelude, no prelude, blanket traits, macro_rules contexts, renamed variables) beside twins",
               "random programs, enums and hostile scopes, deterministic in VERIF_SEED; known name clashes are listed findings")
TECH["C22"] = ("runtime monitoring: in-process mutation fuzzing of both macro entry points watched for panics, hangs, unparsable output and accepted misuse; the compiler's diagnostics judged for catalogued misuse and for a sample of the inputs",
               "token- and syntax-level mutations of generated programs, deterministic in VERIF_SEED but time-bounded; inputs up to 60 levels deep and 6000 tokens")
TECH["C27"] = ("runtime monitoring: track_caller position of every monitored event of annotated programs compared with the boxed twin's; the compiler's warnings and the places of injected mistakes are observed on both halves",
               "random programs and mistakes, deterministic in VERIF_SEED; redundant-parentheses and brace lints only judged on if branches")
TECH["C28"] = ("runtime monitoring: the differential trace comparison, the trait probes and the driven enums of every external family run on a stable compiler without feature gates; gated traits are compiled with their documented gates only",
               "random programs with a dummy annotation on the outer function, deterministic in VERIF_SEED; one stable release (the installed one); inner annotations inside marker contents are left out there")
