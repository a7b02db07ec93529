"""Random enums for enum_derive: shapes, generics, names, and the cases that drive them."""
import random, re

ENUMS = ["E", "Enum", "Either3", "r#type", "Wrapper", "AsyncThing", "E_x", "Größe", "Xyz", "Poll2"]
VARIANTS = ["A", "B", "C", "D", "V0", "V1", "Variant", "Some", "None", "Ok", "Err", "Item", "Error", "Ready", "Pending", "r#match", "r#Fn", "Left", "Right",
            "Output", "Iterator", "Target", "X1", "Ünï", "Self_", "T", "Break", "Yielded", "Included", "Unbounded"]
TPARAMS = ["T", "A", "B", "C", "U", "F", "E0", "Item", "R", "S", "W", "I", "P", "Idx", "Err", "Ok", "Output", "TypeParam", "r#fn", "Args", "X0", "Y", "Z", "G", "H", "K2", "L2"]
PRIMS = None


class Pay:
    """A payload type. `ty` and `ctor` may use {k} (an id), `pre` runs before; forms: ways to write the
    field with a fresh parameter {P}: (field type, parameter declaration, argument)."""
    def __init__(self, ty, ctor, pre="", forms=(), life=False, generic=True, post=""):
        self.ty, self.ctor, self.pre, self.life, self.post = ty, ctor, pre, life, post
        self.forms = ([("{P}", "{P}", ty)] if generic else []) + list(forms)


def shape(rng, name, group, maxv=6):
    """Returns (source of the module, [case names])."""
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, maxv])
    if rng.random() < 0.04 and not group.get("nobig"):
        n = rng.choice([9, 17, 33])
    vnames = rng.sample(VARIANTS, n) if n <= len(VARIANTS) and rng.random() < 0.5 else [f"V{i}" for i in range(n)]
    tnames = rng.sample(TPARAMS, len(TPARAMS))
    ename = rng.choice(ENUMS)
    while ename in vnames or ename in tnames:
        ename = rng.choice(ENUMS)
    style = rng.choice(["generic", "generic", "mixed", "mixed", "concrete"]) if not group.get("generic_only") and not group.get("params_only") else "generic"
    lts, tps, fields, pays = [], [], [], []
    for i in range(n):
        if i and style != "generic" and rng.random() < 0.2 or (style == "generic" and i and not group.get("generic_only") and rng.random() < 0.08):
            j = rng.randrange(i)  # the same field type again
            fields.append(fields[j])
            pays.append((pays[j][0], i))
            pays[-1] = pays[j]
            continue
        p = rng.choice(group["pays"])
        ty = p.ty.replace("{k}", str(i))
        if p.forms and (style == "generic" or style == "mixed" and rng.random() < 0.6):
            forms = [f for f in p.forms if not group.get("params_only") or not f[1].startswith("const")]
            form = forms[0] if style == "generic" and rng.random() < 0.7 else rng.choice(forms)
            P = tnames.pop() if tnames else f"G{i}"
            if form[1].startswith("const") and P in ("Ok", "Err"):  # `M<Err>` would name the function
                P = f"G{i}"
            fields.append(form[0].replace("{P}", P))
            tps.append((P, form[1].replace("{P}", P), form[2].replace("{k}", str(i))))
        else:
            fields.append(ty)
        pays.append((p, i))
    # a field without a type parameter next to one with: the derived bounds equate associated types
    # with the first field's, so such a field leads
    tp = [t[0] for t in tps if not t[1].startswith("const")]
    def concrete(f):
        return not any(re.search(r"(?<![\w#])" + re.escape(t) + r"(?!\w)", f) for t in tp)
    if tp and not concrete(fields[0]) and any(map(concrete, fields)):
        k = next(i for i, f in enumerate(fields) if concrete(f))
        fields.insert(0, fields.pop(k))
        pays.insert(0, pays.pop(k))
    if any("'a" in f for f in fields):
        lts.append("'a")
    if group.get("generic_only"):
        rng_tps = tps
    else:
        rng_tps = rng.sample(tps, len(tps)) if rng.random() < 0.3 else tps
    where, decls = [], list(lts)
    defaults_from = len(rng_tps) - rng.randrange(0, 3) if rng.random() < 0.12 and not group.get("generic_only") else 99
    for idx, (P, decl, arg) in enumerate(rng_tps):
        d = decl
        if d == P:
            if group.get("bounds") and rng.random() < 0.15:
                b = rng.choice(group["bounds"])
                if rng.random() < 0.5:
                    d += ": " + b
                else:
                    where.append(f"{P}: {b}")
            if idx >= defaults_from and not any(x.startswith("'") for x in [arg]) and "'a" not in arg:
                d += " = " + arg
            elif idx >= defaults_from:
                defaults_from = 99
        elif d.startswith("const") and idx >= defaults_from:
            d += " = " + arg
        decls.append(d)
    # a default must not be followed by a parameter without one
    seen = False
    for i, d in enumerate(decls):
        if seen and " = " not in d:
            decls = [x.split(" = ")[0] if not x.startswith("'") else x for x in decls]
            break
        seen = seen or " = " in d
    gen = "<" + ", ".join(decls) + rng.choice(["", "", ","]) * (not group.get("generic_only")) + ">" if decls else ""
    args = lts + [a for _, _, a in rng_tps]
    al = ename + ("<" + ", ".join(args) + ">" if args else "")
    alias = "Al" + ("<'a>" if "'a" in al else "")
    traits = list(group["traits"](rng))
    attrs = []
    if not group.get("split") or rng.random() < 0.5 or len(traits) < 2:
        attrs.append(traits)
    else:
        c = rng.randrange(1, len(traits))
        attrs += [traits[:c], traits[c:]]
    out = [f"pub mod {name} {{ use super::*;"]
    # traits before their dependents: a split attribute derives what its own list implies
    if rng.random() < 0.3:
        out.append("#[allow(dead_code)]")
    for a in attrs:
        out.append(f"#[enum_derive({', '.join(a)}{rng.choice(['', '', ','])})]")
    if rng.random() < 0.2:
        out.append("/// doc")
    w = (" where " + ", ".join(where)) if where else ""
    vis = rng.choice(["", "pub ", "pub(crate) "])
    out.append(f"{vis}enum {ename}{gen}{w} {{ " + ", ".join((rng.choice(["", "", "", "/** d */ "]) + f"{v}({f})") for v, f in zip(vnames, fields)) + rng.choice(["", ","]) + " }")
    out.append(f"type {alias} = {al};")
    cases = []
    driver = group["drive"]
    direct = group.get("direct", driver)
    tys = ["(std::mem::size_of::<{0}>(), std::mem::align_of::<{0}>())".format(p.ty.replace("{k}", str(k)).replace("'a", "'static")) for p, k in pays]
    out.append(f"fn chk() {{ chk_size::<Al>(&[{', '.join(tys)}]) }}")
    for i, (v, (p, k)) in enumerate(zip(vnames, pays)):
        pre = p.pre.replace("{k}", str(k))
        ctor = p.ctor.replace("{k}", str(k))
        ty = p.ty.replace("{k}", str(k)).replace("'a", "'_")
        out.append(f"pub fn d{i}(r: &mut Rng) {{ {pre} let p: {ty} = {ctor}; {direct.replace("TY", ty)}(p, r); {p.post} }}")
        out.append(f"pub fn s{i}(r: &mut Rng) {{ chk(); {pre} {driver.replace("TY", ty)}(Al::{v}({ctor}), r); {p.post} }}")
        cases.append((f"{name}/{v}", f"{name}::d{i}", f"{name}::s{i}"))
    out.append("}")
    return "\n".join(out) + "\n", cases
