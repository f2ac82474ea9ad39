"""C01: projections expose exactly the fields, in place, pinned iff #[pin]."""
from ..core import batch_case
from ..items import *

LEVEL = "exploration"
CASES = {"quick": 1100, "thorough": 14000}
K = 3
RULE = ("A case is a generated struct/enum definition with one concrete instantiation and a history of 2-5 operations (project, project_ref, writes through "
        "projections, whole-value Pin::set to any variant) executed in one program; after every operation types (exactly, no coercion), addresses and "
        "fingerprints of all fields are compared with a field-wise model. Non-trivial: at least two fields overall and at least one projection that "
        "was followed by a write or a second projection.")


def use_proj(item, m, expr, g, hist, writes=True):
    """Code that projects with m, checks every field's type, address and contents, then writes some fields."""
    name = item.args.get(m)
    mut = m == "project"
    out = [f"let n0 = log_len(); let p = {expr}.{m}(); quiet_since(n0);"]

    def fld(i, f, e, vi):
        t = f.ty.conc
        want = (f"Pin<&mut ({t})>" if mut else f"Pin<&({t})>") if f.pin else (f"&mut ({t})" if mut else f"&({t})")
        s = f"let x = [{e}]; let [{'mut x' if mut else 'x'}]: [{want}; 1] = x; "
        s += f"ck(&*x, {i}, &st, &exp);"
        if mut and writes and f.ty.sized and g.chance(1, 3):
            sd = g.int(1, 999)
            s += f" exp[{i}] = fpv::<{t}>({sd}); " + (f"x.set(mkv::<{t}>({sd}));" if f.pin else f"*x = mkv::<{t}>({sd});")
            hist["writes"] += 1
        return "{ " + s + " }"
    if item.kind == "struct" and not (name and g.chance(2, 3)):
        # `st` was taken before; fields are moved out of the projection one by one, in any order
        idx = list(range(len(item.variants[0].fields)))
        if g.chance(1, 3):
            idx = g.perm(idx)
        for i in idx:
            out.append(fld(i, item.variants[0].fields[i], f"p.{item.access(i)}", 0))
    else:
        out.append("match p {")
        for vi, v in enumerate(item.variants):
            b = f"is_variant(&st, {vi}); " + " ".join(fld(i, f, f"f{i}", vi) for i, f in enumerate(v.fields))
            out.append(f"    {item.pat(vi, name)} => {{ {b} }}")
        out.append("}")
    hist["projections"] += 1
    return "{ " + "\n        ".join(out) + " }"


def part(g, tier, opts=None):
    o = dict(tail=15, replace="maybe", unpin="maybe", pinned_drop=False)
    o.update(opts or {})
    item = gen_item(g, **{"frags": 8, "methods": 12, **o})
    ms = [m for m in ("project", "project_ref") if item.exists(m)]
    hist = {"writes": 0, "projections": 0, "sets": 0}
    nv = len(item.variants)
    v0 = g.int(0, nv - 1)
    body = [f"let mut slot: Pin<Box<C>> = Box::pin(mk({v0}, 3));", f"let mut exp = want({v0}, 3); let mut st = snap(&slot);",
            "let base = addr(&*slot); post(&st, &st, &exp);"]
    if item.tail:
        body[0] = f"let mut slot: Pin<Box<C>> = Box::pin(mk({v0}, 3)) as Pin<Box<CS>>;"
    for _ in range(g.int(2, 5)):
        w = [(4, m) for m in ms] + ([(1, "set")] if not item.tail else [])
        if not w:
            break
        k = g.weighted(w)
        if k == "set":
            v, s = g.int(0, nv - 1), g.int(1, 500)
            body.append(f"slot.as_mut().set(mk({v}, {s})); exp = want({v}, {s}); st = snap(&slot); let _ = take_log();")
            hist["sets"] += 1
        else:
            e = "slot.as_mut()" if k == "project" else "slot.as_ref()"
            body.append(use_proj(item, k, e, g, hist))
        body.append("assert!(base == addr(&*slot)); post(&snap(&slot), &st, &exp);")
    src = USES + item.render() + helpers(item) + "    pub fn run() {\n" + "".join("        " + b + "\n" for b in body) + "        drop(slot); no_leak();\n    }\n"
    plain = USES_PLAIN + item.render(macro=False) + helpers(item) + "    pub fn run() {}\n"
    nt = len(item.all_fields()) >= 2 and hist["projections"] >= 1 and hist["projections"] + hist["writes"] + hist["sets"] >= 2
    return {"src": src, "plain": plain, "classes": item.classes | {f"writes:{min(hist['writes'], 3)}", f"projections:{min(hist['projections'], 4)}"}, "nontrivial": nt}


def gen(g, tier):
    parts = [part(g, tier)] + [part(g, tier) for _ in range(K - 1) if g.chance(7, 8)]
    return batch_case(parts, "project-history", "definitions with projection histories")
