"""C07: project_replace against a model of who owns what, over histories."""
from ..core import batch_case
from ..items import *
from .c01 import use_proj

LEVEL = "exploration"
CASES = {"quick": 750, "thorough": 12000}
K = 3
RULE = ("A case is a generated definition with project_replace and a history of 2-6 operations (project_replace with any variant, writes through project, project_ref, "
        "Pin::set) on one pinned slot; every field owns drop trackers with identities. After each replacement the returned value (exact types, contents, tracker "
        "identities), the drop log (which, at which address, in which order), and the slot (address, contents) are compared with a model; at the end nothing may be "
        "leaked or dropped twice. Non-trivial: at least one replacement of a value that owns at least one tracker.")


def use_replace(item, g, hist, v, s):
    """Replace the slot's value by mk(v, s) and check everything observable."""
    name = item.args["project_replace"]
    name = name if isinstance(name, str) else None
    out = ["{ let old = trks(&slot); let was = st.clone(); let wexp = exp.clone(); let pins = PINS[was.variant];",
           f"let fresh = mk({v}, {s}); let n0 = log_len(); let r = slot.as_mut().project_replace(fresh);",
           "dropped_exactly(n0, &pick(&old, pins, true), \"by project_replace\");",
           f"exp = want({v}, {s}); st = snap(&slot); is_variant(&st, {v}); assert!(base == addr(&*slot)); post(&st, &st, &exp);",
           "let n1 = log_len();"]
    order = g.weighted([(3, "whole"), (2, "parts")])

    def fld(i, f, e):
        t = f.ty.conc
        want = f"PhantomData<{t}>" if f.pin else t
        a = f"let x = [{e}]; let x: [{want}; 1] = x; "
        if not f.pin:
            a += f"moved_(&x[0], {i}, &wexp, &old); "
        return "{ " + a + "drop(x); }"
    if item.kind == "struct" and not (name and g.flip()):
        fs = item.variants[0].fields
        if order == "whole" or not fs:
            for i, f in enumerate(fs):
                if not f.pin:
                    out.append(f"moved_(&r.{item.access(i)}, {i}, &wexp, &old);")
            out.append("drop(r);")
            out.append("assert_eq!(ids(&drops_since(n1)), ids(&pick(&old, pins, false)), \"drops by dropping the returned value\");")
        else:
            for i in g.perm(range(len(fs))):
                out.append(fld(i, fs[i], f"r.{item.access(i)}"))
    else:
        out.append("match r {")
        for vi, vv in enumerate(item.variants):
            out.append(f"    {item.pat(vi, name)} => {{ is_variant(&was, {vi}); " + " ".join(fld(i, f, f"f{i}") for i, f in enumerate(vv.fields)) + " }")
        out.append("}")
    out.append("assert_eq!(sorted(ids(&drops_since(n1))), sorted(ids(&pick(&old, pins, false)))); }")
    hist["replaces"] += 1
    return "\n        ".join(out)


def definition(g, **kw):
    o = dict(replace=True, unpin="maybe", trackers=g.chance(3, 4))
    o.update(kw)
    return gen_item(g, **{"frags": 8, "methods": 12, **o})


def part(g, tier):
    item = definition(g)
    nv = len(item.variants)
    hist = {"writes": 0, "projections": 0, "replaces": 0}
    ms = [m for m in ("project", "project_ref") if item.exists(m)]
    v0 = g.int(0, nv - 1)
    body = [f"let mut slot: Pin<Box<C>> = Box::pin(mk({v0}, 3));", f"let mut exp = want({v0}, 3); let mut st = snap(&slot); let base = addr(&*slot);"]
    for i in range(g.int(2, 6)):
        k = g.weighted([(5, "replace"), (1, "set")] + [(1, m) for m in ms]) if i else "replace"
        v, s = g.int(0, nv - 1), g.int(1, 500)
        if k == "replace":
            body.append(use_replace(item, g, hist, v, s))
        elif k == "set":
            body.append(f"{{ let old = trks(&slot); let n0 = log_len(); slot.as_mut().set(mk({v}, {s})); dropped_exactly(n0, &flat(&old), \"by set\"); }} exp = want({v}, {s}); st = snap(&slot);")
        else:
            body.append(use_proj(item, k, "slot.as_mut()" if k == "project" else "slot.as_ref()", g, hist))
        body.append("assert!(base == addr(&*slot)); post(&snap(&slot), &st, &exp);")
    body.append("let old = trks(&slot); let n0 = log_len(); drop(slot); dropped_exactly(n0, &flat(&old), \"by the final drop\"); no_leak();")
    src = USES + item.render() + helpers(item, True) + "    pub fn run() {\n" + "".join("        " + b + "\n" for b in body) + "    }\n"
    plain = USES_PLAIN + item.render(macro=False) + helpers(item, True) + "    pub fn run() {}\n"
    owns = any(x in f.ty.conc for f in item.all_fields() for x in ("Tr",))
    return {"src": src, "plain": plain, "classes": item.classes | {f"replaces:{min(hist['replaces'], 4)}"}, "nontrivial": owns}


def gen(g, tier):
    parts = [part(g, tier)] + [part(g, tier) for _ in range(K - 1) if g.chance(7, 8)]
    return batch_case(parts, "replace-history", "definitions with replacement histories")
