"""C21: generated safe programs are executed in Miri; any undefined behaviour is a violation."""
from ..core import batch_case
from ..items import *
from . import c01, c07, c08, c09

LEVEL = "exploration"
MIRI = True
CASES = {"quick": 200, "thorough": 5000}
TECHNIQUE = "property-based testing (Hypothesis): generated safe programs run under the Miri interpreter (Stacked and Tree Borrows) as the oracle for undefined behaviour"
RULE = ("A case is a program with 1-3 generated definitions, each with a history run in Miri: projections whose field references are all kept alive and used in a random interleaving "
        "(reads, writes, as pairs of function arguments, pinned reborrows, fields that point to themselves once pinned), several shared projections at once, replacements whose results "
        "are used interleaved with the slot, Pin::set, all ways of dropping, PinnedDrop code that projects, unsized values, destructors that panic at every drop; the histories of C01, C07, "
        "C08 and C09 are included. Half of the cases use Tree Borrows, half Stacked Borrows. Miri reporting undefined behaviour, or a failed model assertion, is a violation. "
        "Non-trivial: at least one projection, replacement or panic is executed.")
ASSUMPTIONS = ["Undefined behaviour is what Miri detects (memory errors, invalid values, misalignment, Stacked or Tree Borrows violations); leaks of the harness's own static data are ignored."]


def live(g, item, m, hist):
    """Project and use all fields' references, interleaved."""
    name = item.args.get(m)
    mut = m == "project"
    out = []

    def uses(v, pre="f"):
        n = len(v.fields)
        b = [f"let mut {pre}{i} = {pre}{i};" for i in range(n)] if mut else []
        ops = []
        for _ in range(g.int(1, 5) if n else 0):
            i, j = g.int(0, n - 1), g.int(0, n - 1)
            f = v.fields[i]
            k = g.pick(["read", "write", "write", "both", "reborrow", "shared"]) if mut else g.pick(["read", "copy"])
            if f.ty.conc == "SelfRef" and f.pin:
                ops.append(f"{pre}{i}.as_ref().touch();" if mut else f"{pre}{i}.touch();")
            if k == "read":
                ops.append(f"let _ = fp_of(&*{pre}{i});")
            elif k == "write" and f.ty.sized:
                e = f"mkv::<{f.ty.conc}>({g.int(1, 200)})"
                ops.append(f"{pre}{i}.set({e});" if f.pin else f"*{pre}{i} = {e};")
                hist["n"] += 1
            elif k == "both" and i != j and f.ty.sized and not f.pin and v.fields[j].ty.sized and not v.fields[j].pin:
                ops.append(f"let _ = both(&mut *{pre}{i}, &mut *{pre}{j});")
            elif k == "reborrow":
                ops.append(f"{{ let r = {pre}{i}.as_mut(); let _ = fp_of(&*r); }}" if f.pin else f"{{ let r = &mut *{pre}{i}; let _ = fp_of(&*r); }}")
            elif k == "shared":
                ops.append(f"{{ let r = {pre}{i}.as_ref(); let q = r; let _ = (fp_of(&*r), fp_of(&*q)); }}" if f.pin else f"{{ let r = &*{pre}{i}; let _ = fp_of(r); }}")
            elif k == "copy":
                ops.append(f"let q = {pre}{i}; let _ = (fp_of(&*q), fp_of(&*{pre}{i}));")
        b += ops + [f"let _ = fp_of(&*{pre}{i});" for i in g.perm(range(n))]
        return " ".join(b)
    e = "slot.as_mut()" if mut else "slot.as_ref()"
    hist["n"] += 1
    if item.kind == "struct" and not name:
        v = item.variants[0]
        b = f"let p = {e}.{m}(); " + ("" if mut else f"let p2 = slot.as_ref().{m}(); ") + " ".join(f"let f{i} = p.{item.access(i)};" for i in range(len(v.fields))) + " " + uses(v)
        if not mut:
            b += " " + " ".join(f"let _ = fp_of(&*p2.{item.access(i)});" for i in range(len(v.fields)))
        return "{ " + b + " }"
    arms = "".join(f" {item.pat(vi, name)} => {{ {uses(v)} }}" for vi, v in enumerate(item.variants))
    two = "" if mut else f"let p2 = slot.as_ref().{m}(); "
    after = "" if mut else " match p2 {" + "".join(f" {item.pat(vi, name)} => {{ " + " ".join(f"let _ = fp_of(&*f{i});" for i in range(len(v.fields))) + " }" for vi, v in enumerate(item.variants)) + " }"
    return f"{{ {two}match {e}.{m}() {{{arms} }}{after} }}"


def replace(g, item, v, s, hist):
    name = item.args["project_replace"]
    name = name if isinstance(name, str) else None
    hist["n"] += 1
    arm = g.chance(1, 4)
    if arm:
        return f"{{ let fresh = mk({v}, {s}); arm({g.int(1, 4)}); let r = catch(|| slot.as_mut().project_replace(fresh)); disarm(); drop(r); }}"
    pre = f"let r = slot.as_mut().project_replace(mk({v}, {s})); "
    look = "let _ = snap(&slot); "
    if item.kind == "struct":
        fs = item.variants[0].fields
        take = " ".join(f"{{ let x = r.{item.access(i)}; let _ = fp_of(&x); {look if g.chance(1, 3) else ''}}}" for i in g.perm(range(len(fs))) if not fs[i].pin)
        return "{ " + pre + (look if g.flip() else "") + (take if g.chance(2, 3) else "drop(r);") + " }"
    arms = "".join(f" {item.pat(vi, name)} => {{ " + " ".join(f"let _ = fp_of(&f{i});" for i, f in enumerate(vv.fields) if not f.pin) + " }" for vi, vv in enumerate(item.variants))
    return "{ " + pre + look + "match r {" + arms + " } }"


def part_live(g, tier):
    pd = g.chance(1, 3)
    item = gen_item(g, frags=8, methods=8, tail=15, replace=False if pd else g.chance(2, 3), pinned_drop=pd, unpin="maybe", many=False, selfref=True, trackers=g.chance(1, 3))
    nv = len(item.variants)
    hist = {"n": 0}
    ms = [m for m in ("project", "project_ref") if item.exists(m)]
    v0 = g.int(0, nv - 1)
    body = [f"let mut slot: Pin<Box<C>> = Box::pin(mk({v0}, 3))" + (" as Pin<Box<CS>>" if item.tail else "") + ";"]
    for _ in range(g.int(2, 6)):
        w = [(4, m) for m in ms] + ([(4, "replace")] if item.args.get("project_replace") else []) + ([(1, "set")] if not item.tail else [])
        if not w:
            break
        k = g.weighted(w)
        if k == "set":
            body.append(f"slot.as_mut().set(mk({g.int(0, nv - 1)}, {g.int(1, 300)}));")
        elif k == "replace":
            body.append(replace(g, item, g.int(0, nv - 1), g.int(1, 300), hist))
        else:
            body.append(live(g, item, k, hist))
    body.append(g.pick(["drop(slot);", "let r = catch(move || { let _s = slot; std::panic::panic_any(Injected(5)) }); drop(r);", "arm(2); let r = catch(move || drop(slot)); disarm(); drop(r);"]))
    body.append("assert!(errors().is_empty(), \"{:?}\", errors()); assert!(live().is_empty(), \"leak: {:?}\", live());")
    src = USES + item.render()
    if pd:
        b = g.pick(["", "user_drop(&*self);"] + (["let mut this = self; let _p = this.as_mut().project(); user_drop(&*this);", "let _p = self.project();"] if "project" in ms else []) + (["let _p = self.as_ref().project_ref();"] if "project_ref" in ms else []))
        src += pinned_drop_impl(item, b)
    src += helpers(item) + "    pub fn run() {\n" + "".join("        " + x + "\n" for x in body) + "    }\n"
    plain = USES_PLAIN + item.render(macro=False) + helpers(item) + "    pub fn run() {}\n"
    return {"src": src, "plain": plain, "classes": item.classes | {"live"}, "nontrivial": hist["n"] > 0}


def part(g, tier):
    k = g.weighted([(6, "live"), (2, "c01"), (2, "c07"), (1, "c08"), (2, "c09")])
    f = {"live": part_live, "c01": c01.part, "c07": c07.part, "c08": c08.part, "c09": c09.part_with}[k]
    p = f(g, tier)
    p["classes"] = set(p["classes"]) | {"history:" + k}
    return p


def gen(g, tier):
    parts = [part(g, tier)] + [part(g, tier) for _ in range(2) if g.chance(7, 8)]
    tb = g.flip()
    flags = ["-Zmiri-ignore-leaks", "-Zmiri-permissive-provenance"] + (["-Zmiri-tree-borrows"] if tb else [])
    c = batch_case(parts, "miri", "definitions with histories in Miri" + (" (Tree Borrows)" if tb else ""), mode="miri", miri_flags=flags)
    c["classes"] = sorted(set(c["classes"]) | {"model:" + ("tree" if tb else "stacked")})
    return c
