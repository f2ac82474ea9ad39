"""C05: own Drop impls and mismatches between the PinnedDrop argument and #[pinned_drop] impls are rejected."""
from ..core import case, prog
from ..items import *
from .c02 import inst
from .c04 import placed

LEVEL = "exploration"
CASES = {"quick": 1000, "thorough": 9000}
RULE = ("A case is a generated definition with a matching combination of PinnedDrop argument and impl (or neither), which must be accepted, plus 2-4 mutants: own Drop "
        "impl (plain or next to a pinned drop; in modules, functions, macros), argument without impl, impl without argument, two impls, or an impl narrower than the "
        "type (extra bound on a parameter or compound type, one instantiation, one parameter or lifetime or const fixed). All mutants must be rejected. "
        "Non-trivial: at least two mutants.")
BODY = "fn drop(self: Pin<&mut Self>) { let _ = self; }"


def renamed(item):
    """The matching impl with all parameters renamed."""
    m = {}
    for i, p in enumerate(item.params):
        m[p.name] = f"'lt{i}" if p.kind == "lt" else f"Q{i}"
    d = []
    for p in item.params:
        b = subst(p.bounds, m) if p.kind != "const" else p.bounds
        d.append(f"const {m[p.name]}: {b}" if p.kind == "const" else m[p.name] + (": " + b if b else ""))
    w = [subst(x, m) for x in item.where]
    a = "<" + ", ".join(m[p.name] for p in item.params) + ">" if item.params else ""
    return f"    #[pinned_drop] impl{'<' + ', '.join(d) + '>' if d else ''} PinnedDrop for {item.name}{a}{' where ' + ', '.join(w) if w else ''} {{ {BODY} }}\n"


def matching(g, item):
    tps = [p.name for p in item.params if p.kind == "ty"]
    k = g.weighted([(4, "same"), (2, "renamed"), (1, "moved"), (1, "extra-always")])
    if k == "renamed":
        return renamed(item)
    if k == "moved":     # inline bounds moved to the where clause
        d = ["const " + p.name + ": " + p.bounds if p.kind == "const" else (p.name if p.kind == "lt" else p.name + (": ?Sized" if not p.sized else "")) for p in item.params]
        w = [f"{p.name}: {b}" for p in item.params if p.kind != "const" for b in [p.bounds.replace("?Sized + ", "").replace(" + ?Sized", "").replace("?Sized", "")] if b] + item.where
        return f"    #[pinned_drop] impl{'<' + ', '.join(d) + '>' if d else ''} PinnedDrop for {item.name}{item.generics_use()}{' where ' + ', '.join(w) if w else ''} {{ {BODY} }}\n"
    if k == "extra-always" and tps:
        return impl_for(item, "PinnedDrop", BODY, extra=[f"{g.pick(tps)}: Any1"], pre="#[pinned_drop] ")
    return impl_for(item, "PinnedDrop", BODY, pre="#[pinned_drop] ")


def narrower(g, item):
    tps = [p for p in item.params if p.kind == "ty"]
    forms = []
    if tps:
        forms += ["bound", "compound", "partial", "concrete"]
    # (a lifetime bounded by 'static may force others to be 'static through outlives relations)
    if any(p.kind == "lt" for p in item.params) and not any(p.kind == "lt" and "'static" in p.bounds for p in item.params) and "'static" not in " ".join(item.where):
        forms += ["lifetime", "outlives"]
    if any(p.kind == "const" for p in item.params):
        forms += ["const"]
    if not forms:
        return None
    k = g.pick(forms)
    own = item.name + item.generics_use()
    if k in ("bound", "compound"):
        p = g.pick(tps)
        b = g.pick(["Copy", "Send", "Unpin", "std::fmt::Debug", "Narrow"])
        if p.bounds.endswith(b):
            b = "Narrow"
        t = p.name if k == "bound" or not p.sized else g.pick(["Option<{}>", "({}, u8)", "[{}; 1]", "Box<{}>"]).format(p.name)
        if b in ("Unpin",) and t.startswith("Box"):
            t = p.name
        return "    trait Narrow {}\n" + impl_for(item, "PinnedDrop", BODY, extra=[f"{t}: {b}"], pre="#[pinned_drop] "), k
    if k == "concrete":
        return f"    #[pinned_drop] impl PinnedDrop for {inst_name(item, inst(g, item))} {{ {BODY} }}\n", k
    if k == "outlives":
        l = g.pick([p for p in item.params if p.kind == "lt"])
        return impl_for(item, "PinnedDrop", BODY, extra=[f"{l.name}: 'static"], pre="#[pinned_drop] "), k
    fix = g.pick({"partial": tps, "lifetime": [p for p in item.params if p.kind == "lt"], "const": [p for p in item.params if p.kind == "const"]}[k])
    m = {fix.name: inst(g, item)[fix.name]}
    ps = [p for p in item.params if p is not fix]
    d = [f"const {p.name}: {p.bounds}" if p.kind == "const" else p.name + (": " + subst(p.bounds, m) if p.bounds else "") for p in ps]
    a = "<" + ", ".join(m.get(p.name, p.name) for p in item.params) + ">"
    w = [subst(x, m, item.name + a) for x in item.where]
    w = [x for x in w if x != "'static: 'static"]
    return f"    #[pinned_drop] impl{'<' + ', '.join(d) + '>' if d else ''} PinnedDrop for {item.name}{a}{' where ' + ', '.join(w) if w else ''} {{ {BODY} }}\n", k


def gen(g, tier):
    item = gen_item(g, frags=8, tail=10, fixed_tail=10, replace=False, unpin="maybe", pinned_drop=False)
    with_arg = g.chance(2, 3)
    item.args["pinned_drop"] = True
    src_arg = USES + item.render()
    item.args["pinned_drop"] = False
    src_no = USES + item.render()
    imp = matching(g, item)
    ov = override(g)
    plain = crate(USES_PLAIN + item.render(macro=False), ov)
    ctl = prog(crate(src_arg + imp if with_arg else src_no, ov), name="control", plain_src=plain, why="PinnedDrop argument and impl match" if with_arg else "neither argument nor impl")
    sane_pd = "    trait PinnedDrop { fn drop(self: Pin<&mut Self>); }\n"
    progs, classes, seen = [ctl], set(item.classes) | {"pinned_drop:" + str(with_arg)} | ({"posing-as-pin_project"} if ov else set()), set()
    for _ in range(g.int(2, 4)):
        k = g.weighted([(3, "own-drop"), (2, "own-drop-beside"), (1, "no-impl"), (2, "no-arg"), (1, "two"), (6, "narrower")])
        sane = None
        pl = "here"
        if k in ("own-drop", "own-drop-beside"):
            tr = g.pick(["Drop", "Drop", "std::ops::Drop", "::core::ops::Drop"])
            d = impl_for(item, tr, "fn drop(&mut self) {}")
            d, pl = placed(g, d, item)
            m = (src_no if k == "own-drop" else src_arg + imp) + d
            if k == "own-drop" and g.chance(1, 4):
                m, k = src_arg + d, "own-drop-for-arg"
            sane = USES_PLAIN + item.render(macro=False) + d
        elif k == "no-impl":
            m = src_arg
        elif k == "no-arg":
            i2, pl = placed(g, imp, item)
            m = src_no + i2
            sane = USES_PLAIN + item.render(macro=False) + sane_pd + imp.replace("#[pinned_drop] ", "")
        elif k == "two":
            m = src_arg + imp + matching(g, item)
        else:
            r = narrower(g, item)
            if r is None:
                continue
            nimp, k2 = r
            m, k = src_arg + nimp, "narrower-" + k2
            sane = USES_PLAIN + item.render(macro=False) + sane_pd + nimp.replace("#[pinned_drop] ", "")
        if m in seen:
            continue
        seen.add(m)
        progs.append(prog(crate(m, ov), expect="fail", sane_src=crate(sane, ov) if sane else None, name=k, why=k))
        classes |= {"offence:" + k, "place:" + pl}
    return case(progs, classes, len(progs) > 2, f"definition with {len(progs) - 1} drop mismatches")
