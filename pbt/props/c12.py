"""C12: visibility of projection methods, projection types and projection fields, probed from every scope."""
from ..core import case, prog
from ..items import *

LEVEL = "exploration"
CASES = {"quick": 600, "thorough": 7000}
RULE = ("A case is a generated definition in module crate::a::b with a random visibility for the type and for each field, and probes (call a projection method on a value obtained "
        "without naming the type, name a projection type, access or destructure a projected field) at six sites: the module, a child, a sibling, the parent, the crate root and "
        "another crate. Rust's scoping rules say for each probe whether it must be accepted; all accepted ones are compiled together and 3-6 to-be-rejected ones one by one. "
        "Non-trivial: at least one accepted and one rejected probe.")
# visibility -> innermost module inside which it is visible ('' = crate root, None = everywhere)
VIS = {"": "a::b", "pub(self)": "a::b", "pub(super)": "a", "pub(in crate::a)": "a", "pub(in super)": "a", "pub(in self)": "a::b", "pub(crate)": "", "pub(in crate)": "", "pub": None, "pub(in crate::a::b)": "a::b",
       "pub(in super::super)": ""}
SITES = {"here": "a::b", "child": "a::b::k", "sibling": "a::s", "parent": "a", "root": "", "cousin": "z"}


def sees(scope, site):
    return scope is None or scope == "" or site == scope or site.startswith(scope + "::")


def within_crate(scope):
    return "" if scope is None else scope


def narrower(x, y):
    """Site sees both scopes."""
    return lambda site: sees(x, site) and sees(y, site)


def program(item, probes, allpub=False):
    """probes: site -> list of functions."""
    it = item
    if allpub:
        import copy
        it = copy.deepcopy(item)
        it.vis = "pub"
        for f in it.all_fields():
            f.vis = "pub"
    p = lambda s: "".join(f"    {x}\n" for x in probes.get(s, []))
    u = "    use std::pin::Pin;\n"
    return (ALLOW + "pub mod a {\n" + "pub mod b {\n" + USES + it.render() + helpers(it) + "    pub fn make() -> Pin<Box<C>> { Box::pin(mk(0, 3)) } pub fn fresh() -> C { mk(0, 4) }\n" + p("here")
            + "    pub mod k {\n" + p("child") + "    }\n}\n" + "pub mod s {\n" + p("sibling") + "}\n" + p("parent") + "}\n" + "pub mod z {\n" + p("cousin") + "}\n" + p("root"))


def all_probes(item):
    """(label, source, scopes that must be visible)"""
    out = []
    ts = VIS[item.vis]
    for m in ("project", "project_ref", "project_replace"):
        if not item.exists(m):
            continue
        call = {"project": "make().as_mut().project()", "project_ref": "make().as_ref().project_ref()", "project_replace": "make().as_mut().project_replace(@X::fresh())"}[m]
        call = "@X::" + call
        ms = within_crate(ts)
        out.append(("call-" + m, f"fn @N() {{ let _ = {call}; }}", [ms]))
        n = item.args.get(m)
        n = n if isinstance(n, str) else None
        if n:
            out.append(("use-" + m, f"mod @N {{ use @X::{n} as Z; }}", [ms]))
            args = [("'static")] if m != "project_replace" else []
            args += [q.conc for q in item.params]
            out.append(("name-" + m, f"fn @N(_: Option<@X::{n}{'<' + ', '.join(qual(a) for a in args) + '>' if args else ''}>) {{}}", [ms]))
        for vi, v in enumerate(item.variants):
            for i, f in enumerate(v.fields):
                fs = VIS[f.vis] if item.kind == "struct" else ms
                if item.kind == "struct":
                    out.append((f"field-{m}", f"fn @N() {{ let mut x = @X::make(); let _ = &{call.replace('@X::make()', 'x')}.{item.access(i)}; }}", [ms, fs]))
                if n:
                    pt = (f"@X::{n}" + (f"::{v.name}" if v.name else "")) + (f" {{ {f.name}: _y, .. }}" if v.shape == "named" else "(" + "_, " * i + "_y, ..)")
                    if v.shape == "named" or item.kind == "enum" or i == 0:
                        if item.kind == "struct" and v.shape == "tuple":
                            # a tuple pattern names every field it lists
                            pt = f"@X::{n}(_y, ..)"
                        if v.shape == "tuple" and item.kind == "struct":
                            # the tuple constructor is visible only where all fields are
                            out.append((f"pattern-{m}", f"fn @N() {{ let mut x = @X::make(); if let {pt} = {call.replace('@X::make()', 'x')} {{}} }}", [ms] + [VIS[q.vis] for q in v.fields]))
                        else:
                            out.append((f"pattern-{m}", f"fn @N() {{ let mut x = @X::make(); if let {pt} = {call.replace('@X::make()', 'x')} {{}} }}", [ms, fs]))
    return out


def qual(t):
    return subst(t, {k: "vsut::" + k for k in ("Tr", "TrP", "Al16")} | {"PhantomPinned": "std::marker::PhantomPinned"})


def gen(g, tier):
    item = gen_item(g, replace="maybe", unpin="maybe", named=True if g.chance(2, 3) else None, vis=False, field_vis=False, many=False, item_attrs=False, pinned_drop=False)
    if item.args.get("project_replace") is True and g.flip() and item.kind == "enum":
        item.args["project_replace"] = "Own"
    item.vis = g.pick(list(VIS))
    if item.kind == "struct":
        for f in item.all_fields():
            f.vis = g.pick(list(VIS)) if g.chance(3, 4) else ""
    pr = all_probes(item)
    good, bad = [], []
    for lab, src, scopes in pr:
        for site, path in SITES.items():
            (good if all(sees(s, path) for s in scopes) else bad).append((lab, site, src))
    foreign = list(pr)
    fix = lambda s, n, x: s.replace("@N", n).replace("@X::", x)
    ok_by_site = {}
    for i, (lab, site, src) in enumerate(good):
        ok_by_site.setdefault(site, []).append(fix(src, f"g{i}", "crate::a::b::"))
    plain = USES_PLAIN + item.render(macro=False)
    progs = [prog(program(item, ok_by_site), mode="lib", name="vlib", why="every probe is inside the scopes it needs",
                  plain_src=ALLOW + "pub mod a { pub mod b {\n" + plain + "} }\n")]
    classes = set(item.classes) | {"vis:" + (item.vis or "private")}
    classes |= {"ok:" + lab + "@" + site for lab, site, _ in good}
    for _ in range(min(len(bad), g.int(3, 6))):
        lab, site, src = g.pick(bad)
        pb = {site: [fix(src, "probe", "crate::a::b::")]}
        progs.append(prog(program(item, pb), expect="fail", name=f"{lab}@{site}", why=f"{site} is outside the visibility of the type or field", sane_src=program(item, pb, True)))
        classes.add("reject:" + lab + "@" + site)
    if foreign and g.chance(1, 2):
        for _ in range(g.int(1, 2)):
            lab, src, _s = g.pick(foreign)
            pb = fix(src, "probe", "vlib::a::b::")
            progs.append(prog(ALLOW + pb + "\n", expect="fail", name=f"{lab}@other-crate", uses=["vlib"], why="projections never leave the crate"))
            classes.add("reject:" + lab + "@other-crate")
    # sanity of the cross-crate set-up: the value itself is reachable there
    if item.vis == "pub":
        progs.append(prog(ALLOW + "fn f() { let x = vlib::a::b::make(); drop(x); }\n", name="other-crate-control", uses=["vlib"]))
    return case(progs, classes, bool(good) and len(progs) > 2, f"{item.vis or 'private'} {item.kind} probed from other scopes")
