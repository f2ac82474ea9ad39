"""C14: which projection methods and types exist, under which names, with which parameters."""
from ..core import case, prog
from ..items import *

LEVEL = "exploration"
CASES = {"quick": 900, "thorough": 9000}
RULE = ("A case is a generated definition with a random subset of the project/project_ref/project_replace arguments. The control uses every projection that the documentation says exists: "
        "generic functions whose return type is the given name with the extra lifetime first (or the type's own parameters), user impls on the projection types, receivers of the right kind; "
        "and it defines the user's own methods under the names of the projections that must not exist. An occupancy probe defines user types, functions and methods under every other "
        "name that occurs in the expansion. Mutants call an absent method, name a type that was not requested, give it other parameters, or expect another type than the one returned; "
        "each must be rejected. Non-trivial: at least one present and one absent item, or a named projection type.")
METHODS = ("project", "project_ref", "project_replace")
RECV = {"project": "Pin<&'zz mut @T>", "project_ref": "Pin<&'zz @T>", "project_replace": "Pin<&'zz mut @T>"}
FREE_TYPES = ["Proj_", "ProjectionRef_", "SProj", "SProjRef", "SProjOwn", "SProjection", "Project", "ProjectRef", "ProjectReplace", "Projected", "PinProjected", "Unpinned", "Output"]
FREE_FNS = ["project_mut", "project_own", "project_pin", "get_pin_mut", "unproject", "as_mut_", "into_parts", "new", "assert_unpin"]


def ltgen(item, extra=""):
    """Generics of a function over the item, with the lifetime 'zz first."""
    g = item.generics_decl(defaults=False)
    return "<'zz" + (", " + g[1:-1] if g else "") + extra + ">"


def proj_args(item, m, lt="'zz"):
    a = ([lt] if m != "project_replace" else []) + [p.name for p in item.params]
    return "<" + ", ".join(a) + ">" if a else ""


def own(item):
    return item.name + item.generics_use()


def named(item, m):
    n = item.args.get(m)
    return n if isinstance(n, str) else None


def use_fn(item, m, ret=None, tag="use"):
    recv = RECV[m].replace("@T", own(item))
    arg = f", v: {own(item)}" if m == "project_replace" else ""
    call = f"x.{m}({'v' if arg else ''})"
    w = item.where_str([f"{own(item)}: 'zz"])
    if ret is None:
        return f"    fn {tag}_{m}{ltgen(item)}(x: {recv}{arg}){w} {{ let _ = {call}; }}\n"
    return f"    fn {tag}_{m}{ltgen(item)}(x: {recv}{arg}) -> {ret}{w} {{ {call} }}\n"


def gen(g, tier):
    item = gen_item(g, replace="maybe", unpin="maybe", pinned_drop="maybe", named=g.pick([None, False, None]), tail=12, fixed_tail=6, no_self_where=True)
    a = item.args
    for m, pool in (("project", PNAMES), ("project_ref", RNAMES)):
        if a.get(m) is None and g.chance(1, 4):
            n = g.pick(pool)
            if n not in [item.name] + [p.name for p in item.params]:
                a[m] = n
    if item.kind == "enum" and g.chance(1, 3):
        for m in METHODS:
            if g.flip():
                a.pop(m, None)
    base = item.render() + (pinned_drop_impl(item) if a.get("pinned_drop") else "")
    if a.get("unpin") == "UnsafeUnpin" and g.flip():
        base += impl_for(item, "UnsafeUnpin", kw="unsafe ")
    plain = item.render(macro=False)
    ctrl = ""
    have = [m for m in METHODS if item.exists(m)]
    absent = [m for m in METHODS if m not in have]
    classes = set(item.classes)
    for m in have:
        n = named(item, m)
        classes.add(f"has:{m}:{'named' if n else 'unnamed'}")
        ctrl += use_fn(item, m, n + proj_args(item, m) if n else None)
        if n:
            lt = m != "project_replace"
            gd = ltgen(item) if lt else item.generics_decl(defaults=False)
            w = item.where_str([f"{own(item)}: 'zz"] if lt else [])
            body = "fn user_method(&self) {} fn project(&self) -> u8 { 1 } fn project_ref(&self) {} fn into_self(self) -> Self { self }"
            ctrl += f"    impl{gd} {n}{proj_args(item, m)}{w} {{ {body} }}\n"
            if g.flip():
                ctrl += f"    impl{gd} std::fmt::Debug for {n}{proj_args(item, m)}{w} {{ fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{ Ok(()) }} }}\n"
            if any(p.default for p in item.params):
                # trailing defaults of the type carry over
                req = ([("'zz")] if lt else []) + [p.name for p in item.params if not p.default]
                classes.add("defaulted")
                w2 = subst(w, {p.name: p.default for p in item.params if p.default})
                ps = [p for p in item.params if not p.default]
                ctrl += f"    type D_{m}<{', '.join(req if lt else req)}{', ' if req else ''}> = {n}{('<' + ', '.join(req) + '>') if req else ''};\n".replace("const ", "") if not any(p.kind == "const" for p in ps) and req else ""
    free = ""
    for m in absent:
        classes.add("absent:" + m)
        k = g.int(0, 2)
        if k == 0:
            free += f"    impl{item.generics_decl(defaults=False)} {own(item)}{item.where_str()} {{ fn {m}(self: Pin<&mut Self>) -> u8 {{ 7 }} fn call_{m}(self: Pin<&mut Self>) -> u8 {{ self.{m}() }} }}\n"
        elif k == 1:
            free += f"    impl{item.generics_decl(defaults=False)} {own(item)}{item.where_str()} {{ const fn {m}(_: u8) -> u8 {{ 7 }} const Q_{m}: u8 = Self::{m}(1); }}\n"
        else:
            free += f"    trait Ext_{m} {{ fn {m}(self) -> u8; }} impl{ltgen(item)} Ext_{m} for Pin<&'zz mut {own(item)}>{item.where_str()} {{ fn {m}(self) -> u8 {{ 7 }} }}\n"
            free += f"    fn ext_{m}{ltgen(item)}(x: Pin<&'zz mut {own(item)}>) -> u8{item.where_str()} {{ x.{m}() }}\n"
    progs = [prog(crate(USES + base + ctrl + free), name="control", why="uses exactly the projections that were requested", plain_src=crate(USES_PLAIN + plain))]
    taken = set(have) | {x.replace("r#", "") for x in (item.name, *[v for v in a.values() if isinstance(v, str)])} | {p.name.replace("r#", "") for p in item.params}
    skel = crate("    use pin_project::{pin_project, pinned_drop};\n    mod deps { pub use vsut::*; pub use std::pin::Pin; pub use pin_project::UnsafeUnpin; pub use std::marker::{PhantomData, PhantomPinned}; }\n    use deps::*;\n"
                 + base + f"    @DEFS@\n    impl{item.generics_decl(defaults=False)} {own(item)}{item.where_str()} {{ @METHODS@ }}\n")
    vn = {v.name for v in item.variants if v.name}
    ftys = set(re.findall(r"\w+", base))
    progs.append({"src": skel.replace("@DEFS@", "").replace("@METHODS@", ""), "skeleton": skel, "mode": "occupy", "expect": "ok", "edition": "2021", "name": "occupied-names",
                  "taken": sorted(taken | vn), "free_types": [n for n in FREE_TYPES if n not in taken and n not in ftys], "free_fns": [n for n in FREE_FNS + absent if n not in vn and n not in ftys]})
    # ------------------------------------------------ mutants
    muts = []
    for m in absent:
        if free and f"fn {m}(" in free:
            pass
        alt = f"    impl{item.generics_decl(defaults=False)} {own(item)}{item.where_str()} {{ fn {m}(self: Pin<&{'mut ' if m != 'project_ref' else ''}Self>{', _: Self' if m == 'project_replace' else ''}) {'where Self: Sized ' if m == 'project_replace' else ''}{{}} }}\n"
        if m == "project_replace" and (item.tail or item.fixed):
            continue
        muts.append(("absent-" + m, base + use_fn(item, m), base + use_fn(item, m) + alt))
    for m in METHODS:
        n = named(item, m)
        guess = {"project": ["Projection", "SProj", "Proj_", "__SProjection"], "project_ref": ["ProjectionRef", "SProjRef", "__SProjectionRef"], "project_replace": ["ProjectionOwned", "SProjOwn", "__SProjectionOwned"]}[m]
        x = g.pick(guess).replace("S", item.name.replace("r#", ""), 1) if not n else n + "_"
        if x not in ftys and m in have:
            muts.append(("unrequested-name-" + m, base + f"    mod zz {{ use super::{x} as Z; }}\n", base + f"    mod zz {{ use super::{x} as Z; }} struct {x};\n"))
        if n and m in have:
            lt = m != "project_replace"
            ps = [p.name for p in item.params]
            # `Copyable` gives a place where elision is not allowed
            if lt:
                bad = g.pick(["nolt", "ltlast", "two"] if ps and item.params[-1].kind != "lt" else ["nolt", "two"])
                args = {"nolt": ps, "ltlast": ps + ["'zz"], "two": ["'zz", "'zz"] + ps}[bad]
            else:
                bad, args = "extra-lt", ["'zz"] + ps
            f = lambda args: f"    fn bad{ltgen(item)}(_: PhantomData<{n}{'<' + ', '.join(args) + '>' if args else ''}>){item.where_str([own(item) + chr(58) + ' ' + chr(39) + 'zz'])} {{}}\n"
            if bad == "nolt":
                f = lambda args: f"    struct Bad{ltgen(item)}(PhantomData<{own(item)}>, PhantomData<&'zz {own(item)}>, PhantomData<{n}{'<' + ', '.join(args) + '>' if args else ''}>){item.where_str([own(item) + ': ' + chr(39) + 'zz'])};\n"
            right = (["'zz"] if lt else []) + ps
            muts.append((f"params-{bad}-{m}", base + f(args), base + f(right)))
            # another projection type than the one returned
            for m2 in have:
                n2 = named(item, m2)
                if m2 != m and n2:
                    muts.append((f"{m}-returns-{m2}", base + use_fn(item, m, n2 + proj_args(item, m2), "bad"), base + use_fn(item, m, n + proj_args(item, m), "bad")))
    for m in have:
        if (item.tail or item.fixed) and m == "project_replace":
            continue
        bad = {"project": ["Pin<&'zz @T>", "&'zz mut @T"], "project_ref": ["Pin<&'zz mut @T>", "&'zz @T"], "project_replace": ["Pin<&'zz @T>", "&'zz mut @T"]}[m]
        r = g.pick(bad)
        good = use_fn(item, m)
        muts.append((f"receiver-{m}", base + good.replace(RECV[m].replace("@T", own(item)), r.replace("@T", own(item))), base + good))
    for _ in range(min(len(muts), g.int(2, 3))):
        lab, src, sane = muts.pop(g.int(0, len(muts) - 1))
        classes.add("mutant:" + lab.split("_")[0])
        progs.append(prog(crate(USES + src), expect="fail", name=lab, sane_src=crate(USES + sane), why=lab))
    return case(progs, classes, bool(absent) or any(named(item, m) for m in have), f"{item.kind} with methods {have}")
