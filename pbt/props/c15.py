"""C15: unsupported targets and misuse of #[pin] / repeated #[pin_project] are rejected; the nearest valid program is accepted."""
import copy
from ..core import case, prog
from ..items import *

LEVEL = "exploration"
CASES = {"quick": 3500, "thorough": 15000}
RULE = ("A case is either an item of an unsupported kind (units, empty structs, enums without fields or with explicit discriminants in any position, unions, functions, modules, traits, impls, "
        "aliases, ...) with random attribute arguments, or a generated valid definition with one defect planted: #[pin] on the type, on a variant or on a parameter, repeated on a field "
        "(adjacent or not, hidden by cfg_attr), with any argument, or #[pin_project] repeated in any spelling. The compiler must reject it, while the same item without the attribute "
        "(or without the planted defect) is valid Rust and is accepted. Non-trivial: every case.")
ARGS = ["", "", "", "(project = P)", "(project = P, project_ref = R)", "(project = P, project_ref = R, project_replace = O)", "(!Unpin)", "(UnsafeUnpin)", "(PinnedDrop)", "(project_replace)", "()"]


def emptyish(g, n):
    return g.pick([f"{n}", f"{n} {{}}", f"{n}()"])


def target(g):
    """(label, item, needs_assoc_scope)"""
    gen = g.pick(["", "", "<T>", "<'a, T: 'a>", "<const N: usize>"])
    w = g.pick(["", "", " where u8: Copy"])
    k = g.pick(["unit-struct", "empty-brace", "empty-tuple", "empty-enum", "fieldless-enum", "discriminant-enum", "discriminant-fields-enum", "cfg-empty-struct", "cfg-empty-enum", "union", "other"])
    nogen = g.pick(["", "<const N: usize>"])
    vis = g.pick(["", "pub ", "pub(crate) "])
    if k == "unit-struct":
        return k, f"{vis}struct S{nogen}{w};"
    if k == "empty-brace":
        return k, f"{vis}struct S{nogen}{w} {{}}"
    if k == "empty-tuple":
        return k, f"{vis}struct S{nogen}(){w};"
    if k == "empty-enum":
        return k, f"{vis}enum S{nogen}{w} {{}}"
    if k == "fieldless-enum":
        return k, f"{vis}enum S{nogen}{w} {{ " + ", ".join(emptyish(g, VARIANTS[i]) for i in range(g.int(1, 5))) + g.pick([",", ""]) + " }"
    if k == "discriminant-enum":
        n = g.int(1, 5)
        at = g.int(0, n - 1)
        vs = [VARIANTS[i] + (f" = {i * 3}" if i == at or g.chance(1, 4) else "") for i in range(n)]
        return k, f"{vis}enum S{w} {{ {', '.join(vs)} }}"
    if k == "discriminant-fields-enum":
        n = g.int(1, 6)
        at = g.int(0, n - 1)
        have = g.int(0, n - 1)
        vs = []
        for i in range(n):
            v = VARIANTS[i]
            v += g.pick(["(#[pin] u8, u16)", "{ #[pin] a: u8 }", "(u8)", "{ a: u8 }"]) if i == have or g.chance(1, 2) else g.pick(["", "{}", "()"])
            if i == at or g.chance(1, 6):
                v += f" = {g.pick([str(i * 7), str(i * 7) + ' + 1', '{ ' + str(i * 7) + ' }', 'K' + str(0) + ' + ' + str(i * 7)])}"
            vs.append(v)
        return k, f"#[repr({g.pick(['u8', 'isize', 'i32', 'C, u16'])})] {vis}enum S{w} {{ {', '.join(vs)} }}"
    if k == "cfg-empty-struct":
        n = g.int(1, 3)
        f = lambda i: f"#[cfg(any())] {g.pick(['#[pin] ', ''])}{FIELD_NAMES[i]}: u8"
        t = lambda i: f"#[cfg(any())] {g.pick(['#[pin] ', ''])}u8"
        return k, (f"{vis}struct S {{ {', '.join(f(i) for i in range(n))} }}" if g.flip() else f"{vis}struct S({', '.join(t(i) for i in range(n))});")
    if k == "cfg-empty-enum":
        vs = []
        for i in range(g.int(1, 4)):
            vs.append(g.pick([f"{VARIANTS[i]}", f"#[cfg(any())] {VARIANTS[i]}(#[pin] u8)", f"{VARIANTS[i]} {{ #[cfg(any())] #[pin] a: u8 }}", f"{VARIANTS[i]}(#[cfg(any())] #[pin] u8)"]))
        return k, f"{vis}enum S {{ {', '.join(vs)} }}"
    if k == "union":
        return k, f"{vis}union S{g.pick(['', '<const N: usize>'])}{w} {{ {g.pick(['#[pin] ', ''])}a: u8, b: {g.pick(['u16', 'ManuallyDrop<String>'])} }}"
    s = g.pick(["fn f() {}", "const X: u8 = 1;", "static X: u8 = 1;", "mod q {}", "mod q { pub struct S { a: u8 } }", "trait Q {}", "trait Q { fn f(&self); }", "impl Loc {}", "impl Loc { fn f(&self) {} }",
                "impl Clone for Loc { fn clone(&self) -> Self { Loc { a: 1 } } }", "type X = u8;", "type X<T> = Option<T>;", "use std::vec::Vec as V;", "extern crate std as q;", "extern \"C\" { fn f(); }",
                "macro_rules! m { () => {} }", "id_item! { struct S { #[pin] a: u8 } }", "unsafe impl Send for Loc2 {}", "async fn f() {}", "const fn f() -> u8 { 3 }", "unsafe fn f() {}", "pub(crate) fn f(a: u8) -> u8 { a }",
                "unsafe trait Q {}", "static mut X: u8 = 1;", "const _: () = ();", "fn f() { struct S { a: u8 } }", "extern \"C\" fn f() {}", "fn f<T>(x: T) -> T { x }"])
    return "other:" + s.split("{")[0].split("(")[0].strip()[:24], vis.replace("pub ", "") * 0 + s


HELP = "    use std::mem::ManuallyDrop; const K0: isize = 0; struct Loc { a: u8 } struct Loc2(*const u8); macro_rules! id_item { ($i:item) => { $i } }\n"


def target_case(g):
    lab, item = target(g)
    args = g.pick([a for a in ARGS if not (a == "(project_replace)" and "enum S" in item) and not (a == "(PinnedDrop)" and (re.search(r"S<", item) or lab.startswith("other")))])
    extra = "".join(g.pick(["#[allow(dead_code)] ", "/** d */ "]) for _ in range(g.weighted([(3, 0), (1, 1)])))
    path = g.pick(["pin_project", "pin_project", "::pin_project::pin_project", "pp"])
    attr = f"#[{path}{args}] "
    item = item.replace("const K0", "const K0")
    nopin = item.replace("#[pin] ", "")
    item_k = item.replace("K0", "0")
    nopin_k = nopin.replace("K0", "0")
    pd = "#[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) {} }\n" if "PinnedDrop" in args else ""
    order = g.flip()
    src = "    " + (attr + extra if order else extra + attr) + item_k + "\n" + pd
    infn = g.chance(1, 6) and not item.startswith(("macro_rules", "id_item"))
    wrap = (lambda s: "    fn outer() {\n" + s + "    }\n") if infn else (lambda s: s)
    u = USES + "    use pin_project::pin_project as pp;\n" + HELP
    return case([prog(crate(u + wrap(src)), expect="fail", name="target-" + lab.split(":")[0], why=f"{lab} is not a supported target", sane_src=crate(u + wrap("    " + extra + nopin_k + "\n")))],
                {"target:" + lab, "args:" + (args or "none"), "in-fn" if infn else "in-mod"}, True, f"#[pin_project{args}] on {lab}")


BADPIN = ["#[pin()]", "#[pin(foo)]", "#[pin[]]", "#[pin{}]", "#[pin = \"\"]", "#[pin = 1]", "#[pin(pin)]", "#[pin(__private())]", "#[pin(__private)]", "#[pin(unsafe)]", "#[pin(mut)]", "#[pin(project = X)]", "#[pin(true)]",
          "#[pin(1)]", "#[pin(a, b)]", "#[pin(!)]", "#[cfg_attr(all(), pin())]", "#[cfg_attr(all(), pin(foo))]", "#[cfg_attr(all(), pin = \"x\")]", "#[pin[pin]]", "#[pin{a: b}]", "#[pin(,)]"]
BADTYPE = ["#[pin]", "#[pin()]", "#[pin(foo)]", "#[pin = \"\"]", "#[pin(__private())]", "#[pin(__private(!Unpin))]", "#[pin(__private(project = X))]", "#[cfg_attr(all(), pin)]", "#[cfg_attr(all(), pin())]",
           "#[cfg_attr(all(), pin(__private()))]", "#[cfg_attr(all(), pin(__private(!Unpin)))]"]


HARMLESS = ["#[allow(dead_code)]", "/** d */", "#[cfg(all())]", "#[doc(hidden)]", "#[cfg_attr(all(), allow(unused))]", "#[cfg_attr(any(), pin)]", "#[doc = \"pin\"]"]


def gen(g, tier):
    if g.chance(2, 5):
        return target_case(g)
    item = gen_item(g, replace="maybe", unpin="maybe", many=g.chance(1, 6), named=True if g.flip() else None)
    k = g.pick(["type-after", "type-before", "variant", "double", "double-sep", "double-cfg", "args", "args-and-pin", "repeat", "repeat-before", "repeat-path", "repeat-cfg", "param", "nested"])
    if item.kind == "enum" and g.chance(1, 6):
        k = "variant"
    # other attributes around the place of the defect
    if g.flip():
        few = lambda: [g.pick(HARMLESS) for _ in range(g.int(0, 2))]
        item.pre, item.post = item.pre + few(), item.post + few()
        for v in item.variants if item.kind == "enum" else []:
            v.attrs = few() + v.attrs + few()
        for x in item.all_fields():
            if g.chance(1, 3):
                x.pre, x.post = x.pre + few(), x.post + few()
    bad, sane = copy.deepcopy(item), copy.deepcopy(item)
    fi = g.int(0, len(item.all_fields()) - 1)
    f = bad.all_fields()[fi]
    sf = sane.all_fields()[fi]
    u = USES
    if k == "type-after":
        bad.post.insert(g.int(0, len(bad.post)), g.pick(BADTYPE))
    elif k == "type-before":
        bad.pre.insert(g.int(0, len(bad.pre)), g.pick(BADTYPE))
    elif k == "variant" and item.kind == "enum":
        v = g.pick(bad.variants)
        v.attrs.insert(g.int(0, len(v.attrs)), g.pick(["#[pin]"] * 6 + BADTYPE))
    elif k == "double":
        f.pin = sf.pin = True
        for _ in range(g.weighted([(4, 1), (1, 2)])):
            (f.post if g.flip() else f.pre).insert(0, "#[pin]")
    elif k == "double-sep":
        f.pin = sf.pin = True
        mid = g.pick(["#[allow(dead_code)]", "/** d */", "#[cfg(all())]", "#[doc(hidden)]"])
        f.post = [mid, "#[pin]"] + f.post
        if g.flip():
            f.post.append("#[allow(unused)]")
    elif k == "double-cfg":
        f.pin = g.flip()
        sf.pin = True
        f.post = ["#[cfg_attr(all(), pin)]"] * (1 if f.pin else 2) + f.post
        if not f.pin and g.flip():
            f.post = ["#[cfg_attr(all(), pin, pin)]"] + [x for x in f.post if "pin)" not in x]
    elif k == "args":
        f.pin = False
        sf.pin = True
        l = f.post if g.flip() else f.pre
        l.insert(g.int(0, len(l)), g.pick(BADPIN))
    elif k == "args-and-pin":
        f.pin = sf.pin = True
        l = f.post if g.flip() else f.pre
        l.insert(g.int(0, len(l)), g.pick(BADPIN))
    elif k == "param" and [p for p in item.params]:
        p = g.pick(bad.params)
        # handled textually: attributes are allowed on generic parameters
        bad._param_attr = p.name
    elif k == "nested":
        # #[pin] inside an item nested in a field type
        f.ty = copy.copy(f.ty)
        f.ty.src = "[u8; { struct X { " + g.pick(["#[pin] x: u8", "#[pin()] x: u8"]) + " } 3 }]"
        sf.ty = copy.copy(sf.ty)
        sf.ty.src = "[u8; { struct X { x: u8 } 3 }]"
        for it in (bad, sane):
            # parameters may have lost their only use
            v = [v for v in it.variants if v.fields and any(x is (f if it is bad else sf) for x in v.fields)][0]
            miss = [p for p in it.params if p.kind != "const"]
            if miss:
                src = "PhantomData<(" + "".join((f"&{p.name} ()" if p.kind == "lt" else f"PhantomData<{p.name}>") + ", " for p in miss) + ")>"
                v.fields.insert(0, Field("zz_" if v.shape == "named" else None, Ty(src, src)))
    else:
        k = k if k.startswith("repeat") else "repeat"
    def rend(it):
        s = it.render()
        n = getattr(it, "_param_attr", None)
        if n:
            gd = it.generics_decl()
            decl = gd.replace("const " + n, "#[pin] const " + n, 1) if "const " + n in gd else re.sub(r"([<,]\s*)" + re.escape(n) + r"(?![\w'])", r"\1#[pin] " + n.replace("\\", ""), gd, count=1)
            s = s.replace(it.name + gd, it.name + decl, 1)
        return s
    src = rend(bad)
    if k.startswith("repeat"):
        one = item.attr()
        two = g.pick([one, "#[pin_project]", "#[pin_project()]", "#[pin_project(project = ZzP)]", "#[pin_project(!Unpin)]"])
        if k == "repeat-path":
            two = two.replace("pin_project", g.pick(["::pin_project::pin_project", "pp"]), 1)
        elif k == "repeat-cfg":
            two = "#[cfg_attr(all(), " + two[2:-1] + ")]"
        mid = g.pick(["", "", "    #[allow(dead_code)]\n", "    /// d\n"])
        new = f"    {two}\n{mid}    {one}\n" if (k == "repeat-before" or g.flip()) else f"    {one}\n{mid}    {two}\n"
        src = src.replace("    " + one + "\n", new, 1)
        u = USES + "    use pin_project::pin_project as pp;\n"
    progs = [prog(crate(u + rend(sane)), name="control", why="the definition without the defect", plain_src=crate(USES_PLAIN + sane.render(macro=False))),
             prog(crate(u + src), expect="fail", name="misuse-" + k, why=k)]
    return case(progs, item.classes | {"misuse:" + k}, True, f"{item.kind} with misuse {k}")
