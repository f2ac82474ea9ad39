"""C17: every valid definition stays valid with the attribute, and the type itself is unchanged (differential against the plain definition)."""
import copy
from ..core import case, prog, batch_case
from ..items import *

LEVEL = "exploration"
CASES = {"quick": 2200, "thorough": 16000}
RULE = ("A case is a generated definition placed twice in one program, once with the attribute and once plain. (a) Run-time comparison of size, alignment, size of Option, field offsets, discriminants, "
        "needs_drop, auto traits and the results of derived traits, plus construction and matching code used verbatim on both. (b) Acceptance: definitions with exotic generics, bounds, where "
        "clauses, defaults, Self references and field types that the plain compiler accepts must be accepted, and layout constants and auto traits agree. (c) Client code of random "
        "validity (variance, drop check, must_use/deprecated/non_exhaustive lints, moves out of fields, const construction) is accepted for the annotated type exactly if it is accepted for the plain one. "
        "Non-trivial: the definition has a parameter, a where clause, an attribute, a derive or two fields.")
DERIVES = ["Clone", "Debug", "PartialEq", "Eq", "Hash", "PartialOrd", "Ord", "Default", "Copy"]

# Exotic parts: parameters (kind, name, declaration, concrete), where predicates, field types.  # = unique suffix
EXOTIC = [
    ([("ty", "T#", "T#: ?Sized", "str")], [], ["Box<T#>"]),
    ([("ty", "T#", "T#: ?Sized", "(dyn Fp + 'static)")], [], ["Box<T#>", "PhantomData<T#>"]),
    ([("ty", "T#", "T#: Fn(u8) -> u8", "fn(u8) -> u8")], [], ["T#"]),
    ([("ty", "T#", "T#: Iterator", "std::vec::IntoIter<u8>")], [], ["T#", "Option<T#::Item>"]),
    ([("ty", "T#", "T#: Iterator", "std::vec::IntoIter<u8>")], ["T#::Item: Clone"], ["T#", "T#::Item"]),
    ([("ty", "T#", "T#: Iterator<Item = U#>", "std::vec::IntoIter<u8>"), ("ty", "U#", "U#", "u8")], [], ["T#", "U#"]),
    ([("ty", "T#", "T#: Iterator<Item: Clone>", "std::vec::IntoIter<u8>")], [], ["T#"]),
    ([("ty", "T#", "T#: for<'x> Fn(&'x u8) -> &'x u8", "for<'x> fn(&'x u8) -> &'x u8")], [], ["T#"]),
    ([("ty", "T#", "T#: Fn(&u8) -> &u8", "for<'x> fn(&'x u8) -> &'x u8")], [], ["T#"]),
    ([("ty", "T#", "T#", "u8")], ["T#: for<'pin> Any2<&'pin u8>"], ["T#"]),
    ([("ty", "T#", "T#", "u8")], ["for<'pin> &'pin T#: Any1"], ["T#"]),
    ([], [], ["Box<dyn for<'x> Fn(&'x u8) -> &'x u8>"]),
    ([], [], ["Box<dyn for<'pin> Fn(&'pin u8) -> &'pin u8 + Send>"]),
    ([], [], ["fn(&u8) -> &u8", "fn(&u8, &u8)"]),
    ([], [], ["for<'pin> fn(&'pin u8) -> for<'pin_> fn(&'pin_ u8) -> &'pin_ u8"]),
    ([("const", "N#", "const N#: usize", "3")], [], ["[u8; N#]", "[[u16; N#]; 2]"]),
    ([("const", "B#", "const B#: bool", "true"), ("const", "I#", "const I#: i32", "-4"), ("const", "C#", "const C#: char", "'q'")], [], []),
    ([], [], ["*const Self", "*mut Self"]),
    ([], [], ["Option<Box<Self>>", "Option<std::ptr::NonNull<Self>>"]),
    ([], [], ["fn(Self) -> Self", "PhantomData<Self>"]),
    ([], [], ["Vec<Self>"]),
    ([], [], ["<Self as HasK>::K", "Option<<Self as HasK>::K>"]),
    ([], [], ["PhantomData<<Self as HasK>::L>"]),
    ([], [], ["std::rc::Weak<Self>"]),
    ([("lt", "'a#", "'a#", "'static")], [], ["&'a# mut (dyn Fp + 'a#)", "&'a# dyn Fp"]),
    ([("lt", "'a#", "'a#", "'static")], [], ["Box<dyn Fp + 'a#>", "std::borrow::Cow<'a#, str>"]),
    ([("lt", "'a#", "'a#", "'static"), ("ty", "T#", "T#: 'a# + ?Sized", "str")], [], ["&'a# T#"]),
    ([("lt", "'a#", "'a#", "'static"), ("ty", "T#", "T#: ?Sized + ToOwned", "str")], ["T#: 'a#"], ["std::borrow::Cow<'a#, T#>"]),
    ([("lt", "'a#", "'a#", "'static"), ("lt", "'b#", "'b#: 'a#", "'static")], [], ["&'a# &'b# u8"]),
    ([("lt", "'a#", "'a#", "'static"), ("lt", "'b#", "'b#", "'static")], ["'a#: 'b#"], ["&'b# mut &'a# u8"]),
    ([("lt", "'pin__#", "'pin__#", "'static")], [], ["&'pin__# [&'pin__# mut u8]"]),
    ([("lt", "'a#", "'a#", "'static"), ("ty", "T#", "T#: 'static", "u8")], [], ["&'a# T#", "std::cell::Ref<'a#, T#>"]),
    ([("lt", "'a#", "'a#", "'static"), ("ty", "T#", "T#", "u8")], [], ["&'a# T#"]),
    ([], ["Self: Sized"], []),
    ([], ["Option<Self>: Sized"], []),
    ([], ["for<'x> &'x Self: Any1"], []),
    ([], ["for<'x> fn(&'x u8): Any1", "[u8]: Any1", "(): Any1"], []),
    ([("lt", "'a#", "'a#", "'static")], ["Self: 'a#"], ["&'a# u8"]),
    ([], [], ["[u8; 1 + 2]", "[u8; std::mem::size_of::<u32>()]"]),
    ([], [], ["[u8; { const X: usize = 2; X }]", "[u8; K3]", "[u8; self::K3]", "[u8; { fn f() -> u8 { 1 } 3 }]"]),
    ([], [], ["unsafe extern \"C\" fn(*const u8, ...) -> i32", "extern \"C\" fn()", "unsafe fn()"]),
    ([], [], ["fn() -> !"]),
    ([], [], ["((u8,), ((), (u16, (u32,))))", "((((u8))))"]),
    ([("ty", "T#", "T#: (Clone)", "u8")], [], ["T#"]),
    ([("ty", "T#", "T#: Clone +", "u8")], [], ["T#"]),
    ([("ty", "T#", "T#:", "u8")], [], ["T#"]),
    ([("ty", "T#", "T#", "u8")], ["T#:"], ["T#"]),
    ([("ty", "T#", "T#: ?Sized", "u8")], ["T#: Sized"], ["T#"]),
    ([("ty", "T#", "T#: Clone", "u8")], [], ["<[T#] as ToOwned>::Owned", "<Vec<T#> as IntoIterator>::Item"]),
    ([("ty", "T#", "T#: std::ops::Deref", "Box<u8>")], [], ["T#", "Box<T#::Target>"]),
    ([("ty", "T#", "T#: std::ops::Deref<Target: Sized>", "Box<u8>")], [], ["Option<T#::Target>"]),
    ([("ty", "T#", "T#", "u8")], ["T#: Any2<Self>"], ["T#"]),
    ([("ty", "T#", "T#: Any2<T#> + Any2<Option<T#>>", "u8")], [], ["T#"]),
    ([], [], ["ty_of!(Option<Box<Self>>)", "ty_of!((u8, [u8; 2]))"]),
    ([], [], ["ty_of!(Vec<ty_of!(Self)>)"]),
    ([("ty", "T#", "T#", "u8")], [], ["ty_of!(Option<T#>)"]),
    ([], [], ["self::LocalTy", "crate::LOCAL::LocalTy", "super::m::LocalTy"]),
    ([], [], ["Option<(Box<dyn Fp>)>", "Box<(dyn Fp + Send)>"]),
    ([], [], ["impl_t!()"]),
    ([("ty", "r#T#", "r#T#", "u8")], [], ["r#T#"]),
    ([("ty", "t#", "t#", "u8")], [], ["t#"]),
    ([("ty", "T#", "T#: Any1 = u8", "u8"), ("ty", "U#", "U# = Option<T#>", "u16")], [], ["T#", "U#"]),
    ([("const", "N#", "const N#: usize = { 1 + 2 }", "2")], [], ["[u8; N#]"]),
    ([("ty", "T#", "T#: Clone = u8", "u16"), ("ty", "U#", "U#: AsRef<str> = String", "&'static str")], [], ["T#", "U#"]),
    ([("ty", "T#", "T#: AsRef<str> = &'static str", "String"), ("ty", "U#", "U#: Copy = u8", "char"), ("const", "N#", "const N#: usize = 4", "1")], [], ["T#", "[U#; N#]"]),
    ([("const", "N#", "const N#: usize = 2", "3"), ("const", "B#", "const B#: bool = false", "true"), ("ty", "T#", "T#: Default = [u8; N#]", "u8")], [], ["T#"]),
    ([("ty", "T#", "T#: ?Sized = str", "[u8]"), ("ty", "U#", "U# = Box<T#>", "Box<[u8]>")], [], ["Box<T#>", "U#"]),
    ([("lt", "'a#", "'a#", "'static"), ("ty", "T#", "T#: 'a# + Copy = &'a# str", "u8")], [], ["&'a# T#", "T#"]),
    ([("ty", "T#", "T# = (), U#", "()")], [], ["T#"]) if False else ([("ty", "T#", "T# = ()", "u8")], ["T#: Any1"], ["Option<T#>"]),
    ([], [], ["std::sync::Arc<std::sync::Mutex<Option<Box<Self>>>>"]),
    ([("ty", "T#", "T#", "u8")], [], ["std::mem::ManuallyDrop<T#>", "std::mem::MaybeUninit<T#>", "std::cell::UnsafeCell<T#>"]),
    ([("ty", "T#", "T#: std::future::Future", "std::future::Ready<u8>")], [], ["T#", "Option<T#::Output>", "Option<<T# as std::future::Future>::Output>"]),
    ([("ty", "T#", "T#: TraitC<3>", "u8")], [], ["T#"]),
    ([("ty", "T#", "T#: TraitC<{ 1 + 2 }>", "u8")], [], ["T#"]),
    ([("ty", "T#", "T#: Gat", "u8"), ("lt", "'a#", "'a#", "'static")], [], ["T#::Of<'a#>"]),
    ([("ty", "T#", "T#: Gat", "u8")], ["for<'x> T#::Of<'x>: Sized"], ["T#::Of<'static>"]),
]
PRE = ("    pub struct LocalTy(u8); const K3: usize = 3; macro_rules! impl_t { () => { Option<u8> } } use vsut::ty_of;\n"
       "    pub trait TraitC<const N: usize> {} impl<T, const N: usize> TraitC<N> for T {}\n    pub trait Gat { type Of<'a>; } impl<T> Gat for T { type Of<'a> = &'a u8; }\n")
AUTOS = ["Send", "Sync", "std::panic::UnwindSafe", "std::panic::RefUnwindSafe"]


def exotic_item(g):
    """A definition with exotic parts; acceptance and constants only."""
    item = gen_item(g, methods=8, replace="maybe", unpin="maybe", named=True if g.flip() else None, many=False, item_attrs=True, where=g.flip(), self_ty=False) if g.chance(2, 3) else \
        Item(g.pick(["struct", "enum"]), "S", [], [], [])
    if not item.variants:
        item.variants = [Variant(None if item.kind == "struct" else "A", g.pick(["named", "tuple"]), [])]
    item.pre = [a for a in item.pre if a != "#[repr(C)]"]
    conc = {p.name: p.conc for p in item.params}
    nk = g.int(1, 3)
    hask = False
    decls = [("lt" if p.kind == "lt" else p.kind, p.name, None, p.conc) for p in item.params]
    extra, where, fields = [], [], []
    labels = []
    for k in range(nk):
        ei = g.int(0, len(EXOTIC) - 1)
        ps, ws, fs = EXOTIC[ei]
        labels.append(f"exotic:{ei}")
        taken = any(p.kind == "lt" and p.name.replace("r#", "").startswith("'pin") for p in item.params)
        ren = lambda s: s.replace("'pin", "'pw") if taken else s
        r = lambda s: ren(s).replace("#", str(k)) if "r#" not in s else ren(s).replace("r#", "r@").replace("#", str(k)).replace("r@", "r#")
        for kind, n, d, c in ps:
            extra.append((kind, r(n), r(d), c))
        where += [r(w) for w in ws]
        fs = [r(f) for f in fs]
        if fs and len(fs) > 1 and g.flip():
            fs = g.perm(fs)
        fields += fs
    # parameters used by no exotic field yet still need one: covered by the field lists above (const parameters need none)
    fields = list(fields)
    lt_extra = [Param("lt", n, c, bounds=d.split(": ", 1)[1] if ": " in d else "") for kind, n, d, c in extra if kind == "lt"]
    other = []
    for kind, n, d, c in extra:
        if kind == "lt":
            continue
        if kind == "const":
            b, df = (d.split(": ", 1)[1].split(" = ") + [""])[:2]
            other.append(Param("const", n, c, bounds=b, default=df))
        else:
            rest = d[len(n):]
            df = ""
            if " = " in rest and not re.search(r"<[^>]* = ", rest):
                rest, df = rest.split(" = ", 1)
            b = rest.lstrip(":").strip()
            p = Param("ty", n, c, bounds=b, default=df, sized=True)
            p.raw = rest
            other.append(p)
    item.params = [p for p in item.params if p.kind == "lt"] + lt_extra + [p for p in item.params if p.kind != "lt"] + other
    tail_ok = True
    for p in reversed([p for p in item.params if p.kind != "lt"]):
        tail_ok = tail_ok and bool(p.default)
        if not tail_ok:
            p.default = ""
    item.where += where
    if any("Self" in w for w in item.where):
        item.where += [f"{t.name}: {l.name}" for t in item.params if t.kind in ("ty", "lt") for l in item.params if l.kind == "lt" and l is not t]
    item.where = list(dict.fromkeys(item.where))
    vs = [v for v in item.variants if v.shape != "unit"]
    for i, t in enumerate(fields):
        v = g.pick(vs)
        v.fields.insert(g.int(0, len(v.fields)), Field(f"x{i}" if v.shape == "named" else None, Ty(t, t), pin=g.flip(), vis=g.pick(["", "", "pub"]) if item.kind == "struct" else ""))
    if not item.all_fields():
        v = vs[0]
        v.fields.append(Field("z" if v.shape == "named" else None, Ty("u8", "u8"), pin=g.flip()))
    if g.chance(1, 2):
        # every field called something that generated code might call its own locals
        for v in item.variants:
            if v.shape == "named":
                pool = [n for n in dict.fromkeys(ODD_NAMES + LOCALS) if n not in [p.name for p in item.params] and n.replace("r#", "") not in [f.name.replace("r#", "") for f in v.fields]]
                for f in v.fields:
                    if g.chance(2, 3):
                        f.name = pool.pop(g.int(0, len(pool) - 1))
        labels.append("names:odd")
    if item.kind == "enum" and not item.args:
        item.args = {"project": "PjM", "project_ref": "PjR"} if g.chance(4, 5) else {}
    if g.chance(1, 4) and not item.args.get("pinned_drop") and not item.args.get("project_replace"):
        item.args["pinned_drop"] = True
    if item.name in ("T0", "T1"):
        item.name = "S"
    if any("HasK" in f.ty.src for f in item.all_fields()):
        item.where = [w for w in item.where if not re.search(r"\bSelf\b", w)]      # cyclic otherwise
    classify(item)
    item.classes |= set(labels)
    return item


LOCALS = ["result", "guard", "guards", "this", "value", "me", "x", "it", "old", "new", "ret", "out", "res", "tmp", "ptr", "slot", "own", "replacement", "field", "fields", "inner", "val", "v", "f", "p", "pinned", "proj", "source",
          "overwrite", "drop", "unpin", "get_unchecked_mut", "self_ptr", "read", "write", "mem", "core", "pin_project", "item", "Self_", "dest", "moved", "k", "t"]


def decl_fix(item):
    """generics with bounds rendered exactly as written (`T:`, `T: Clone +`)."""
    return item


def autos_and_layout(item, own_a, own_b, tail=False):
    s = ""
    for t in AUTOS:
        s += f"    const _: () = assert!(holds!({own_a}: {t}) == holds!({own_b}: {t}), \"{t}\");\n"
    for e in ("size_of", "align_of"):
        s += f"    const _: () = assert!(std::mem::{e}::<{own_a}>() == std::mem::{e}::<{own_b}>(), \"{e}\");\n"
    s += f"    const _: () = assert!(std::mem::size_of::<Option<{own_a}>>() == std::mem::size_of::<Option<{own_b}>>(), \"size of Option\");\n"
    s += f"    const _: () = assert!(std::mem::needs_drop::<{own_a}>() == std::mem::needs_drop::<{own_b}>(), \"needs_drop\");\n" if not item.args.get("pinned_drop") else ""
    if item.kind == "struct":
        for i in range(len(item.variants[0].fields)):
            s += f"    const _: () = assert!(std::mem::offset_of!({own_a}, {item.access(i)}) == std::mem::offset_of!({own_b}, {item.access(i)}), \"offset of field {i}\");\n"
    return s


def pubitem(item):
    it = copy.deepcopy(item)
    it.vis = "pub"
    for f in it.all_fields():
        f.vis = "pub" if it.kind == "struct" else ""
    return it


def kimpl(item):
    return f"    pub trait HasK {{ type K; type L; }}\n" + impl_for(item, "HasK", "type K = u8; type L = Option<Self>;") if any("HasK" in f.ty.src for f in item.all_fields()) else ""


def project_uses(item):
    s = ""
    for m, r in (("project", "Pin<&mut Self>"), ("project_ref", "Pin<&Self>")):
        if item.exists(m):
            s += f"fn use_{m}(self: {r}) {{ let _ = self.{m}(); }} "
    if item.exists("project_replace"):
        s += "fn use_project_replace(self: Pin<&mut Self>, v: Self) { let _ = self.project_replace(v); }"
    return f"    impl{item.generics_decl(defaults=False)} {item.name}{item.generics_use()}{item.where_str()} {{ {s} }}\n"


def acceptance(g):
    item = exotic_item(g)
    it = pubitem(item)
    macro = it.render() + (pinned_drop_impl(it) if it.args.get("pinned_drop") else "") + kimpl(it) + project_uses(it)
    if it.args.get("unpin") == "UnsafeUnpin" and g.flip():
        macro += impl_for(it, "UnsafeUnpin", kw="unsafe ")
    plain = it.render(macro=False) + kimpl(it)
    ca = it.conc(name="crate::a::m::" + it.name)
    cb = it.conc(name="crate::b::m::" + it.name)
    asserts = "mod z {\n    use vsut::*; use std::marker::{PhantomData, PhantomPinned};\n" + autos_and_layout(it, ca, cb) + "}\n"
    w = lambda mod, body, u: f"pub mod {mod} {{ pub mod m {{\n{u}{PRE}{body.replace('crate::LOCAL', 'crate::' + mod + '::m')}}} }}\n"
    src = ALLOW + w("a", macro, USES) + w("b", plain, USES_PLAIN) + asserts
    psrc = ALLOW + w("a", plain, USES_PLAIN) + w("b", plain, USES_PLAIN) + asserts
    return case([prog(src, name="acceptance", why="the plain definition is valid and has the same layout and auto traits", plain_src=psrc)], it.classes | {"kind:acceptance"}, True,
                f"{it.kind} {it.generics_decl()} with exotic parts")


# ------------------------------------------------------------------ (a) run-time comparison with derives
DTY = ["u8", "u16", "String", "bool", "()", "Option<u8>", "(u8, u32)", "[u8; 3]", "Vec<u16>", "char", "i64", "Option<String>", "&'static str", "Box<u8>", "PhantomData<u8>"]
DCOPY = ["u8", "u16", "bool", "()", "Option<u8>", "(u8, u32)", "[u8; 3]", "char", "i64", "&'static str", "PhantomData<String>"]


def derive_item(g):
    copy_ = g.chance(1, 5)
    pool = DCOPY if copy_ else DTY
    item = Item(g.pick(["struct", "enum"]), "S", [], [], [])
    for i in range(g.weighted([(2, 0), (3, 1), (1, 2)])):
        item.params.append(Param("ty", TPARAMS[i], g.pick([t for t in pool if "Phantom" not in t]), bounds=g.pick(["", "", "Any1"])))
    if g.chance(1, 4):
        item.params.append(Param("const", "N", "2", bounds="usize"))
    if g.chance(1, 4):
        item.params.insert(0, Param("lt", g.pick(["'a", "'pin"]), "'static"))

    def fty():
        c = [Ty(t, t) for t in (g.pick(pool),)]
        for p in item.params:
            if p.kind == "ty":
                c += [Ty(p.name, p.conc), Ty(f"Option<{p.name}>", f"Option<{p.conc}>")]
            if p.kind == "lt":
                c += [Ty(f"&{p.name} str", "&'static str")]
        return g.pick(c)

    def fields(shape, lo):
        return [] if shape == "unit" else [Field(FIELD_NAMES[i] if shape == "named" else None, fty(), pin=g.flip()) for i in range(g.int(lo, 4))]
    if item.kind == "struct":
        sh = g.pick(["named", "tuple"])
        item.variants = [Variant(None, sh, fields(sh, 1))]
    else:
        for i in range(g.int(1, 4)):
            sh = g.pick(["named", "tuple", "unit"])
            item.variants.append(Variant(VARIANTS[i], sh, fields(sh, 0)))
        if not item.all_fields():
            item.variants[0] = Variant("A", "tuple", [Field(None, fty(), pin=True)])
    v0 = [v for v in item.variants if v.shape != "unit"][0]
    for p in item.params:
        if p.kind == "const":
            continue
        t = f"PhantomData<&{p.name} u8>" if p.kind == "lt" else p.name
        v0.fields.append(Field("m_" + p.name.strip("'").lower() if v0.shape == "named" else None, Ty(t, t.replace(p.name, p.conc)), pin=g.flip()))
    d = ["Clone", "Debug"] + g.subset(["PartialEq", "Hash", "Default"])
    if copy_:
        d.append("Copy")
    if "PartialEq" in d:
        d += g.subset(["Eq"]) + g.subset(["PartialOrd"])
        if "Eq" in d and "PartialOrd" in d and g.flip():
            d.append("Ord")
    if "Default" in d and item.kind == "enum":
        un = [v for v in item.variants if v.shape == "unit"]
        if un:
            un[0].attrs.append("#[default]")
        else:
            d.remove("Default")
    d = g.perm(d)
    cut = g.int(0, len(d))
    if d[:cut]:
        item.pre.append(f"#[derive({', '.join(d[:cut])})]")
    if d[cut:]:
        item.post.append(f"#[derive({', '.join(d[cut:])})]")
    rp = g.weighted([(6, None), (1, "C"), (1, "align(16)")] + ([(1, "u8"), (1, "C, u8")] if item.kind == "enum" else []))
    if rp:
        (item.pre if g.flip() else item.post).append(f"#[repr({rp})]")
        if g.chance(1, 2):
            more = g.pick({"C": ["align(64)", "align(8)"], "align(16)": ["C", "align(64)", "align(2)"], "u8": ["align(32)", "C"], "C, u8": ["align(16)"]}[rp])
            (item.pre if g.flip() else item.post).append(f"#[repr({more})]")
            item.classes.add("repr:twice")
    for a in g.subset(["#[allow(dead_code)]", "#[allow(unused)]", "#[doc = \"one\"]", "#[doc = \"two\"]", "#[cfg_attr(all(), allow(unused))]", "#[cfg_attr(any(), repr(packed))]"]) if g.chance(1, 4) else []:
        (item.pre if g.flip() else item.post).append(a)
    gen_args(g, item, {"replace": "maybe" if not copy_ else False, "unpin": "maybe"})
    item.derives = d
    extra = set(item.classes)
    classify(item)
    item.classes |= extra | {"derive:" + x for x in d} | ({"repr:" + rp} if rp else set())
    return item


def derive_part(g):
    item = derive_item(g)
    it = pubitem(item)
    d = item.derives
    mk = "    pub fn mk(v: usize, s: u64) -> C { match v {\n"
    for vi, v in enumerate(it.variants):
        vals = [(f"{f.name}: " if v.shape == "named" else "") + f"mkv::<{f.ty.conc}>(s * 3 + {i})" for i, f in enumerate(v.fields)]
        e = it.vpath(vi) + (" { " + ", ".join(vals) + " }" if v.shape == "named" else "(" + ", ".join(vals) + ")" if v.shape == "tuple" else "")
        mk += f"        {vi if vi + 1 < len(it.variants) else '_'} => {e},\n"
    mk += "    } }\n"
    # matching by value, by reference, with binding modes and rest patterns
    un = "    pub fn un(x: C) -> Vec<String> { let mut o = vec![]; { match &x {\n"
    for vi, v in enumerate(it.variants):
        un += f"        {it.pat(vi)} => {{ o.push(\"{vi}\".to_string()); " + " ".join(f"o.push(f{i}.fp());" for i in range(len(v.fields))) + " }\n"
    un += "    } } match x {\n"
    for vi, v in enumerate(it.variants):
        rest = it.vpath(vi) + (" { .. }" if v.shape == "named" else "(..)" if v.shape == "tuple" else "")
        if v.fields:
            un += f"        {it.pat(vi)} => {{ " + " ".join(f"let _y = f{i}; o.push(_y.fp());" for i in range(len(v.fields))) + " }\n"
        else:
            un += f"        {rest} => {{}}\n"
    un += "    } o }\n"
    upd = ""
    v0 = it.variants[0]
    if it.kind == "struct" and v0.shape == "named":
        upd = f"    pub fn upd(x: C, y: C) -> C {{ {it.name} {{ {v0.fields[0].name}: x.{v0.fields[0].name}, ..y }} }}\n"
    ty = f"    pub type C = {it.conc()};\n"
    common = ty + mk + un + upd
    obs = "    fn obs_@(log: &mut Vec<String>) { use @::*; "
    nv = len(it.variants)
    obs += f"for v in 0..{nv} {{ for s in 0..4u64 {{ let a = mk(v, s); let b = mk((v + 1) % {nv}, s + 1); let c = mk(v, s); "
    obs += "log.push(format!(\"{:?} {:#?}\", a, a)); log.push(un(a.clone()).join(\",\")); "
    if upd:
        obs += "log.push(format!(\"{:?}\", upd(mk(v, s), mk(v, s + 2)))); "
    if "PartialEq" in d:
        obs += "log.push(format!(\"{} {} {}\", a == a.clone(), a == b, a == c)); "
    if "PartialOrd" in d:
        obs += "log.push(format!(\"{:?} {:?}\", a.partial_cmp(&b), b.partial_cmp(&a))); "
    if "Ord" in d:
        obs += "log.push(format!(\"{:?}\", a.cmp(&b))); "
    if "Hash" in d:
        obs += "{ use std::hash::*; let mut h = std::collections::hash_map::DefaultHasher::new(); a.hash(&mut h); log.push(format!(\"{}\", h.finish())); } "
    if "Copy" in d:
        obs += "{ let q = a; let r = a; log.push(format!(\"{:?}{:?}\", q, r)); } "
    obs += "} } "
    if "Default" in d:
        obs += "log.push(format!(\"{:?}\", C::default())); "
    obs += "log.push(std::any::type_name::<C>().rsplit(\"::\").next().unwrap().to_string()); "
    # offsets as seen in values (enums too)
    obs += f"for v in 0..{nv} {{ let x = mk(v, 1); let base = &x as *const _ as usize; log.push(format!(\"{{:?}}\", match &x {{ "
    for vi, v in enumerate(it.variants):
        obs += f"{it.pat(vi)} => vec![" + ", ".join(f"f{i} as *const _ as usize - base" for i in range(len(v.fields))) + "] as Vec<usize>, "
    obs += "})); }"
    obs += " }\n"
    A = "    pub mod a {\n" + USES + "@DEFA@" + common + "    }\n"
    B = "    pub mod b {\n" + USES_PLAIN + it.render(macro=False) + common + "    }\n"
    body = A + B + "    use vsut::*; use std::marker::{PhantomData, PhantomPinned};\n" + autos_and_layout(it, "a::C", "b::C") + obs.replace("@", "a") + obs.replace("@", "b")
    body += "    pub fn run() { let (mut x, mut y) = (vec![], vec![]); obs_a(&mut x); obs_b(&mut y); assert_eq!(x, y); assert!(!x.is_empty()); }\n"
    return {"src": body.replace("@DEFA@", it.render()), "plain": body.replace("@DEFA@", it.render(macro=False)), "classes": it.classes | {"kind:derives"}, "nontrivial": True}


# ------------------------------------------------------------------ (c) acceptance of client code, decided by the plain definition
def client(g):
    item = gen_item(g, methods=8, replace="maybe", unpin="maybe", many=False, named=True if g.flip() else None, no_self_where=True)
    it = pubitem(item)
    own = it.name + it.generics_use()
    gd = it.generics_decl(defaults=False)
    lts = [p for p in it.params if p.kind == "lt"]
    tys = [p for p in it.params if p.kind == "ty"]
    k = g.pick(["variance", "dropck", "must_use", "deprecated", "non_exhaustive", "move-out", "const", "repr-cast", "exhaustive", "wrong-arity", "static-promo", "recursion", "autoderef", "missing-field", "assign", "cell-variance"])
    post, flags = "", []
    if k == "must_use":
        it.post.append("#[must_use]")
        post = f"#![allow(dead_code)] mod u {{ fn f(x: impl Fn() -> super::a::m::C) {{ {g.pick(['x();', 'let _ = x();', 'let _y = x();'])} }} }}"
        flags = ["-Dunused_must_use"]
    elif k == "deprecated":
        (it.pre if g.flip() else it.post).append("#[deprecated]")
        post = f"mod u {{ {g.pick(['use super::a::m::' + it.name + ' as Z;', 'fn f() {}'])} }}"
        flags = ["-Ddeprecated"]
    elif k == "non_exhaustive":
        (it.pre if g.flip() else it.post).append("#[non_exhaustive]")
        post = "mod u { pub fn f(x: &super::a::m::C) { } }"
    elif k == "variance" and lts:
        l = g.pick(lts)
        o2 = inst_name(it, {p.name: ("'ss" if p is l else p.name) for p in it.params})
        dirn = g.flip()
        f = f"    pub fn var<'ss, {gd[1:-1]}>(x: {own if dirn else o2}, _w: &{own}, _v: &{o2}) -> {o2 if dirn else own}{it.where_str([l.name + ': ' + chr(39) + 'ss'])} {{ x }}\n"
        post = None
        extra = f
    elif k == "cell-variance" and tys:
        p0 = tys[0]
        m1 = {p.name: ("&'zz u8" if p is p0 else p.conc) for p in it.params}
        m2 = {p.name: ("&'ss u8" if p is p0 else p.conc) for p in it.params}
        extra = f"    pub fn var<'ss, 'zz: 'ss>(x: {inst_name(it, m1)}) -> {inst_name(it, m2)} {{ x }}\n"
        post = None
    elif k == "dropck" and lts:
        l = lts[0]
        m = {p.name: p.conc for p in it.params}
        m[l.name] = "'_"
        # a value that refers to something declared after it
        extra = f"    pub fn dc(make: impl for<'q> Fn(&'q u8) -> {inst_name(it, {**m, l.name: chr(39) + 'q'})}) {{ let x; let y = 5u8; x = make(&y); }}\n"
        post = None
    elif k == "move-out" and it.kind == "struct":
        v = it.variants[0]
        i = g.int(0, len(v.fields) - 1)
        j = g.int(0, len(v.fields) - 1)
        extra = f"    pub fn mo{gd}(x: {own}){it.where_str()} {{ let a = x.{it.access(i)}; let b = x.{it.access(j)}; }}\n"
        post = None
    elif k == "exhaustive":
        vs = list(range(len(it.variants)))
        if g.flip() and len(vs) > 1:
            vs.pop(g.int(0, len(vs) - 1))
        arms = ", ".join(it.vpath(v) + (" { .. }" if it.variants[v].shape == "named" else "(..)" if it.variants[v].shape == "tuple" else "") + " => {}" for v in vs)
        extra = f"    pub fn ex{gd}(x: &{own}){it.where_str()} {{ match x {{ {arms} }} }}\n"
        post = None
    elif k == "wrong-arity":
        a = [p.conc for p in it.params]
        if g.flip():
            a = a[:-1] if a else ["u8"]
        elif g.flip():
            a = a + ["u8"]
        extra = f"    pub type Ar = {it.name}{'<' + ', '.join(a) + '>' if a else ''};\n    pub fn ar(_: Ar) {{}}\n"
        post = None
    elif k == "missing-field" and it.kind == "struct" and it.variants[0].shape == "named":
        fs = [f.name for f in it.variants[0].fields]
        if g.flip():
            fs.pop(g.int(0, len(fs) - 1))
        if g.chance(1, 4):
            fs.append("nope")
        extra = f"    pub fn mf{gd}(x: {own}) -> {own}{it.where_str()} {{ let {it.name} {{ {', '.join(fs)} }} = x; {it.name} {{ {', '.join(fs)} }} }}\n"
        post = None
    elif k == "assign" and it.kind == "struct":
        i = g.int(0, len(it.variants[0].fields) - 1)
        extra = f"    pub fn asg{gd}({g.pick(['x: &mut ', 'mut x: ', 'x: '])}{own}, y: {own}){it.where_str()} {{ x.{it.access(i)} = y.{it.access(i)}; }}\n"
        post = None
    elif k == "const":
        extra = f"    pub const fn cf{gd}(x: {own}) -> {own}{it.where_str()} {{ x }}\n    pub const CO: Option<{it.conc()}> = None;\n" + (f"    pub const fn cd{gd}(_x: {own}){it.where_str()} {{ }}\n" if g.flip() else "")
        post = None
    else:
        extra = f"    pub struct Rec{gd}(pub Option<Box<Self>>, pub {own}){it.where_str()};\n    pub fn ad{gd}(x: &Box<{own}>) -> &{own}{it.where_str()} {{ x }}\n"
        post = None
    if post is None:
        post = ""
    else:
        extra = ""
    def render(macro):
        return (ALLOW.replace("deprecated", "private_bounds") if k == "deprecated" else ALLOW.replace("unused, ", "dead_code, ") if k == "must_use" else ALLOW) + "pub mod a { pub mod m {\n" + (USES if macro else USES_PLAIN) + it.render(macro=macro) \
            + (f"    pub type C = {it.conc()};\n" if k in ("must_use", "non_exhaustive") else "") + extra + "} }\n" + post.replace("#![allow(dead_code)] ", "") + "\n"
    p = {"src": render(True), "plain": render(False), "mode": "same", "expect": "ok", "edition": "2021", "name": "client-" + k, "flags": flags, "strict": bool(flags)}
    return case([p], it.classes | {"client:" + k}, True, f"client code ({k}) on {it.kind} {it.generics_decl()}")


def gen(g, tier):
    k = g.weighted([(4, "acc"), (3, "derive"), (3, "client")])
    if k == "acc":
        return acceptance(g)
    if k == "client":
        return client(g)
    return batch_case([derive_part(g) for _ in range(g.int(1, 3))], "derives", "definitions with derives compared with their plain twins")
