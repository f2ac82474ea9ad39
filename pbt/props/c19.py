"""C19: the attributes work in any surrounding scope, edition and lint setting."""
import copy, hashlib
from ..core import ALLOW_HERE, batch_case, case, prog
from .. import items
from ..items import *
from . import c01, c02, c07, c09, c17

LEVEL = "exploration"
CASES = {"quick": 1200, "thorough": 12000}
K = 3
RULE = ("A case is one of: (a) a generated definition moved into a hostile scope - a module with random shadowing items (types, traits, modules, functions, constants, macros, primitive types, blanket traits with "
        "clashing method names) under standard names, optionally no_implicit_prelude, its own name, parameters and projection names also taken from the standard library; inside a function, closure, constant or method; or "
        "written by macro_rules from fragments (item, tt, ident, ty, vis, meta, lifetime, expr) - in any edition with unsafe_code forbidden, driven by the histories and oracles of C01, C02, C07, C09; (b) the same as "
        "a no_std library; (c) a definition compiled plain and annotated with every rustc lint (or every clippy lint) reported: no lint may fire that does not fire for the plain one. Non-trivial: every "
        "case with at least one hostile element, and every lint case.")

STD = {}
for _n in "Option Some None".split():
    STD[_n] = "::core::option::Option" + ("" if _n == "Option" else "::" + _n)
STD.update({"Result": "::core::result::Result", "Vec": "::std::vec::Vec", "Box": "::std::boxed::Box", "String": "::std::string::String", "Pin": "::core::pin::Pin", "PhantomData": "::core::marker::PhantomData",
            "PhantomPinned": "::core::marker::PhantomPinned", "Sized": "::core::marker::Sized", "Send": "::core::marker::Send", "Sync": "::core::marker::Sync", "Unpin": "::core::marker::Unpin"})
for _n in "u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize bool char str f32 f64".split():
    STD[_n] = "::core::primitive::" + _n
for _n in "Tr TrP Al16 Al64 Link Assoc Any1 Any2 Conv Id Alias Fp Mk".split():
    STD[_n] = "::vsut::" + _n
PATH = re.compile(r"'(?:r#)?\w+|(?:::)?(?:r#)?[^\W\d]\w*(?:::(?:r#)?[^\W\d]\w*)*")


def absolute(s, m):
    """Types as written -> the same types with absolute paths, parameters renamed by m."""
    def r(k):
        w = k.group(0)
        if w.startswith("::") or w.startswith("'"):
            return m.get(w, w)
        h, _, t = w.partition("::")
        if h in ("std", "core", "vsut"):
            return "::" + w
        h = m.get(h) or STD.get(h, h)
        return h + ("::" + t if t else "")
    return PATH.sub(r, s)


TYPES = "Option Result Vec Box String Pin PhantomData PhantomPinned Sized Send Sync Unpin Drop Copy Clone Default Debug Fn FnMut FnOnce Iterator IntoIterator From Into AsRef AsMut ToOwned ToString Eq Ord PartialEq Deref DerefMut ManuallyDrop MaybeUninit UnsafeUnpin PinnedDrop AlwaysUnpin Wrapper UnsafeDropInPlaceGuard UnsafeOverwriteGuard PinnedFieldsOf NonNull Ordering Future Extend TryFrom FromIterator".split()
PRIMS = "u8 u16 usize bool str char f64 i32 u32 u64".split()
MODS = "core std alloc pin_project pin_project_internal mem ptr marker ops option pin vsut private_".split()
VALUES = "drop forget size_of align_of replace read write new take swap Some None Ok Err project project_ref project_replace get_unchecked_mut new_unchecked drop_in_place".split()
MACROS = "panic assert assert_eq vec matches unreachable todo unimplemented drop addr_of addr_of_mut stringify concat format compile_error unsafe_ pin ready debug_assert println".split()
CONSTS = "this guard value result ptr pinned lifetime inner replacement target that other x y me slot".split()
METHODS = ["get_unchecked_mut", "get_mut", "get_ref", "as_ref", "as_mut", "into_inner", "into_ref", "set", "deref", "deref_mut", "drop", "new", "project", "project_ref", "project_replace", "map_unchecked", "clone", "read", "write", "cast", "borrow", "borrow_mut", "into", "as_ptr", "as_mut_ptr"]


def shadows(g, taken):
    out, n = [], 0
    used = set(taken)

    def some(pool, k):
        l = []
        for _ in range(k):
            x = g.pick(pool)
            if x not in used:
                used.add(x)
                l.append(x)
        return l
    for x in some(TYPES, g.int(0, 8)):
        out.append(g.pick([f"pub struct {x};", f"pub struct {x}();", f"pub trait {x} {{}}", f"pub enum {x} {{}}", f"pub mod {x} {{}}", f"pub type {x} = ();", f"pub trait {x} {{ fn drop(&self); fn project(self); }}", f"pub union {x} {{ a: () }}"]))
    for x in some(PRIMS, g.int(0, 3)):
        out.append(g.pick([f"pub struct {x};", f"pub mod {x} {{}}", f"pub trait {x} {{}}"]))
    for x in some([m for m in MODS], g.int(0, 4)):
        out.append(g.pick([f"pub mod {x} {{}}", f"pub mod {x} {{ pub mod pin {{}} pub mod marker {{}} pub mod __private {{}} }}", f"pub struct {x};", f"pub mod {x} {{ pub struct Pin; pub struct PhantomData; }}"]))
    for x in some(VALUES, g.int(0, 4)):
        if x in ("Some", "None", "Ok", "Err"):
            out.append(g.pick([f"pub struct {x};", f"pub const {x}: () = ();", f"pub fn {x}() {{}}"]))
        else:
            out.append(g.pick([f"pub fn {x}() {{}}", f"pub fn {x}(_: ()) -> ! {{ loop {{}} }}"]))
    for x in some(CONSTS, g.int(0, 4)):
        # (constants, statics and unit structs named like a field: known findings)
        out.append(g.pick([f"pub const {x}: () = ();", f"pub static {x}: () = ();", f"pub struct {x};", f"pub fn {x}() {{}}"]))
    mac = []
    for x in some(MACROS, g.int(0, 3)):
        mac.append(f"macro_rules! {x} {{ ($($t:tt)*) => {{ + }} }}")
    if g.chance(1, 3):
        ms = list(dict.fromkeys(g.pick(METHODS) for _ in range(g.int(1, 6))))
        out.append("pub trait Evil_ { " + " ".join(f"fn {m}(self) -> () where Self: ::core::marker::Sized {{}}" for m in ms) + " } impl<Q: ?::core::marker::Sized> Evil_ for Q {}")
    return mac, out


HNAMES = "Option Pin Box Drop Unpin Sized Result Copy Send PhantomData Some None Vec UnsafeUnpin PinnedDrop AlwaysUnpin Wrapper String Iterator This core std pin_project Project ProjectRef Projection ProjectionRef r#type S u8 str".split()
PARAM_NAMES = "Option Pin Box Drop Unpin Sized PhantomData Result Send Some Wrapper core std this T0 PinnedDrop UnsafeUnpin Fn u8 __T".split()


class Hostile(Item):
    """The definition lives in a hostile module (and/or comes from macro_rules); outside it is known under its normal names."""

    def hostile(self):
        """A copy with absolute types and renamed parameters."""
        h = self.h
        m = dict(h["ren"])
        it = copy.deepcopy(self)
        it.__class__ = Item
        ab = lambda s: absolute(s, m)
        for p in it.params:
            if p.kind == "const":
                p.bounds = ab(p.bounds)
                p.default = p.default
            else:
                p.bounds, p.default = ab(p.bounds), ab(p.default)
            p.name = m.get(p.name, p.name)
        it.where = [ab(w) for w in it.where]
        for f in it.all_fields():
            f.ty = copy.copy(f.ty)
            f.ty.src = ab(f.ty.src)
            f.pre = [a for a in f.pre if not a.startswith("//") and "rustfmt" not in a]
            f.post = [a for a in f.post if not a.startswith("//") and "rustfmt" not in a]
            if f.vis in ("", "pub(self)", "pub(super)") and self.kind == "struct":
                f.vis = "pub"
        it.name = h["name"]
        it.vis = h["vis"]
        it.pre = [a for a in it.pre if not a.startswith("//")]
        it.post = [a for a in it.post if not a.startswith("//")]
        for k in ("project", "project_ref", "project_replace"):
            if isinstance(it.args.get(k), str):
                it.args[k] = h["proj"].get(it.args[k], it.args[k])
        return it

    def imports(self):
        h = self.h
        names = [(h["name"], self.name)] + [(h["proj"][v], v) for k, v in self.args.items() if isinstance(v, str) and k.startswith("project")]
        return names

    def render(self, macro=True, path="pin_project", name=None, pin_attr="#[pin]", attrs=True):
        h = self.h
        it = self.hostile()
        body = it.render(macro, path="::pin_project::pin_project" if h["abs"] else "pin_project")
        if h["frag"] and macro:
            body = fragments(body, h["frag"], it)
        it.methods = h.get("methods", ())
        body += it.method_impl()
        use = "" if h["abs"] else "    use ::pin_project::pin_project;\n"
        inner = ("#![no_implicit_prelude] " if h["noprelude"] else "") + "\n    " + " ".join(h["shadow_mac"] + h["shadow"]) + "\n" + use
        imp = "".join(f"    #[allow(unused_imports)] use self::hostile_::{a} as {b};\n" for a, b in self.imports()[:None if macro else 1])
        return "    mod hostile_ {\n" + inner + body + "    }\n" + imp

    def wrap_drop(self, text):
        h = self.h
        m = dict(h["ren"])
        # rewritten as a whole: impl header, bounds and body only use absolute paths
        t = text.replace("#[pinned_drop] ", "#[::pin_project::pinned_drop] ")
        t = absolute(t.replace("user_drop(", "::vsut::user_drop("), {**m, "PinnedDrop": "PinnedDrop", self.name: "super::hostile_::" + h["name"]})
        sh = [x for x in h["shadow"] if "Evil_" not in x]       # (the user's own body calls methods)
        return "    mod hostile_drop_ {\n" + ("#![no_implicit_prelude] " if h["noprelude"] else "") + " ".join(h["shadow_mac"] + sh) + "\n" + t + "    }\n"


def fragments(body, kind, it):
    """The same definition written by macro_rules from fragments."""
    lines = body.strip("\n")
    if kind == "item":
        # attributes come from the macro, the item is a fragment
        k = lines.index("pin_project")
        j = lines.rindex("#[", 0, k)
        e = lines.index("]\n", k) + 1
        pre, attr, rest = lines[:j], lines[j:e], lines[e:]
        return f"    macro_rules! frag_ {{ ($i:item) => {{ {pre}{attr} $i }} }}\n    frag_! {{ {rest} }}\n"
    if kind == "item-all":
        return f"    macro_rules! frag_ {{ ($i:item) => {{ $i }} }}\n    frag_! {{ {lines} }}\n"
    if kind == "tt":
        return f"    macro_rules! frag_ {{ ($($t:tt)*) => {{ $($t)* }} }}\n    frag_! {{ {lines} }}\n"
    if kind == "none":
        return f"    macro_rules! frag_ {{ () => {{ {lines} }} }}\n    frag_! {{}}\n"
    # field types, names, markers and the type name become fragments
    pats, args, n = [], [], 0
    it2 = copy.deepcopy(it)

    def new(spec, val):
        v = f"$f{len(pats)}"
        pats.append(f"{v}:{spec}")
        args.append(val)
        return v
    marks = []

    def mark(spec, val):
        k = f"\x01{len(marks)}\x02"
        marks.append((k, spec, val))
        return k
    if "ident" in kind:
        it2.name = mark("ident", it2.name)
    if "vis" in kind:
        it2.vis = mark("vis", it2.vis)
    for f in it2.all_fields():
        if "ty" in kind:
            f.ty = copy.copy(f.ty)
            f.ty.src = mark("ty", f.ty.src)
        if "ident" in kind and f.name:
            f.name = mark("ident", f.name)
        if "meta" in kind and f.pin:
            f.pin = False
            f.post = ["#[" + mark("meta", "pin") + "]"] + f.post
        if "vis" in kind and it2.kind == "struct" and f.vis:
            f.vis = mark("vis", f.vis)
    if "lifetime" in kind:
        for p in it2.params:
            pass
    path = "::pin_project::pin_project" if "::pin_project::pin_project" in body else "pin_project"
    t = it2.render(path=path)
    for k, spec, val in marks:
        t = t.replace(k, new(spec, val))
    return f"    macro_rules! frag_ {{ ({', '.join(pats)}) => {{ {t} }} }}\n    frag_! {{ {', '.join(args)} }}\n"


FRAGS = ["item", "item-all", "tt", "none", "ident,ty", "ty", "ident", "meta", "ident,ty,meta,vis", "vis", "ty,meta"]


def hostile(g, item):
    item.__class__ = Hostile
    used = {item.name, *[p.name for p in item.params]} | {f.name for f in item.all_fields() if f.name}
    taken = {"C", "T0"} | {v for v in item.args.values() if isinstance(v, str)} | {p.name for p in item.params}
    pick = lambda pool, keep: next((x for x in (g.pick(pool) for _ in range(4)) if x not in taken), keep)
    h = {"ren": {}, "proj": {}}
    nm = pick(HNAMES, item.name) if g.chance(1, 3) else item.name
    h["name"] = nm
    taken.add(nm)
    if nm != item.name:
        h["ren"][item.name] = nm
    for p in item.params:
        if p.kind != "lt" and g.chance(1, 3):
            # (a const parameter with the name of a type in scope cannot be passed on without braces: not a name one can use)
            x = pick(PARAM_NAMES if p.kind == "ty" else ["LEN", "LAYOUT", "ptr_", "guard_"], p.name)
            h["ren"][p.name] = x
            taken.add(x)
        else:
            taken.add(p.name)
    for k in ("project", "project_ref", "project_replace"):
        v = item.args.get(k)
        if isinstance(v, str):
            x = pick(HNAMES, v) if g.chance(1, 4) else v
            h["proj"][v] = x
            taken.add(x)
    # a constant, static or unit struct with the name of a field is a known finding
    h["methods"] = own_methods(g) if g.chance(1, 6) else ()
    names = {(f.name or "").replace("r#", "") for f in item.all_fields()}
    h["shadow_mac"], h["shadow"] = shadows(g, taken | names | {"pin_project", "pin"} | {x for x in h["ren"].values()}) if g.chance(4, 5) else ([], [])
    h["abs"] = g.chance(2, 3)
    h["noprelude"] = g.chance(1, 3)
    h["vis"] = g.pick(["pub", "pub(crate)", "pub(super)", "pub(in super)"]) if False else g.pick(["pub", "pub(crate)", "pub(in super)"])
    h["frag"] = g.pick(FRAGS) if g.chance(1, 3) else ""
    if h["frag"] == "item" and any("#[" in a and "cfg" in a for a in item.pre):
        h["frag"] = "tt"
    item.h = h
    item.pre = [a for a in item.pre if a != "#[deprecated]"]
    item.post = [a for a in item.post if a != "#[deprecated]"]
    item.elements = len(h["shadow"]) + len(h["shadow_mac"]) + len(h["ren"]) + h["noprelude"] + bool(h["frag"]) + sum(a != b for a, b in h["proj"].items())
    item.classes |= {"shadow:" + ("0" if not h["shadow"] else "1-5" if len(h["shadow"]) <= 5 else "6+"), "no_implicit_prelude" if h["noprelude"] else "prelude", "frag:" + (h["frag"] or "-"),
                     "renamed" if h["ren"] else "own-names"}
    return item


def with_hostile(f, *a):
    made = []

    def post(g, item):
        made.append(hostile(g, item))
        return item
    items.POST = post
    try:
        r = f(*a)
    finally:
        items.POST = None
    return r, made


WRAPS = [("fn", "    pub fn run() {\n@\n    run() }\n"), ("closure", "    pub fn run() { let f = || {\n@\n    run() }; f() }\n"), ("const", "    const RUN_: fn() = {\n@\n    run };\n    pub fn run() { RUN_() }\n"),
         ("method", "    struct Outer_<T>(T); impl<T> Outer_<T> { fn go(&self) {\n@\n    run() } }\n    pub fn run() { Outer_(3u8).go() }\n"),
         ("generic", "    fn outer_<'a, T, U, const N: usize>(t: &'a T) {\n@\n    run() }\n    pub fn run() { outer_::<u8, u8, 3>(&4) }\n"), ("block", "    pub fn run() { let v = { let q = 4; {\n@\n    run() } q }; assert_eq!(v, 4); }\n"),
         ("trait", "    trait Outer_ { fn go(&self) {\n@\n    run() } } impl Outer_ for u8 {}\n    pub fn run() { 4u8.go() }\n")]


def part(g, tier):
    f = g.weighted([(5, c01.part), (2, c02.part), (3, c07.part), (3, c09.part)])
    mode = g.weighted([(3, "module"), (2, "inside")])
    if mode == "module":
        p, made = with_hostile(f, g, tier)
        p["nontrivial"] = any(m.elements >= 1 for m in made)
        p["classes"] = p["classes"] | {"scope:module"}
    else:
        p = f(g, tier)
        lab, w = g.pick(WRAPS)
        # `super` and `self` in visibilities mean the module, which is the same one
        p["src"], p["plain"] = w.replace("@", p["src"]), w.replace("@", p["plain"])
        p["nontrivial"] = True
        p["classes"] = p["classes"] | {"scope:" + lab}
    p["classes"].add("oracle:" + f.__module__.rsplit(".", 1)[1])
    return p


def edition(g):
    return g.pick(["2021", "2024", "2018", "2015"])


def run_case(g, tier):
    parts = [part(g, tier)] + [part(g, tier) for _ in range(K - 1) if g.chance(7, 8)]
    ed = edition(g)
    head = "extern crate vsut; extern crate pin_project;\n" if ed == "2015" else override(g, 10)
    if ed != "2015" and any(re.search(r"\b(struct|enum|union|mod|trait|type) pin_project\b|hostile_::pin_project\b", p["src"]) for p in parts):
        head = ""        # (the posing crate has a module of that name)
    flags = ["-Funsafe_code"] if g.flip() and "unsafe" not in head and not any("unsafe" in p["src"] for p in parts) else []
    c = batch_case(parts, "hostile", "definitions in hostile scopes", edition=ed, header=head, miri_flags=flags)
    c["classes"] = sorted(set(c["classes"]) | {"edition:" + ed} | ({"forbid-unsafe"} if flags else set()) | ({"posing-as-pin_project"} if "extern crate self" in head else set()))
    return c


# ------------------------------------------------------------------ (b) no_std
def nostd(g, tier):
    item = gen_item(g, tail=10, replace="maybe", unpin="maybe", pinned_drop="maybe", named=True if g.flip() else None)
    item = hostile(g, item)
    item.h["frag"] = ""
    item.h["name"] = item.name
    item.h["ren"] = {}
    item.h["proj"] = {v: v for v in item.args.values() if isinstance(v, str)}
    bad = {item.name, *[p.name for p in item.params], *item.h["proj"], "pin_project"}
    item.h["shadow"] = [s for s in item.h["shadow"] if s.split("{")[0].split("(")[0].split(":")[0].split(";")[0].split()[-1] not in bad and s.split()[2].rstrip(";(){:") not in bad]
    it = item.hostile()
    alloc = lambda s: s.replace("::std::boxed", "::alloc::boxed").replace("::std::vec", "::alloc::vec").replace("::std::string", "::alloc::string").replace("::std::", "::core::")
    body = alloc(it.render(path="::pin_project::pin_project"))
    plain = alloc(it.render(macro=False))
    uses = absolute(c17.project_uses(it), {"Pin": "::core::pin::Pin", **{p.name: p.name for p in it.params}})
    uses = alloc(uses)
    drop = alloc(absolute(pinned_drop_impl(it).replace("#[pinned_drop]", "#[::pin_project::pinned_drop]"), {"PinnedDrop": "PinnedDrop", **{p.name: p.name for p in it.params}, it.name: it.name})) if it.args.get("pinned_drop") else ""
    ed = edition(g)
    head = "#![no_std]\n" + ("#![no_implicit_prelude]\n" if g.chance(1, 3) else "") + "#![allow(unused, non_camel_case_types, non_snake_case, non_upper_case_globals, uncommon_codepoints, mixed_script_confusables)]\nextern crate alloc;\n" + ("extern crate vsut; extern crate pin_project; extern crate core as core_;\n" if ed == "2015" else "")
    if ed == "2015":
        # in 2015 absolute paths start at the crate root
        fix = lambda s: s.replace("::core::", "::core_::")
        body, plain, uses, drop = fix(body), fix(plain), fix(uses), fix(drop)
    sh = " ".join(item.h["shadow"])
    wrap = lambda b: head + "pub mod m {\n    " + (sh.replace("::core::", "::core_::") if ed == "2015" else sh) + "\n" + b + "}\n"
    flags = ["-Funsafe_code"] if g.flip() else []
    return case([prog(wrap(body + drop + uses), name="no_std", edition=ed, flags=flags, why="valid without std", plain_src=wrap(plain), externs=["pin_project", "vsut"])],
                item.classes | {"no_std", "edition:" + ed}, True, "no_std library")


# ------------------------------------------------------------------ (c) lints
RUSTC = ("absolute-paths-not-starting-with-crate ambiguous-negative-literals closure-returning-async-block deprecated-in-future elided-lifetimes-in-paths explicit-outlives-requirements ffi-unwind-calls if-let-rescope "
         "impl-trait-overcaptures impl-trait-redundant-captures let-underscore-drop macro-use-extern-crate meta-variable-misuse missing-copy-implementations missing-debug-implementations missing-docs missing-unsafe-on-extern "
         "non-ascii-idents redundant-imports redundant-lifetimes single-use-lifetimes tail-expr-drop-order trivial-casts trivial-numeric-casts unit-bindings unnameable-types unreachable-pub unsafe-attr-outside-unsafe unsafe-code "
         "unsafe-op-in-unsafe-fn unstable-features unused-extern-crates unused-import-braces unused-lifetimes unused-macro-rules unused-qualifications unused-results variant-size-differences keyword-idents-2018 keyword-idents-2024 "
         "rust-2018-idioms rust-2021-compatibility rust-2024-compatibility future-incompatible nonstandard-style unused let-underscore").split()
CLIPPY = ["all", "pedantic", "nursery", "restriction", "style", "complexity", "perf", "suspicious", "correctness"]
# Lints about #[allow] attributes as such and about item order fire on any macro that emits either (the repository's own lint test excludes them).
IGNORE = ["clippy::allow_attributes", "clippy::allow_attributes_without_reason", "clippy::arbitrary_source_item_ordering", "clippy::blanket_clippy_restriction_lints"]
# Known findings (known_findings.json): lints that fire on generated copies of the user's generics and field types.
KNOWN_LINTS = []
KNOWN_IN_MACROS = []
LNAMES = ["alpha", "beta", "gamma", "delta", "epsilon", "zeta", "eta", "theta", "iota", "kappa"]


LTYPES = ["::std::rc::Rc<Vec<u8>>", "Box<Vec<u8>>", "Option<Option<u8>>", "Vec<Box<u8>>", "&'static Box<u8>", "&'static Vec<u8>", "&'static String", "::std::sync::Arc<::std::sync::Mutex<bool>>", "::std::rc::Rc<::std::sync::Mutex<u8>>",
          "::std::collections::LinkedList<u8>", "::std::collections::HashMap<u8, ()>", "::std::vec::Vec<u8>", "::std::boxed::Box<u8>", "::core::option::Option<u8>", "::std::rc::Rc<Box<u8>>", "Box<&'static u8>", "Option<Box<Option<u8>>>",
          "(u8)", "((u8))", "&'static (u8)", "[(u8); 2]", "[u8; { 2 }]", "[u8; (2)]", "(Box<dyn Fn(u8) -> Result<Vec<(u8, u16, u32)>, Box<dyn ::std::error::Error>>>, u8, Option<Vec<Vec<u8>>>)", "*mut u8", "*const *const u8",
          "&'static mut &'static mut u8", "&'static Option<&'static u8>", "&'static Option<u8>", "fn(u8) -> u8", "for<'x> fn(&'x u8) -> &'x u8", "fn((u8, u8))", "Option<fn(&u8) -> &u8>", "::core::cell::Cell<u8>", "&'static ::core::cell::Cell<u8>",
          "bool", "[u8; 0]", "[u64; 600]", "f32", "char", "usize", "u128", "::core::marker::PhantomData<(u8)>", "::std::string::String", "::std::sync::Arc<String>", "::std::sync::Arc<::core::cell::RefCell<u8>>", "(u8,)", "()", "!".replace("!", "((), ())"),
          "&'static dyn ::core::any::Any", "&'static (dyn ::core::any::Any + 'static)", "Box<dyn ::core::any::Any + 'static>", "Box<dyn FnOnce() + Send + Sync + 'static>", "::core::result::Result<(), ()>", "::core::num::NonZeroU8", "::core::num::NonZero<u8>"]
DROPS = ["#[inline] fn drop(self: ::core::pin::Pin<&mut Self>) {}", "#[inline] fn drop(mut self: ::core::pin::Pin<&mut Self>) { let _re = self.as_mut(); }",
         "#[inline] fn drop(self: ::core::pin::Pin<&mut Self>) { let _this: ::core::pin::Pin<&mut Self> = self; }", "#[inline] fn drop(mut self: ::core::pin::Pin<&mut Self>) { self = self; let _ = &self; }",
         "#[inline] fn drop(self: ::core::pin::Pin<&mut Self>) { let _size = ::core::mem::size_of::<Option<&Self>>(); let cl = || ::core::mem::size_of_val(&self); let _n = cl(); }"]


def lint_item(g):
    """Clean code by default: documented, camel case, with a few doubtful features at random."""
    item = gen_item(g, tail=10, replace="maybe", unpin="maybe", pinned_drop="maybe", named=True, many=False, name=g.weighted([(6, "Subject"), (1, "subject"), (1, "Sub_ject"), (1, "SUBJECT"), (1, "Sübject")]), field_attrs=g.flip())
    item.vis = g.pick(["pub", "pub", "pub(crate)", ""])
    if item.kind == "enum" and g.chance(1, 3):
        fs = [f for f in item.all_fields() if not f.ty.uses]
        if fs:
            g.pick(fs).ty = Ty("[u64; 64]", "[u64; 64]")
    many = g.flip()
    for f in item.all_fields():
        if not f.ty.uses and (item.tail is None or f is not item.all_fields()[-1]) and g.chance(4 if many else 1, 6):
            t = g.pick(LTYPES)
            f.ty = Ty(t, t)
    if g.chance(1, 8):
        for v in item.variants:
            v.fields[:0] = [Field("flag" + str(i) if v.fields[0].name else None, Ty("bool", "bool"), g.flip()) for i in range(4) if v.fields]
    naming = g.weighted([(6, "clean"), (2, "any"), (1, "prefix"), (1, "odd")])
    if naming in ("prefix", "odd"):
        for v in item.variants:
            for i, f in enumerate(v.fields):
                if f.name:
                    f.name = ("subject_" + LNAMES[i % 10] if naming == "prefix" else g.pick(["Camel", "UPPER", "mixedCase", "trail_", "__lead", "dbl__dbl", "x1_"])) + ("" if i < 10 and naming == "prefix" else str(i))
        for i, v in enumerate(item.variants):
            if v.name:
                v.name = ("Subject" if naming == "prefix" else g.pick(["UPPER", "lower", "Snake_case", "__Lead"])) + "ABCDEFGHIJKL"[i]
    if naming == "clean":
        for v in item.variants:
            for i, f in enumerate(v.fields):
                if f.name:
                    f.name = LNAMES[i % 10] + ("" if i < 10 else str(i))
        for i, v in enumerate(item.variants):
            if v.name:
                v.name = "Variant" + "ABCDEFGHIJKL"[i]
    item.args = {k: ({"project": "SubjectProj", "project_ref": "SubjectProjRef", "project_replace": "SubjectProjOwn"}[k] if isinstance(v, str) and k.startswith("project") else v) for k, v in item.args.items()}
    if item.kind == "struct" and g.flip():
        for k in ("project", "project_ref"):
            if g.flip():
                item.args.pop(k, None)
        if item.args.get("project_replace") and g.flip():
            item.args["project_replace"] = True
    docs = g.chance(4, 5)
    item.pre = ["/// Documented."] * docs + [a for a in item.pre if not a.startswith("//") and "allow" not in a and a not in ("#[deprecated]", "#[must_use]")]
    item.post = [a for a in item.post if not a.startswith("//") and "allow" not in a and a not in ("#[deprecated]",)]
    if item.vis != "pub":
        # an unused type hides the warnings about its own fields and variants, unless something (the attribute) uses it
        item.post.append("#[allow(dead_code)]")
    if g.flip():
        g.pick([item.pre, item.post]).append(ALLOW_HERE)
    for v in item.variants:
        if docs and v.name:
            v.attrs = ["/** Documented. */"] + v.attrs
        for f in v.fields:
            f.pre = ["/** Documented. */"] * docs + [a for a in f.pre if not a.startswith(("//", "/**", "#[doc")) and "allow" not in a]
            f.post = [a for a in f.post if not a.startswith(("//", "/**", "#[doc")) and "allow" not in a]
            if item.kind == "struct":
                f.vis = g.pick(["pub", "pub", "pub(crate)", ""])
    return item


def lints(g, tier):
    item = lint_item(g)
    driver = g.pick(["rustc", "clippy"])
    ed = g.pick(["2021", "2024", "2018"])
    at = item.attr("::pin_project::pin_project")
    src = absolute_item(item).render(path="::pin_project::pin_project")
    assert at in src
    plain = src.replace(at, "", 1)
    plain = plain.replace("#[pin]", "      ")
    head = "//! Documented.\n\n"
    m = "macro_rules! frag { () => {\n" if g.chance(1, 5) else ""
    mend = "} }\nfrag!{}\n" if m else ""
    drop = ""
    if item.args.get("pinned_drop"):
        # the plain program has an ordinary trait of that name
        it = absolute_item(item)
        ps, ar = drop_generics(it)
        drop = impl_for(it, "PinnedDrop", g.pick(DROPS), pre="@ATTR@\n", params=ps, args=ar)
        head += "/// Documented.\npub trait PinnedDrop {\n    /// Documented.\n    fn drop(self: ::core::pin::Pin<&mut Self>);\n}\n"
    a = head + m + src + drop.replace("@ATTR@", "#[::pin_project::pinned_drop]") + mend
    b = head + m + plain + drop.replace("@ATTR@", "") + mend
    flags = [f"-W{x}" for x in RUSTC] if driver == "rustc" else [f"-Wclippy::{x}" for x in CLIPPY]
    p = {"src": a, "plain": b, "mode": "lints", "expect": "ok", "edition": ed, "name": "lints-" + driver, "driver": driver, "flags": flags, "ignore": IGNORE + KNOWN_LINTS + (KNOWN_IN_MACROS if m else [])}
    return case([p], item.classes | {"lints:" + driver, "edition:" + ed, "in-macro" if m else "direct"}, True, f"lints ({driver}) on {item.kind} {item.generics_decl()}")


def absolute_item(item):
    it = copy.deepcopy(item)
    m = {p.name: p.name for p in it.params}
    m.update({it.name: it.name})
    ab = lambda s: re.sub(r"::core::primitive::(\w+)", r"\1", absolute(s, m)).replace("::core::option::Option", "Option").replace("::std::vec::Vec", "Vec").replace("::std::boxed::Box", "Box").replace("::std::string::String", "String") \
        .replace("::core::result::Result", "Result").replace("::core::marker::Send", "Send").replace("::core::marker::Sync", "Sync").replace("::core::marker::Sized", "Sized")
    for p in it.params:
        p.bounds, p.default = ab(p.bounds), ab(p.default) if p.kind == "ty" else p.default
    it.where = [ab(w) for w in it.where]
    for f in it.all_fields():
        f.ty = copy.copy(f.ty)
        f.ty.src = ab(f.ty.src)
    return it


def gen(g, tier):
    k = g.weighted([(6, "run"), (2, "nostd"), (4, "lints")])
    if k == "lints":
        cs = [lints(g, tier)] + [lints(g, tier) for _ in range(4) if g.chance(7, 8)]
        c = case([p for x in cs for p in x["progs"]], {k for x in cs for k in x["classes"]}, True, cs[0]["summary"] + (f" and {len(cs) - 1} more" if cs[1:] else ""), n=len(cs))
        c["subhash"] = [hashlib.sha256(p["src"].encode()).hexdigest() for p in c["progs"]]
        if cs[1:]:
            c["singles"] = lambda: cs
        return older(c)
    c = {"run": run_case, "nostd": nostd, "lints": lints}[k](g, tier)
    return older(c)


def older(c):
    """Raw lifetimes only exist since 2021."""
    for p in c["progs"]:
        if p["edition"] in ("2015", "2018"):
            for k in ("src", "plain", "plain_src"):
                if p.get(k):
                    p[k] = p[k].replace("'r#", "'raw_")
                    if p["edition"] == "2015":      # `dyn ::path` is the path dyn::path there
                        p[k] = p[k].replace("dyn ::", "dyn for<'zz_> ::")
                        if c["summary"] != "no_std library":
                            p[k] = p[k].replace("::core::", "::std::")
    if c.get("singles"):
        f = c["singles"]
        c["singles"] = lambda: [older(x) for x in f()]
    return c
