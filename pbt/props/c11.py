"""C11: malformed #[pinned_drop] impls are rejected; pinned drop code cannot be called safely."""
from ..core import case, prog
from ..items import *

LEVEL = "exploration"
CASES = {"quick": 650, "thorough": 7000}
RULE = ("A case is a generated definition with a valid pinned drop impl in one of its accepted spellings (must be accepted) and either 3-6 mutants of the impl (keyword, trait, "
        "target type, attribute arguments, items, receiver, arguments, return type, qualifiers, generics; also the attribute on other items), all to be rejected, or a set of "
        "attempts to run the drop code from safe code: every function name that occurs in the macro expansion plus a fixed list is called through several path forms from "
        "inside the body and from outside; each attempt must be rejected, or running it must not run the user's drop code a second time. "
        "Non-trivial: every case.")

SIGS_BAD = ["fn drop(&mut self) {}", "fn drop(&self) {}", "fn drop(self) {}", "fn drop(mut self) {}", "fn drop(self: Pin<&Self>) {}", "fn drop(self: Pin<Box<Self>>) {}", "fn drop(self: &mut Self) {}",
            "fn drop(self: Box<Self>) {}", "fn drop(self: Pin<Self>) {}", "fn drop(this: Pin<&mut Self>) {}", "fn drop(_: Pin<&mut Self>) {}", "fn drop() {}", "fn drop(self: Pin<&mut Self>, x: u8) {}",
            "fn drop(x: u8, self: Pin<&mut Self>) {}", "fn drop(self: Pin<&mut Self>) -> u8 { 0 }", "fn drop(self: Pin<&mut Self>) -> ! { loop {} }", "fn drop(self: Pin<&mut Self>) -> Self { loop {} }",
            "fn drop(self: Pin<&mut Self>) -> ((),) { ((),) }", "fn drop(self: Pin<&mut Self>) -> Option<()> { None }", "unsafe fn drop(self: Pin<&mut Self>) {}", "async fn drop(self: Pin<&mut Self>) {}",
            "const fn drop(self: Pin<&mut Self>) {}", "extern \"C\" fn drop(self: Pin<&mut Self>) {}", "fn drop<Z>(self: Pin<&mut Self>) {}", "fn drop<'z>(self: Pin<&'z mut Self>, _x: &'z u8) {}",
            "pub fn drop(self: Pin<&mut Self>) {}", "fn drop(self: Pin<&mut Self>);", "fn dropp(self: Pin<&mut Self>) {}", "fn pinned_drop(self: Pin<&mut Self>) {}", "fn Drop(self: Pin<&mut Self>) {}",
            "fn drop(self: Pin<&'static mut Self>) {}", "fn drop(self: Pin<&mut Pin<&mut Self>>) {}", "fn drop(self: Pin<&mut Box<Self>>) {}", "fn drop(self: Pin<*mut Self>) {}", "fn drop(self: Pin<&mut u8>) {}",
            "fn drop(self: Pin<&mut Self, u8>) {}", "fn drop(self: Pin<>) {}", "fn drop(self: Pin) {}", "fn drop(self: Nip<&mut Self>) {}", "fn drop(self: std::pin::Unpin<&mut Self>) {}",
            "fn drop(ref self: Pin<&mut Self>) {}", "fn drop(&self: Pin<&mut Self>) {}", "async unsafe fn drop(self: Pin<&mut Self>) {}", "fn drop(self: Pin<Rc<Self>>) {}", "fn drop(self: &mut Pin<Self>) {}",
            "fn drop(self: (Pin<&mut Self>,)) {}", "fn drop(self: Pin<&mut [Self]>) {}", "fn drop(self: Pin<&mut (Self,)>) {}", "fn drop(self: Option<&mut Self>) {}", "fn drop(self: std::rc::Rc<&mut Self>) {}"]
RECV = ["self: Pin<&mut Self>", "mut self: Pin<&mut Self>", "self: std::pin::Pin<&mut Self>", "mut self: ::core::pin::Pin<&mut Self>", "self: Pin<&mut Self>,", "mut self: Pin<&mut Self>,"]
HEADS = ["unsafe fn drop({R}){T}", "async fn drop({R}){T}", "const fn drop({R}){T}", "extern \"C\" fn drop({R}){T}", "fn drop<Z>({R}){T}", "pub fn drop({R}){T}", "pub(crate) fn drop({R}){T}",
         "fn dropp({R}){T}", "fn pinned_drop({R}){T}", "fn project({R}){T}", "const unsafe fn drop({R}){T}", "async unsafe fn drop({R}){T}", "unsafe extern \"C\" fn drop({R}){T}", "extern fn drop({R}){T}",
         "fn drop<const Q: usize>({R}){T}", "fn drop({R}){T} where u8: Missing"]
BAD_RECV = ["&mut self", "&self", "self", "mut self", "&'static mut self", "&'_ mut self", "self: Pin<&Self>", "self: &mut Self", "self: Box<Self>", "self: Pin<Box<Self>>", "self: &Self", "self: Self", "mut self: Self",
            "mut self: Pin<&Self>", "mut self: &mut Self", "mut self: Pin<Box<Self>>", "this: Pin<&mut Self>", "mut this: Pin<&mut Self>", "_: Pin<&mut Self>", "_self: Pin<&mut Self>", "__self: Pin<&mut Self>", "mut __self: Pin<&mut Self>",
            "&mut self, x: u8", "self: std::pin::Pin<&Self>", "self: ::core::pin::Pin<Box<Self>>", "", "Pin(this): Pin<&mut Self>", "self: Pin<&mut Self>, self: Pin<&mut Self>", "self: Pin<&mut Self>, _: ()", "_: (), self: Pin<&mut Self>",
            "self: Pin<&mut Self>, ...", "self: &mut Pin<&mut Self>", "self: &Pin<&mut Self>", "self: *mut Self", "self: Pin<&'static mut Self>", "self: Pin<&mut &mut Self>", "self: Pin<&mut dyn Any1>", "self: Pin<Pin<&mut Self>>"]
BAD_RET = ["-> u8 { 0 }", "-> ! { loop {} }", "-> Self { loop {} }", "-> ((),) { ((),) }", "-> Option<()> { None }", "-> (u8, u8) { (0, 0) }", "-> &'static () { &() }", "-> [(); 1] { [()] }", "-> impl Sized {}", "-> Result<(), ()> { Ok(()) }",
           "-> Pin<&mut Self> { loop {} }", "-> bool { true }"]
DECO = ["", "", "", "", "#[inline] ", "#[allow(unused_mut)] ", "/// doc\n ", "#[cfg(all())] "]


def bad_sig(g, item):
    k = g.pick(["list", "head", "recv", "ret", "own"])
    if k == "own":      # the type itself spelled out, an alias of it, or Pin under another name
        own = item.name + item.generics_use()
        r = g.pick([f"self: Pin<&mut {own}>", f"mut self: Pin<&mut {own}>", f"self: std::pin::Pin<&mut self::{own}>", "self: Pin2<&mut Self>", f"mut self: Pin2<&mut {own}>", "self: Pin<&mut vsut::Alias<Self>>", "self: vsut::Alias<Pin<&mut Self>>",
                    "self: PinMut<'_, Self>", "self: Pin<&mut <Self as vsut::Id>::Is>", "self: <Pin<&mut Self> as vsut::Id>::Is", "self: vsut::ty_of!(Pin<&mut Self>)"])
        return g.pick(DECO) + "fn drop(" + r + ")" + g.pick(["", "", " -> ()"]) + " {}"
    if k == "list":
        return g.pick(SIGS_BAD)
    if k == "head":
        return g.pick(DECO) + g.pick(HEADS).replace("{R}", g.pick(RECV)).replace("{T}", g.pick(["", "", " -> ()"])) + " { " + g.pick(["", "", "let _x = 1;"]) + " }"
    if k == "recv":
        return g.pick(DECO) + "fn drop(" + g.pick(BAD_RECV) + ")" + g.pick(["", "", " -> ()"]) + " {}"
    return g.pick(DECO) + "fn drop(" + g.pick(RECV) + ") " + g.pick(BAD_RET)


ITEMS_BAD = ["", "const X: u8 = 1;", "type X = u8;", "fn other(&self) {}", "{S} fn other(self: Pin<&mut Self>) {}", "{S} {S}", "{S} const X: u8 = 1;", "const X: u8 = 1; {S}", "{S} type Y = u8;", "type Y = u8; {S}",
             "fn other() {} {S}", "some_macro!();", "{S} some_macro!();", "some_macro!(); {S}", "{S} fn drop2(self: Pin<&mut Self>) {}"]
GOOD = ["fn drop(self: Pin<&mut Self>) { @ }", "fn drop(mut self: Pin<&mut Self>) { @ }", "fn drop(self: std::pin::Pin<&mut Self>) { @ }", "fn drop(self: ::core::pin::Pin<&mut Self>) { @ }",
        "fn drop(self: Pin<&mut Self>) -> () { @ }", "#[inline] fn drop(self: Pin<&mut Self>) { @ }", "fn drop(self: Pin<&mut Self>,) { @ }", "/// doc\n fn drop(self: Pin<&mut Self>) { @ }"]


def impl_text(item, items, trait="PinnedDrop", kw="", attr="#[pinned_drop] ", target=None, decl=None, bang=""):
    d = item.generics_decl(defaults=False) if decl is None else decl
    t = target or item.name + item.generics_use()
    tr = f"{bang}{trait} for " if trait else ""
    return f"    {attr}{kw}impl{d} {tr}{t}{item.where_str()} {{ {items} }}\n"


def mutant(g, item, sig):
    own = item.name + item.generics_use()
    k = g.weighted([(8, "sig"), (4, "items"), (2, "unsafe-impl"), (2, "attr-args"), (2, "trait"), (2, "target"), (1, "dup-attr"), (1, "inherent"), (1, "negative"), (2, "other-item"), (1, "drop-trait"), (1, "default")])
    if k == "sig":
        return k, "    use Pin as Pin2; type PinMut<'a, T> = Pin<&'a mut T>;\n" + impl_text(item, bad_sig(g, item))
    if k == "items":
        return k, "    macro_rules! some_macro { () => {} }\n" + impl_text(item, g.pick(ITEMS_BAD).replace("{S}", sig))
    if k == "unsafe-impl":
        return k, impl_text(item, sig, kw="unsafe ")
    if k == "attr-args":
        return k, impl_text(item, sig, attr=g.pick(["#[pinned_drop(foo)] ", "#[pinned_drop(PinnedDrop)] ", "#[pinned_drop(x = 1)] ", "#[pinned_drop(,)] ", "#[pinned_drop(\"a\")] ", "#[pinned_drop(())] ", "#[pinned_drop(unsafe)] ", "#[pinned_drop = \"x\"] ", "#[pinned_drop[x]] ", "#[pinned_drop{drop}] "]))
    if k == "trait":
        t = g.pick(["Drop", "Other", "PinnedDrop2", "Unpin", "PinnedDrop<u8>", "pinneddrop", "r#PinnedDrop::X", "Default"])
        return k, "    trait Other { fn drop(self: Pin<&mut Self>); }\n" + impl_text(item, sig, trait=t)
    if k == "target":
        t = g.pick(["&{}", "&mut {}", "[{}]", "({},)", "[{}; 2]", "(dyn Any1 + 'static)", "fn({})", "*const {}", "Pin<&mut {}>", "Box<{}>", "Option<{}>"]).format(own)
        return k, impl_text(item, sig, target=t)
    if k == "dup-attr":
        return k, impl_text(item, sig, attr=g.pick(["#[pinned_drop] #[pinned_drop] ", "#[pinned_drop] #[allow(unused)] #[pinned_drop] ", "#[pinned_drop] #[pin_project::pinned_drop] "]) if True else "")
    if k == "inherent":
        return k, impl_text(item, sig, trait="")
    if k == "negative":
        return k, impl_text(item, g.pick(["", sig]), bang="!")
    if k == "drop-trait":
        return k, impl_text(item, "fn drop(&mut self) {}", trait="Drop")
    if k == "default":
        return k, impl_text(item, sig.replace("fn drop", "default fn drop", 1) if g.flip() else sig, kw="default " if g.flip() else "unsafe default ")
    x = g.pick(["fn f() {}", "struct X;", "struct X { a: u8 }", "enum X { A }", "mod x {}", "trait X {}", "const X: u8 = 1;", "static X: u8 = 1;", "type X = u8;", "use std::fmt;", "union X { a: u8 }",
                "macro_rules! mm { () => {} }", "extern \"C\" {}", "fn drop(self_: Pin<&mut u8>) {}", "trait PinnedDrop { fn drop(self: Pin<&mut Self>); }"])
    return k, impl_text(item, sig) + f"    #[pinned_drop] {x}\n"


def mutants_case(g, tier):
    item = gen_item(g, frags=8, tail=10, replace=False, pinned_drop=True, unpin="maybe")
    sig = g.pick(GOOD).replace("@", g.pick(["", "let _x = 1;", "let _ = self;"]))
    head = USES + item.render()
    at = g.pick(["#[pinned_drop] ", "#[pin_project::pinned_drop] ", "#[allow(unused)] #[pinned_drop] ", "#[pinned_drop] #[allow(unused)] ", "#[cfg_attr(all(), pinned_drop)] "])
    progs = [prog(crate(head + impl_text(item, sig, attr=at)), name="control", why="a well-formed pinned drop impl", plain_src=crate(USES_PLAIN + item.render(macro=False)))]
    classes, seen = set(item.classes) | {"mutants"}, set()
    for _ in range(g.int(3, 6)):
        k, imp = mutant(g, item, sig)
        if imp in seen:
            continue
        seen.add(imp)
        progs.append(prog(crate(head + imp), expect="fail", name=k, why="malformed pinned drop: " + imp.strip()))
        classes.add("mutation:" + k)
    return case(progs, classes, True, f"{len(progs) - 1} malformed pinned drop impls")


NAMES = ["drop", "__drop_inner", "pinned_drop", "drop_inner", "__drop", "inner", "drop_in_place"]
INSIDE = ["@NAME@(me.as_mut());", "Self::@NAME@(me.as_mut());", "me.as_mut().@NAME@();", "PinnedDrop::@NAME@(me.as_mut());", "<Self as PinnedDrop>::@NAME@(me.as_mut());", "<Self>::@NAME@(me.as_mut());",
          "::pin_project::__private::PinnedDrop::@NAME@(me.as_mut());", "Drop::@NAME@(&mut me);", "super::@NAME@(me.as_mut());", "self::@NAME@(me.as_mut());", "crate::m::@NAME@(me.as_mut());",
          "use ::pin_project::__private::*; me.as_mut().@NAME@();", "::pin_project::@NAME@(me.as_mut());", "::pin_project::__private::@NAME@(me.as_mut());", "let f: fn(Pin<&mut Self>) = @NAME@; f(me.as_mut());",
          "let f: fn(Pin<&mut Self>) = Self::@NAME@; f(me.as_mut());", "let f: fn(Pin<&mut Self>) = <Self as ::pin_project::__private::PinnedDrop>::@NAME@; f(me.as_mut());"]
OUTSIDE = [x.replace("Self", "C").replace("self::", "m::").replace("super::", "m::") for x in INSIDE if not x.startswith("crate")]


def hunt_case(g, tier):
    item = gen_item(g, tail=0, replace=False, pinned_drop=True, unpin="maybe", item_attrs=False, many=False)
    inside = g.flip()
    n = 2
    ts = g.perm(INSIDE if inside else OUTSIDE)[:n]
    body_in = "let mut me = self; user_drop(&*me); if user_addrs().len() < 3 { @ATTEMPT@ }" if inside else "user_drop(&*self);"
    head = USES + item.render() + pinned_drop_impl(item, body_in) + helpers(item)
    run = "    pub fn run() { reset(); let n0 = log_len(); let mut me: Pin<Box<C>> = Box::pin(mk(0, 3)); @OUT@ drop(me); assert_eq!(user_addrs().len(), 1, \"the pinned drop code ran more than once\"); }\n"
    run = run.replace("@OUT@", "" if inside else "{ @ATTEMPT@ }")
    main = "fn main() { vsut::case(0, m::run) }\n"
    skel = crate(head + run) + main
    base = skel.replace("@ATTEMPT@", "")
    progs = [prog(base, mode="run", name="control", plain_src=crate(USES_PLAIN + item.render(macro=False) + helpers(item) + "    pub fn run() {}\n") + main),
             prog(base, mode="hunt", name="safe-call", skeleton=skel, templates=ts, names=NAMES)]
    return case(progs, item.classes | {"hunt:" + ("inside" if inside else "outside")} | {"via:" + t for t in ts}, True, "attempts to call the pinned drop code")


def gen(g, tier):
    return hunt_case(g, tier) if g.chance(1, 8) else mutants_case(g, tier)
