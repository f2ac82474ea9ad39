"""Regenerates known_findings.json (development tool; never run by a check)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbt.core import case, prog, judge
from pbt.items import ALLOW, USES, USES_PLAIN
from pbt.props import c19

F = []


def add(pid, what, src, plain, **kw):
    F.append({"property": pid, "what": what, "case": dict(case([prog(ALLOW + src, name="known", why=what, plain_src=ALLOW + plain, **kw)], (), True, what))})


def add_drop(what, ty, body, extra=""):
    pre = "use vsut::*; use pin_project::{pin_project, pinned_drop}; use std::pin::Pin; macro_rules! id { ($($t:tt)*) => { $($t)* } }\n" + extra
    decl, use, rest = ty
    src = pre + f"#[derive(Debug)] #[pin_project(PinnedDrop)] {rest}\n#[pinned_drop] impl{decl} PinnedDrop for S{use} {{ fn drop(self: Pin<&mut Self>) {{ {body} }} }}\n"
    plain = pre + f"#[derive(Debug)] {rest.replace('#[pin] ', '')}\nimpl{decl} S{use} {{ fn drop_(self: Pin<&mut Self>) {{ {body} }} }}\n"
    add("C10", what, src, plain)


gs = ("<T: std::fmt::Debug>", "<T>", "struct S<T: std::fmt::Debug>(#[pin] T, u8);")
gn = ("<T: std::fmt::Debug>", "<T>", "struct S<T: std::fmt::Debug> { #[pin] a: T, b: u8 }")
en = ("", "", "enum S { A { a: u8 }, B(u8) }")
st = ("", "", "struct S { #[pin] a: u8 }")
add_drop("inline capture of self in a format string: format!(\"{self:?}\")", st, "let _ = format!(\"{self:?}\");")


def add17(what, body):
    add("C17", what, "use vsut::*; use pin_project::pin_project; use std::marker::PhantomData;\n" + body, "use vsut::*; use std::marker::PhantomData;\n" + body.replace("#[pin_project]", "").replace("#[pin] ", ""))


add17("where clause mentioning Self that relies on an implied outlives bound (E0309)", "#[pin_project] enum S<'b, V> where V: Any2<Self> { A { a: PhantomData<&'b V> }, B(V) }\n")
add17("where clause mentioning Self that relies on implied outlives bounds between lifetimes (E0478)",
      "#[pin_project] struct Subject<'a, 'b, T, U>(PhantomData<(&'b (), T, U)>, PhantomData<&'a Link<Self>>) where Self: Sized, T: 'a, U: 'a;\n")
add17("a lifetime named 'pin introduced inside the arguments of a type macro (E0496)", "#[pin_project] struct S { #[pin] a: ty_of!(for<'pin> fn(&'pin u8) -> &'pin u8), b: u8 }\n")


def add19(what, src, plain=None, **kw):
    add("C19", what, "use pin_project::{pin_project, pinned_drop}; use std::pin::Pin;\n" + src, plain or src.replace("#[pin_project]", "").replace("#[pin] ", "").replace("#[pin_project(project_replace)]", ""), **kw)


add19("a constant named like a field", "const a: () = ();\n#[pin_project] struct S { #[pin] a: u8 }\n")
add19("a user trait named like the generated guard trait {Type}MustNotImplDrop", "trait SMustNotImplDrop {}\nimpl<T> SMustNotImplDrop for T {}\n#[pin_project] struct S { #[pin] a: (), b: &'static dyn SMustNotImplDrop }\n")


def lint(what, driver, src, plain=None, edition="2021"):
    head = "//! Documented.\n\n"
    flags = [f"-W{x}" for x in c19.RUSTC] if driver == "rustc" else [f"-Wclippy::{x}" for x in c19.CLIPPY]
    import re
    if plain is None:
        plain = re.sub(r"#\[::pin_project::pin_project(\([^)]*\))?\]", "", src).replace("#[pin] ", "").replace("#[::pin_project::pinned_drop]", "")
    F.append({"property": "C19", "what": what, "case": dict(case([{"src": head + src, "plain": head + plain, "mode": "lints", "expect": "ok", "edition": edition, "name": "known-" + driver, "driver": driver, "flags": flags,
                                                                 "ignore": c19.IGNORE}], (), True, what))})


D = "/// Documented.\n"
PD = D + "pub trait PinnedDrop {\n    /// Documented.\n    fn drop(self: ::core::pin::Pin<&mut Self>);\n}\n"

FIXED = """C17 4c978b4 lifetime named 'pin introduced by a field type (for<'pin> fn(&'pin u8)) clashed with the generated lifetime
C20 a34db66 #[pinned_drop] panicked on impls containing a macro call or other unexpected items
C10 c097ee5 self:: paths in macro arguments were rewritten to __self:: in #[pinned_drop] bodies
C17 bc21fe9 types and fields with pub(self) visibility were rejected inside the generated scope
C17 6bceb2a unsized pinned fields in types with lifetime parameters were rejected
C10 47dfc1e a fn pointer type in macro arguments stopped Self from being replaced
C20 b569379 #[pinned_drop] panicked on `default fn drop`
C01 d8f76a7 projections of trait object fields had the wrong default object lifetime
C05 2eb6bc3 a user-written Drop impl was accepted on types that are always unsized (struct S { #[pin] f: u8, tail: [u8] })
C10 68f8445 Self in #[pinned_drop] bodies and where clauses was rejected or meant different types when the impl is written for S<'_>
C19 68f8445 clippy::elidable_lifetime_names fired on #[pinned_drop] impls inside macro_rules
C19 eac4046 a constant, static or unit struct named `this` in scope broke the generated code
C19 1a9eacb clippy lints about field types and generics (type_complexity, option_option, redundant_allocation, trailing_empty_array, multiple_bound_locations, inline_trait_bounds) and variant_size_differences fired on generated code
C17 d1bb73d a raw lifetime parameter 'r#pin clashed with the generated lifetime 'pin
C19 b9415f9 inherent methods of the type named get_ref or get_unchecked_mut broke or hijacked the generated projection methods
C10 7bfde5e Self(..), Self { .. } and Self::V patterns and constructors in macro arguments of #[pinned_drop] bodies were rejected on generic types and enums
C10 b205dac the keyword self in pub(self) and in use lists in macro arguments of #[pinned_drop] bodies was rewritten
C19 1a7478a lints that the user had allowed on the type (non_camel_case_types, non_snake_case, unused_parens, unused_braces, redundant_lifetimes, clippy::partial_pub_fields, clippy::struct_field_names, ...) fired on generated copies of its fields, names and generics
C10 84e2cdb after 7bfde5e an incremental rebuild crashed the compiler on Self::item in macro arguments of #[pinned_drop] bodies (b0d8af4, a first attempt, is superseded)""".splitlines()

if __name__ == "__main__":
    from pbt import rust
    R = rust.Rust(rust.build())
    keep = []
    for f in F:
        try:
            m = judge(f["case"], R)
        except Exception as e:
            m = "EXC " + str(e)[:3000]
        print("FAILS" if m and not m.startswith("EXC") else "???", f["property"], f["what"], "" if m and not m.startswith("EXC") else m)
        if m and not m.startswith("EXC"):
            keep.append(f)
    R.close()
    json.dump({"findings": keep, "fixed": ["fixed: property=" + x for x in FIXED]}, open(os.path.join(rust.VERIF, "known_findings.json"), "w"), indent=1)
