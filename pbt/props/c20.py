"""C20: token-level fuzzing of the attribute macros: they expand or report an error, they never panic, hang or abort."""
import hashlib, itertools, re
from ..core import case, prog
from ..items import *

LEVEL = "exploration"
CASES = {"quick": 2400, "thorough": 40000}
K = 6
TECHNIQUE = "property-based fuzzing (Hypothesis): grammar- and token-level generation of items, arguments and bodies, run through the real compiler"
RULE = ("A case is a program with up to 6 isolated uses of an attribute: a generated valid definition or pinned drop impl with 1-3 random token edits (delete, duplicate, swap, insert, "
        "wrap, replace a token or group), an item of any kind from a list of unusual but parseable items, argument lists made of random tokens in any delimiter, unusual impl headers, "
        "items and signatures, or bodies whose macro arguments are random tokens with self and Self; some parts arrive through macro_rules fragments (invisible groups). Every use is "
        "given to the real compiler in a macro call of its own, so that one that does not even parse does not hide the others. No expansion may panic, hang (30 s) or crash the compiler when the "
        "same tokens under an identity attribute do not. Non-trivial: the case holds at least one use that is not a documented valid one.")
ASSUMPTIONS = ["The hidden internal derive is only exercised through #[pin_project].", "A hang is an expansion that takes more than 30 s."]

IDENTS = ["project", "project_ref", "project_replace", "PinnedDrop", "UnsafeUnpin", "Unpin", "Replace", "P", "Q", "S", "T", "pin", "r#project", "r#PinnedDrop", "__private", "x", "é", "_", "u8", "Pin", "drop"]
KWS = ["self", "Self", "fn", "struct", "enum", "impl", "mut", "crate", "super", "pub", "for", "where", "unsafe", "dyn", "const", "in", "as", "type", "move", "ref", "static", "async", "default", "union", "auto"]
PUNCT = ["=", ",", "!", ";", ":", "::", "->", "=>", ".", "..", "..=", "<", ">", "&", "&&", "*", "+", "-", "?", "#", "$", "|", "||", "@", "~", "^", "%", "==", "!=", "<<", ">>", "<-", "'a", "'pin", "'_", "'static"]
LITS = ["0", "1u8", "\"s\"", "'c'", "b\"b\"", "1.5", "r#\"r\"#", "true", "c\"z\"", "0xff", "1e3", "b'x'", "1_000", "\"\\u{1F600}\"", "18446744073709551616", "1foo", "\"s\"suffix"]


def tok(g, bias=()):
    w = [(4, IDENTS), (2, KWS), (4, PUNCT), (2, LITS)]
    if bias:
        w.append((5, list(bias)))
    return g.pick(g.weighted(w))


def soup(g, n, bias=(), depth=2):
    out = []
    for _ in range(n):
        if depth and g.chance(1, 7):
            o, c = g.pick(["()", "[]", "{}"])
            out.append(o + " " + soup(g, g.int(0, 3), bias, depth - 1) + " " + c)
        else:
            out.append(tok(g, bias))
    return " ".join(out)


ARGW = ["project = P", "project_ref = R", "project_replace", "project_replace = O", "PinnedDrop", "UnsafeUnpin", "!Unpin", ",", ",", "project", "project =", "= P", "!", "Unpin", "Replace", "project = P,", "!Unpin,"]


def args(g):
    k = g.weighted([(3, "none"), (4, "soup"), (4, "near"), (1, "eq")])
    if k == "none":
        return g.pick(["", "()", "[]", "{}"])
    if k == "eq":
        return " = " + g.pick(LITS[:6] + ["x", "concat!(\"a\", \"b\")", "1 + 2", "stringify!(x)"])
    o, c = g.pick(["()", "()", "()", "[]", "{}"])
    if k == "soup":
        return o + soup(g, g.int(1, 6)) + c
    return o + " ".join(g.pick(ARGW) if g.chance(4, 5) else tok(g) for _ in range(g.int(1, 5))) + c


# ---------------------------------------------------------------- token edits of valid items
LEX = re.compile(r"""//[^\n]*\n|/\*.*?\*/|r?#?"(?:\\.|[^"\\])*"#?|'(?:\\.|[^'\\])'|'?(?:r\#)?[^\W\d]\w*|\d[\w.]*|::|->|=>|\.\.=?|[-+*/%^&|]=|&&|\|\||<<|>>|[^\s\w]""", re.S)
OPEN, CLOSE = "([{", ")]}"


def tree(s):
    """Nested lists of tokens; groups are [open, children, close]."""
    st, cur = [], []
    for t in LEX.findall(s):
        if t in OPEN:
            st.append((t, cur))
            cur = []
        elif t in CLOSE and st:
            o, up = st.pop()
            up.append([o, cur, t])
            cur = up
        else:
            cur.append(t)
    return cur


def text(t):
    return " ".join(x if isinstance(x, str) else x[0] + " " + text(x[1]) + " " + x[2] for x in t)


def lists(t):
    yield t
    for x in t:
        if not isinstance(x, str):
            yield from lists(x[1])


def edit(g, t, bias):
    ls = [l for l in lists(t) if l]
    if not ls:
        return "none"
    l = g.pick(ls)
    i = g.int(0, len(l) - 1)
    k = g.pick(["delete", "dup", "swap", "insert", "replace", "wrap", "unwrap", "delim", "cut", "insert-group", "attr"])
    if k == "delete":
        del l[i]
    elif k == "dup":
        l.insert(i, l[i])
    elif k == "swap" and len(l) > 1:
        j = g.int(0, len(l) - 1)
        l[i], l[j] = l[j], l[i]
    elif k == "insert":
        l.insert(g.int(0, len(l)), tok(g, bias))
    elif k == "replace":
        l[i] = tok(g, bias)
    elif k == "wrap":
        o, c = g.pick(["()", "[]", "{}", "<>"])
        j = g.int(i, min(len(l) - 1, i + 2))
        l[i:j + 1] = ["<"] + l[i:j + 1] + [">"] if o == "<" else [[o, l[i:j + 1], c]]
    elif k == "unwrap" and not isinstance(l[i], str):
        l[i:i + 1] = l[i][1]
    elif k == "delim" and not isinstance(l[i], str):
        l[i][0], l[i][2] = g.pick(["()", "[]", "{}"])
    elif k == "cut":
        del l[i:]
    elif k == "insert-group":
        o, c = g.pick(["()", "[]", "{}"])
        l.insert(i, [o, tree(soup(g, g.int(0, 2), bias, 0)), c])
    elif k == "attr":
        l.insert(i, "#[" + g.pick(["pin", "pin_project", "pin()", "repr(packed)", "repr", "repr = \"x\"", "cfg(all())", "cfg(any())", "allow(unused)", "doc = \"x\"", "pin = 1", "r#pin", "a::pin", "pin::x"]) + "]")
    return k


# ---------------------------------------------------------------- unusual items
TYPES = ["!", "_", "impl Sized", "dyn Any1", "dyn Any1 + 'static + Send", "(dyn Any1)", "&dyn Any1", "fn(u8, ...) -> u8", "unsafe extern \"C\" fn(u8, ...)", "for<'a, 'b> fn(&'a u8, x: &'b u8) -> &'a u8", "<T>::X", "<T as A<'pin>>::B",
         "<Self as A>::B::C", "Self", "Self::X", "a::b::<u8>::C<D = E>", "F(u8) -> u8", "Box<dyn Fn(&u8) -> &u8 + 'pin>", "[u8]", "str", "[T; { 1 + 2 }]", "[T; N]", "*const T", "*mut Self", "&'pin mut T", "m!()", "m![a b c]", "m! { self Self }",
         "(u8)", "()", "(u8,)", "((((((((((u8))))))))))", "Option<Option<Option<Option<u8>>>>", "S<{ N }>", "S<-1>", "S<'a, 'b, T, U = V, W: X>", "crate::X", "super::X", "self::X", "::std::vec::Vec<u8>", "r#type", "$crate::X", "dyn for<'a> Fn(&'a u8)",
         "impl Fn(u8) -> u8", "?Sized", "dyn ?Sized", "u8 + 'a", "&'a u8 + 'b", "typeof(u8)", "Pin<&mut Self>", "union", "auto", "dyn", "async", "[[[u8; 1]; 1]; 1]", "fn()", "fn(self)", "fn(&self)", "dyn A<B = C>", "A<{ fn f() {} 3 }>", "[u8; { struct Z; 1 }]"]
GENERICS = ["", "", "<T>", "<'a>", "<'a: 'a + 'a, T: 'a + ?Sized + Copy>", "<const N: usize>", "<const N: usize = 3>", "<T = u8>", "<T: = u8>", "<T:>", "<>", "<'a,>", "<#[allow(unused)] T>", "<#[cfg(any())] T, U>", "<#[pin] T>", "<'a, #[doc = \"x\"] 'b, T>",
            "<T: ~const Copy>", "<T: for<'x> Fn(&'x u8)>", "<'pin, 'pin_, 'pin__>", "<T: ?Sized + ?Sized>", "<const A: u8, T, 'a>", "<T, 'a>", "<T, T>", "<'static>", "<'_>", "<'a, 'a>", "<const N: [u8; { 1 }]>", "<const N: u8 = { 3 }, T = [u8; 3]>", "<T: Iterator<Item = u8>>",
            "<T: Iterator<Item: Copy>>", "<T: use<'a>>", "<T: (Copy)>", "<T: async Fn()>", "<const N: usize = -1>", "<r#T>", "<Self>", "<self>"]
WHERES = ["", "", "where", "where T: Copy", "where T:, U: ,", "where 'a: 'b", "where for<'x> T: A<'x>, for<> U: B", "where Self: Sized, Self::X: Copy", "where <T as A>::B: C<D = E>", "where T == u8", "where [u8; 3]: Copy,", "where #[cfg(all())] T: Copy", "where T: ?Sized", "where (T): A, &'a T: B, fn(T): C, !: D",
          "where T: 'static + 'a +", "where _: Copy", "where dyn A: B", "where m!(): Copy", "where T: ~const A"]
VIS = ["", "", "pub", "pub(crate)", "pub(self)", "pub(super)", "pub(in crate)", "pub(in super::super)", "pub(in self::a::b)", "crate", "pub(a)", "pub()", "pub (u8)", "pub(in ::a)", "pub(in crate::m)"]
FNAMES = ["a", "b", "r#type", "_", "self", "0", "é", "r#self", "pin", "this", "_x", "a.b", "union", "__self"]
FATTRS = ["", "", "", "#[pin]", "#[pin]", "#[pin] #[pin]", "#[pin()]", "#[pin = 1]", "#[cfg(any())]", "#[cfg_attr(all(), pin)]", "#[cfg_attr(any(), pin)]", "#[doc = concat!(\"a\")]", "/// d\n", "#[a::b(c d)]", "#![pin]", "#[unsafe(pin)]", "#[pin{}]", "#[]", "#[r#pin]", "#[::pin]", "#[repr(packed)]"]
IATTRS = ["", "", "", "#[repr]", "#[repr()]", "#[repr(packed)]", "#[repr(packed(2))]", "#[repr(packed = \"1\")]", "#[repr(packed, C)]", "#[repr(,)]", "#[repr(C C)]", "#[repr = \"C\"]", "#[repr(packed(a b))]", "#[repr(packed())]", "#[repr(\"packed\")]", "#[repr(a::packed)]", "#[repr(packed[1])]", "#[repr[packed]]", "#[repr{packed}]",
          "#[repr(1)]", "#[repr(packed packed)]", "#[repr(align(8), packed(1))]", "#[repr(crate)]", "#[pin]", "#[pin()]", "#[pin(__private())]", "#[pin(__private)]", "#[pin = \"\"]", "#[pin(__private(), x)]", "#[cfg_attr(all(), pin(__private(foo)))]", "#[cfg_attr(all(), pin)]", "#[cfg_attr(all(), pin = 1)]",
          "#[derive()]", "#[derive(Clone)]", "#[derive(,)]", "#[doc = concat!(\"x\")]", "/// d\n", "#[pin_project]", "#[cfg_attr(all(), pin_project(!))]", "#[cfg(any())]", "#[cfg(all())]", "#[repr(packed)] #[repr(C)]", "#[cfg_attr(all(), repr(packed))]", "#[unsafe(no_mangle)]", "#[non_exhaustive]", "#[a b c]", "#[]", "#[must_use = 1]"]


def field(g, named):
    s = g.pick(FATTRS) + " " + (g.pick(VIS) if g.chance(1, 3) else "") + " "
    if named:
        s += (g.pick(FNAMES) if g.chance(1, 2) else g.pick(FIELD_NAMES)) + ": "
    s += g.pick(TYPES) if g.chance(2, 3) else "u8"
    if g.chance(1, 12):
        s += g.pick([" = 3", " = Default::default()", "?", " where u8: Copy", " const", ": u8"])
    return s


def fields(g):
    k = g.weighted([(4, "{}"), (4, "()"), (1, ""), (1, "[]")])
    if not k:
        return ""
    sep = g.pick([", ", ", ", ", ", "; ", " "])
    body = sep.join(field(g, k == "{}") for _ in range(g.int(0, 3)))
    if g.chance(1, 6):
        body += g.pick([",", ",,", ";", "..", "..a", " fn f() {}", " m!()", "const X: u8 = 1;"])
    return k[0] + body + k[1]


def weird_adt(g):
    kw = g.weighted([(4, "struct"), (4, "enum"), (1, "union")])
    pre = (g.pick(VIS) if g.chance(1, 3) else "") + " " + (g.pick(["unsafe", "const", "default", "auto", "async", "dyn", "static", "crate", "r#struct"]) + " " if g.chance(1, 14) else "")
    name = g.pick(["S", "S", "S", "r#type", "_", "Self", "self", "é", "union", "S2", "S::T", "'a", "1"])
    gen, wh = g.pick(GENERICS), g.pick(WHERES)
    if kw == "struct" or kw == "union":
        f = fields(g)
        body = (f"{wh} {f}" if f.startswith("{") else f"{f} {wh};") if g.chance(7, 8) else f"{wh} {f} {wh}" + g.pick(["", ";"])
    else:
        vs = []
        for i in range(g.int(0, 4)):
            v = (g.pick(FATTRS + IATTRS) if g.chance(1, 4) else "") + " " + (g.pick(VIS) + " " if g.chance(1, 12) else "") + (VARIANTS[i] if g.chance(6, 7) else g.pick(["r#type", "_", "Self", "self", "A", "m!()", "0"]))
            v += g.pick(["", "", "(%s)", "{%s}"]).replace("%s", ", ".join(field(g, False) for _ in range(0))) if g.chance(1, 4) else fields(g)
            if g.chance(1, 6):
                v += " = " + g.pick(["1", "-1", "{ 3 }", "A", "m!()", "Self::A as u8", "if true { 1 } else { 2 }", "|x| x"])
            vs.append(v)
        body = f"{wh} {{ " + g.pick([", ", ", ", ", ", "; "]).join(vs) + g.pick(["", ",", ",,"][: 2 if g.chance(5, 6) else 3]) + " }"
    return f"{pre}{kw} {name}{gen} {body}"


OTHERS = ["fn f() {}", "fn f(self) {}", "const X: u8 = 1;", "const _: () = {};", "static mut X: u8 = 1;", "mod q {}", "mod q;", "unsafe mod q {}", "trait Q {}", "unsafe auto trait Q {}", "trait Q = Copy;", "trait Q { type X<'a>: 'a where Self: 'a; const N: u8; fn f(self: Pin<&mut Self>); }", "impl S {}",
          "impl<T> !Send for S<T> {}", "unsafe impl Send for S {}", "impl const Q for S {}", "default impl Q for S {}", "impl ~const Q for S {}", "type X = u8;", "type X<T> where T: Copy = u8;", "use a::{b, c::*, self};", "use ::{a, b as _};", "extern crate a as b;", "extern crate self as q;", "extern \"C\" { fn f(...); static X: u8; type T; }",
          "unsafe extern \"C\" { safe fn f(); }", "macro_rules! q { () => {} }", "macro q($x:tt) {}", "q! { struct S }", "q!();", "::q::w![a];", "union U { a: u8 }", "async fn f() {}", "gen fn f() {}", "const fn f() {}", "pub(in a) fn f() {}", "enum E {}", "struct S;", "global_asm!(\"\");", "static X: u8;", "const X: u8;", "fn f();",
          "impl<const N: usize> S<N> where [u8; N]: Sized { fn f(&self) {} }", "struct S where u8: Copy;", "struct S(u8) where u8: Copy;", "struct S<T>(T) where T: Copy", "enum E { A = 1, B(u8) = 2 }", "enum E { A { #[pin] a: u8 } }", "reuse a::b;", "fn f<'a, T: 'a, const N: usize>(x: impl Fn(&u8), ..: ...) -> impl Sized + use<'a> where T: Copy {}"]


# ---------------------------------------------------------------- pinned drop
HEADS = ["", "", "", "", "unsafe", "default", "const", "unsafe default", "async", "pub", "pub(crate)"]
TRAITS = ["PinnedDrop for", "PinnedDrop for", "PinnedDrop for", "PinnedDrop for", "!PinnedDrop for", "?PinnedDrop for", "const PinnedDrop for", "r#PinnedDrop for", "a::PinnedDrop for", "::PinnedDrop for", "PinnedDrop<T> for", "PinnedDrop() for", "PinnedDrop<> for", "PinnedDrop::<> for", "Drop for", "", "dyn PinnedDrop for", "m!() for",
          "for<'a> PinnedDrop for", "PinnedDrop + Copy for", "<T as PinnedDrop> for", "(PinnedDrop) for", "PinnedDrop for for", "self for", "Self for", "'a for", "PinnedDrop<'a, T, 3, X = Y> for", "PinnedDrop(u8) -> u8 for", "crate::PinnedDrop for", "PinnedDrop::X for"]
SELVES = ["S", "S", "S<T>", "S<'a, T>", "S::<T>", "m::S", "::S", "crate::S<{ N }>", "<T as A>::B", "<T>::B", "Self", "self", "m!()", "&S", "[S]", "(S)", "(S,)", "dyn A", "fn()", "!", "_", "S<Self>", "S<X = Y>", "S<fn(Self) -> Self>", "S<{ struct Z; 3 }>", "S<dyn Fn(Self)>", "Pin<&mut S>", "for<'a> fn(&'a u8)", "S()", "S(u8) -> u8",
          "impl A", "..", "S<m!(Self)>", "r#type", "S<'static>", "S<-1>", "S<\"x\">", "S<true>", "(((S)))", "*const S", "S + 'a"]
RECV = ["self: Pin<&mut Self>", "self: Pin<&mut Self>", "self: Pin<&mut Self>", "mut self: Pin<&mut Self>", "self", "&self", "&mut self", "&'a mut self", "self: Pin<&mut S>", "self: Pin<&mut Self,>", "self: Pin<'a, &mut Self>", "self: Pin<&'a mut Self>", "self: Pin<&mut (Self)>", "self: (Pin<&mut Self>)", "self: Pin<(&mut Self)>", "self: Pin<m!()>", "self: m!()",
        "self: <Pin<&mut Self>>", "self: <A as B>::Pin<&mut Self>", "self: ::Pin<&mut Self>", "self: a::b<u8>::Pin<&mut Self>", "self: Pin(&mut Self)", "self: Pin<&mut Self> + 'a", "self: Pin<{ 3 }>", "self: Pin<X = &mut Self>", "self: Pin<X: Y>", "self: Pin<-1>", "self: Pin<'a>", "self: Pin<>", "self: Pin", "self: Pin::<&mut Self>", "self: &mut Pin<Self>", "#[a] self: Pin<&mut Self>",
        "#[pin] mut self: Pin<&mut Self>,", "self: Pin<&mut Self>, x: u8", "self: Pin<&mut Self>, ...", "x: u8", "_: u8", "(a, b): (u8, u8)", "...", "", ",", "self: _", "self: impl A", "self: dyn A", "ref self", "&mut self: u8", "self: Pin<&mut Self::X>", "self: Pin<&mut <Self>>", "this: Pin<&mut Self>", "mut mut self", "self: Pin<&mut &mut Self>", "self: Self", "self: self",
        "self: Pin<&Self>", "self: Pin<&mut r#Self>", "r#self: Pin<&mut Self>", "self: Pin<& raw mut Self>", "self: Pin<*mut Self>", "self: Pin<[&mut Self]>", "self: !", "self: ()", "self: Pin<!>", "x @ self: Pin<&mut Self>", "u8", "&u8"]
RETS = ["", "", "", "", "-> ()", "-> u8", "-> !", "-> Self", "-> impl A", "-> m!()", "-> (())", "-> ((),)", "->", "-> _", "-> Self::X", "where Self: Sized", "-> () where T: Copy", "-> fn() -> ()", "-> dyn A"]
FQ = ["fn", "fn", "fn", "fn", "fn", "unsafe fn", "async fn", "const fn", "extern fn", "extern \"C\" fn", "default fn", "pub fn", "pub(crate) const async unsafe extern \"C\" fn", "#[a] fn", "/// d\n fn", "gen fn", "safe fn", "r#fn", "pub(self) fn", "default unsafe fn", "pub default fn"]
FN = ["drop", "drop", "drop", "drop", "r#drop", "Drop", "drop<T>", "drop<'a>", "drop<const N: usize>", "drop<>", "drop::<T>", "_", "self", "m!()", "drop<#[a] T: Copy = u8>", "__drop_inner"]
IITEMS = ["const X: u8 = 1;", "const X: u8;", "type X = Self;", "type X;", "type X: Copy = u8;", "m!();", "m! {}", "fn drop();", "pub(crate) type X<'a> = &'a u8 where Self: 'a;", "struct S;", "use a::b;", "const _: () = ();", "default const X: u8 = 1;", "default type X = u8;", "#[a] m!();", "#![a]", ";", "static X: u8 = 1;", "impl A for B {}", "mod m {}", "enum E {}",
          "fn drop(self: Pin<&mut Self>) {}", "fn other(&self) -> Self { self }", "async const unsafe fn f();", "macro_rules! z { () => {} }", "const fn f() {}", "extern \"C\" {}", "union U { a: u8 }", "trait T {}", "reuse a::b;", "{}", "pub"]
SELFB = ["self", "Self", "self", "Self", "Self ::", "self ::", "self .", "Self {", "fn"]


def bal(s):
    """Bias tokens may hold an open brace; keep the text balanced."""
    return s.replace("Self {", "Self { }")


STM = ["let _x = %s;", "m!(%s);", "m! { %s }", "m![%s];", "%s;", "{ %s }", "format!(\"{}\", %s);", "macro_rules! k { (%s) => { self Self }; ($x:tt) => { %s } }", "fn g() { %s }", "struct Z { x: u8 } impl Z { fn z(&self) { %s } }", "let c = |x: Self| { %s };", "if let Self { a, .. } = x { %s }", "match self { Self(x, ..) if self.y => %s, Self::A { a: Self::B } => {} _ => {} }",
       "let x: <Self as A>::B<Self> = Self::<T>::f::<Self>(self);", "let y = Self { a: 1, ..Self::default() };", "let Self(ref mut x, y @ ..) = *self;", "Self;", "Self::X;", "<Self>::X;", "<Self as A>::X;", "self::x();", "Self::<u8>;", "Self<u8>;", "async move { %s };", "unsafe { %s }", "const K: Self = %s;", "let x: [Self; Self::N];", "'a: loop { break 'a %s; }", "return %s;", "let s = self else { %s };",
       "use self::a; use Self::b; use a::{self};", "impl Self {}", "pub(self) struct Q;", "let x = self as Self;", "&raw mut self;", "x.self;", "self.0.0.0;", "self[Self::N..][..3];", "self?;", "self.await;", "m!{ $self:ident $($Self:ty)* }", "#[a(self Self)] let x = 1;", "#[a = Self] { }", "Self(..) = self;", "_ = Self::f(_);", "(Self::A(x), Self { y }) = z;", "let f: fn(Self) -> Self = |Self| Self;", "do yeet self;",
       "break;", "static { self }", "builtin # offset_of(Self, x);", "let x = const { Self::N };", "let _ = [const { self }; 3];", "for Self { x } in self {}", "while let Some(Self) = self {}", "let dyn_: &dyn Fn(Self) -> Self;", "Self!();", "self!();", "Self::m!(Self);", "self::m!{self};", "type A = Self;", "dyn Self;", "<[Self]>::len(&[]);", "<dyn A<Self> as B>::c();", "move || -> Self { self };", "if self == Self {}", "x = Self { };", "%s"]


def stmt(g):
    s = g.pick(STM)
    while "%s" in s:
        s = s.replace("%s", bal(soup(g, g.int(0, 5), SELFB)) if g.chance(3, 4) else g.pick(["self", "Self", "Self::A", "self.x", "1"]), 1)
    return s


def pd_impl(g):
    body = " ".join(stmt(g) for _ in range(g.int(0, 3)))
    if g.chance(3, 5):      # a proper header with an unusual body
        sv = g.pick(SELVES[:8]) if g.chance(3, 4) else g.pick(SELVES)
        return f"impl{g.pick(['', '', '<T>', '<const N: usize>'])} PinnedDrop for {sv} {{ fn drop({g.pick(RECV[:4])}) {{ {body} }} }}"
    fns = [f"{g.pick(FQ)} {g.pick(FN)}({g.pick(RECV)}) {g.pick(RETS)} {{ {body} }}"] if g.chance(7, 8) else []
    for _ in range(g.weighted([(3, 0), (3, 1), (1, 2)])):
        fns.insert(g.int(0, len(fns)), g.pick(IITEMS))
    wh = g.pick(WHERES) if g.chance(1, 3) else ""
    return f"{g.pick(HEADS)} impl{g.pick(GENERICS)} {g.pick(TRAITS)} {g.pick(SELVES)} {wh} {{ {' '.join(fns)} }}"


# ---------------------------------------------------------------- invisible groups
FRAG = [("ty", "u8"), ("ty", "&'a u8"), ("ty", "[T; 2]"), ("ty", "dyn Any1 + Send"), ("ty", "Self"), ("ty", "(u8, u8)"), ("ty", "S<T>"), ("expr", "1"), ("expr", "1 + 2"), ("ident", "S"), ("ident", "drop"), ("path", "PinnedDrop"), ("path", "Pin<&mut Self>"), ("vis", "pub"), ("vis", ""), ("vis", "pub(crate)"), ("lifetime", "'pin"), ("meta", "pin"), ("meta", "pin()"),
        ("meta", "repr(packed)"), ("meta", "repr(C)"), ("meta", "doc = \"x\""), ("literal", "\"x\""), ("literal", "2"), ("block", "{ 3 }"), ("block", "{ self Self }"), ("tt", "S"), ("tt", "#"), ("tt", "!"), ("pat", "Self { .. }"), ("pat", "x"), ("stmt", "let x = self"), ("item", "struct Q;"), ("expr", "self"), ("expr", "Self::X"), ("ty", "Pin<&mut Self>")]
FTEXT = ["#[pin_project] struct S { #[pin] a: $x }", "#[pin_project] struct $x { #[pin] a: u8 }", "#[pin_project(project = $x)] struct S { a: u8 }", "#[pin_project($x)] struct S { a: u8 }", "#[pin_project] $x struct S { a: u8 }", "#[pin_project] struct S { $x a: u8 }", "#[pin_project] struct S { #[$x] a: u8 }", "#[pin_project] #[$x] struct S { #[pin] a: u8 }", "#[$x] #[pin_project] struct S { a: u8 }",
         "#[pin_project] enum S { A($x), B }", "#[pin_project] enum S { A = $x, B(u8) }", "#[pin_project] struct S<T = $x>(T);", "#[pin_project] struct S<T: $x>(T);", "#[pin_project] struct S<$x>(u8);", "#[pin_project] struct S<T>(T) where $x: Copy;", "#[pin_project] struct S<T>(T) where T: $x;", "#[pin_project] struct S([u8; $x]);", "#[pin_project] struct S(Option<$x>, #[pin] Vec<$x>);", "#[pin_project] $x",
         "#[pin_project(PinnedDrop)] struct S(u8); #[pinned_drop] impl PinnedDrop for $x { fn drop(self: Pin<&mut Self>) {} }", "#[pinned_drop] impl $x for S { fn drop(self: Pin<&mut Self>) {} }", "#[pinned_drop] impl PinnedDrop for S { fn $x(self: Pin<&mut Self>) {} }", "#[pinned_drop] impl PinnedDrop for S { fn drop(self: $x) {} }", "#[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin<$x>) {} }",
         "#[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin<&mut $x>) {} }", "#[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) { $x; } }", "#[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) $x }", "#[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) { m!($x Self); } }", "#[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) -> $x {} }",
         "#[pinned_drop] impl PinnedDrop for S { fn drop($x: Pin<&mut Self>) {} }", "#[pinned_drop] impl PinnedDrop for S { $x fn drop(self: Pin<&mut Self>) {} }", "#[pinned_drop] impl PinnedDrop for S { $x }", "#[pinned_drop] $x", "#[pinned_drop($x)] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) {} }", "#[pinned_drop] impl PinnedDrop for S<$x> { fn drop(self: Pin<&mut Self>) { Self; m!(Self::X); } }",
         "#[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) { let $x = self; } }", "#[pinned_drop] impl<T: $x> PinnedDrop for S<T> { fn drop(self: Pin<&mut Self>) { let x: $x = Self { a: $x }; } }"]

MACROS = "macro_rules! tts { ($($t:tt)*) => { $($t)* } }\nmacro_rules! m { ($($t:tt)*) => { () } }\n"
HEAD = "use vsut::*; use pin_project::{pin_project, pinned_drop, UnsafeUnpin}; use std::pin::Pin; use std::marker::*;\n"


def wrapped(i, p):
    if p.startswith("frag:"):
        kind, val, txt = p[5:].split("\x00")
        return f"mod c{i} {{ {HEAD} macro_rules! fr {{ ($x:{kind}) => {{ {txt} }} }} fr! {{ {val} }} }}\n"
    return f"tts! {{ mod c{i} {{ {HEAD} {p}\n }} }}\n"


PINATTR = re.compile(r"#\s*\[\s*(pin_project|pinned_drop)\b")


def ident_attr(src):
    """The same tokens under an identity attribute macro."""
    return PINATTR.sub("#[auxmac::probe", src)


def program(parts):
    src = ALLOW + MACROS + "".join(wrapped(i, p) for i, p in enumerate(parts))
    return prog(src, expect="nopanic", name="fuzz", neutral=ident_attr(src), parts=len(parts))


def balanced(s):
    st = []
    for t in LEX.findall(s):
        if t in OPEN:
            st.append(t)
        elif t in CLOSE:
            if not st or OPEN.index(st.pop()) != CLOSE.index(t):
                return False
    return not st


def valid_item(g):
    pd = g.chance(1, 3)
    item = gen_item(g, replace="maybe", pinned_drop=pd, unpin="maybe", many=False, tail=10)
    return item, pd


def part(g):
    k = g.weighted([(4, "edit-item"), (3, "edit-impl"), (4, "args"), (4, "adt"), (1, "other"), (5, "impl"), (2, "frag"), (2, "valid")])
    if k == "edit-item" or k == "valid":
        item, pd = valid_item(g)
        t = tree(item.render())
        ks = ["edit:" + edit(g, t, ["#", "pin", "struct", "enum", "Self", "'pin", "T"]) for _ in range(g.int(1, 3))] if k != "valid" else []
        return text(t) + (pinned_drop_impl(item) if pd and g.flip() else ""), {k, *ks}
    if k == "edit-impl":
        src = "impl PinnedDrop for S { fn drop(mut self: Pin<&mut Self>) { let x = self.a; Self::f(Self::K); format!(\"{}\", self.a); match x { Self(y) => {} } } }" if g.flip() else pd_impl(g)
        t = tree("#[pinned_drop] " + src)
        return "#[pin_project(PinnedDrop)] struct S { a: u8 } " + text(t) if not [edit(g, t, SELFB[:4]) for _ in range(g.int(1, 3))] else text(t), {k}
    if k == "args":
        if g.chance(1, 5):
            return f"#[pinned_drop{args(g)}] {pd_impl(g)}", {"args-pinned_drop"}
        item, pd = valid_item(g)
        s = item.render(macro=False).strip() if g.chance(1, 3) else g.pick(["struct S { #[pin] a: u8, b: u8 }", "enum S { A(#[pin] u8), B { b: u8 }, C }", "struct S<T>(#[pin] T);"])
        return f"#[pin_project{args(g)}] {s}", {k}
    if k == "adt":
        return f"#[pin_project{args(g) if g.chance(1, 3) else ''}] {g.pick(IATTRS) if g.flip() else ''} {weird_adt(g)}", {k}
    if k == "other":
        return f"#[{g.pick(['pin_project', 'pinned_drop'])}{args(g) if g.chance(1, 3) else ''}] {g.pick(OTHERS)}", {k}
    if k == "frag":
        f, v = g.pick(FRAG)
        return f"frag:{f}\x00{v}\x00{g.pick(FTEXT)}", {k, "frag:" + f}
    return f"#[pinned_drop] {pd_impl(g)}", {k}


def make(parts, classes, summary):
    parts = [p for p in parts if p.startswith("frag:") or balanced(p)] or ["#[pin_project] struct S { #[pin] a: u8 }"]
    c = case([program(parts)], classes, "valid" not in classes or len(classes) > 1, summary, n=len(parts))
    c["subhash"] = [hashlib.sha256(p.encode()).hexdigest() for p in parts]
    if len(parts) > 1:
        c["singles"] = lambda: [case([program([p])], classes, True, "one use: " + p.replace("\x00", " ")[:200]) for p in parts]
    return c


def fixed(tier):
    """Lists combined exhaustively: every unusual item under both attributes, every fragment in every position, every receiver/type/attribute once."""
    ps = [f"#[{a}] {o}" for o in OTHERS for a in ("pin_project", "pinned_drop", "pin_project(PinnedDrop)")]
    ps += [f"#[pin_project] struct S {{ #[pin] a: {t} }}" for t in TYPES] + [f"#[pin_project(project_replace)] struct S({t}, #[pin] u8);" for t in TYPES] + [f"#[pin_project(project = P, project_ref = R, project_replace = O)] enum S {{ A(#[pin] {t}), B {{ a: {t} }} }}" for t in TYPES]
    ps += [f"#[pin_project] struct S{x}(#[pin] u8);" for x in GENERICS] + [f"#[pin_project(project = P)] enum S{x} {{ A(#[pin] u8, T) }}" for x in GENERICS] + [f"#[pin_project] struct S<'a, T>(#[pin] &'a T) {w};" for w in WHERES] + [f"#[pin_project(UnsafeUnpin)] struct S<'a, T> {w} {{ #[pin] a: &'a T }}" for w in WHERES]
    ps += [f"#[pin_project] {v} struct S {{ #[pin] {v} a: u8 }}" for v in VIS] + [f"#[pin_project] {a} struct S {{ #[pin] a: u8 }}" for a in IATTRS] + [f"{a} #[pin_project] struct S {{ #[pin] a: u8 }}" for a in IATTRS] + [f"#[pin_project] struct S {{ {a} a: u8 }}" for a in FATTRS] + [f"#[pin_project(project = P)] enum S {{ {a} A({a} u8) }}" for a in FATTRS + IATTRS]
    fn = "fn drop(self: Pin<&mut Self>) { }"
    ps += [f"#[pinned_drop] {h} impl PinnedDrop for S {{ {fn} }}" for h in HEADS] + [f"#[pinned_drop] impl<T> {t} S {{ {fn} }}" for t in TRAITS] + [f"#[pinned_drop] impl PinnedDrop for {s} {{ fn drop(self: Pin<&mut Self>) {{ Self; Self::X; m!(Self, Self::Y); let Self {{ a }} = x; Self(1); }} }}" for s in SELVES]
    ps += [f"#[pinned_drop] impl PinnedDrop for S {{ fn drop({r}) {{ self; }} }}" for r in RECV] + [f"#[pinned_drop] impl PinnedDrop for S {{ fn drop(self: Pin<&mut Self>) {r} {{}} }}" for r in RETS] + [f"#[pinned_drop] impl PinnedDrop for S {{ {q} {n}(self: Pin<&mut Self>) {{}} }}" for q in FQ for n in ("drop",)] + [f"#[pinned_drop] impl PinnedDrop for S {{ fn {n}(self: Pin<&mut Self>) {{}} }}" for n in FN]
    ps += [f"#[pinned_drop] impl PinnedDrop for S {{ {x} }}" for x in IITEMS] + [f"#[pinned_drop] impl PinnedDrop for S {{ {fn} {x} }}" for x in IITEMS] + [f"#[pinned_drop] impl PinnedDrop for S {{ {x} {fn} }}" for x in IITEMS]
    ps += [f"#[pinned_drop] impl<T> PinnedDrop for S<T> {{ fn drop(self: Pin<&mut Self>) {{ {s.replace('%s', 'self')} {s.replace('%s', 'Self')} }} }}" for s in STM] + [f"#[pinned_drop] impl<T> PinnedDrop for m::S<T> {{ fn drop(self: Pin<&mut Self>) {{ m! {{ {s.replace('%s', 'self Self')} }} }} }}" for s in STM]
    ps += [f"#[pin_project({a})] struct S {{ #[pin] a: u8 }}" for a in ARGW] + [f"#[pin_project({a} {b})] enum S {{ A {{ #[pin] a: u8 }}, B }}" for a in ARGW for b in ARGW] + [f"#[pin_project({x})] struct S(u8);" for x in IDENTS + KWS + PUNCT + LITS] + [f"#[pin_project(project = {x})] struct S(u8);" for x in IDENTS + KWS + PUNCT + LITS] + [f"#[pin_project(project_replace = {x})] struct S(u8);" for x in IDENTS + KWS + LITS]
    ps += [f"#[pinned_drop({x})] impl PinnedDrop for S {{ {fn} }}" for x in IDENTS + KWS + PUNCT + LITS]
    ps += [f"frag:{f}\x00{v}\x00{t}" for f, v in FRAG for t in FTEXT]
    ps += ["#[pin_project] struct S" + "(" * 1 + "#[pin] " + "(" * d + "u8" + ")" * d + ");" for d in (30, 60)] + ["#[pin_project] struct S(" + ", ".join(["#[pin] u8"] * n) + ");" for n in (64, 200)] + ["#[pin_project(project = P, project_ref = R, project_replace = O)] enum S {" + ", ".join(f"V{i}(#[pin] u8, u16)" for i in range(n)) + "}" for n in (64, 150)]
    ps += ["#[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) { m!(" + "(" * d + "Self self" + ")" * d + "); } }" for d in (30, 60)]
    n = 24
    for i in range(0, len(ps), n):
        yield make(ps[i:i + n], {"enumerated"}, "enumerated uses")


def gen(g, tier):
    parts, classes = [], set()
    for _ in range(1 + (K - 1 if g.chance(7, 8) else 0)):
        p, c = part(g)
        parts.append(p)
        classes |= c
    return make(parts, classes, f"{len(parts)} fuzzed uses")
