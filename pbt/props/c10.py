"""C10: differential - the same body as #[pinned_drop] body and as an ordinary method on a twin type."""
from ..core import batch_case
from ..items import USES, USES_PLAIN

LEVEL = "exploration"
CASES = {"quick": 900, "thorough": 9000}
K = 3
RULE = ("A case is a type (named struct, tuple struct or enum; none, type, lifetime, const parameters, bounds and where clauses) and a body of 3-9 statements drawn from a "
        "grammar of uses of self and Self (fields, patterns, paths, types, closures, macro arguments, local macros, nested items with their own self and Self, module "
        "paths, control flow), randomly nested in blocks, closures, loops, unsafe blocks and macro calls. The body is compiled twice in twin modules, as #[pinned_drop] "
        "body and as an ordinary method; both must compile and leave the same trace of observations. Non-trivial: at least three different statement kinds.")
ASSUMPTIONS = ["Excluded (known findings or documented heuristics): Self patterns and inline `{self}` captures inside macro arguments, `self` as a path keyword "
               "(pub(self), use {self}) inside macro arguments, macro arguments mixing function items with the outer self."]


class Ctx:
    pass


def make_type(g):
    c = Ctx()
    c.kind = g.pick(["named", "tuple", "enum"])
    gen = g.pick([0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12])
    c.gen = gen
    decl, use, conc, where, extra = [("", "", "", "", "()"), ("<T>", "<T>", "<u8>", "", "T"), ("<'x, T: Any1 + 'x>", "<'x, T>", "<'static, Tr>", "", "PhantomData<&'x T>"),
                                     ("<const N: usize>", "<N>", "<2>", "", "[u8; N]"), ("<T, const N: usize>", "<T, N>", "<u8, 1>", " where T: Any1, Option<T>: Any1", "[T; N]"),
                                     ("<'pin, T>", "<'pin, T>", "<'static, u8>", " where T: 'pin", "(T, &'pin str)"),
                                     ("<T>", "<T>", "<u8>", " where for<'q> T: Hr<'q>", "T"), ("<T: ?Sized>", "<T>", "<str>", "", "PhantomData<T>"),
                                     ("<'x, 'y: 'x, T: 'y>", "<'x, 'y, T>", "<'static, 'static, u8>", " where 'y: 'x", "PhantomData<&'x &'y T>"),
                                     ("<T>", "<T>", "<u8>", " where Self: Sized, T: Assoc, <T as Assoc>::Ty: Any1, for<'q> &'q T: Any1", "T"),
                                     ("<T>", "<T>", "<u8>", " where T: Any1", "T"), ("<'x>", "<'x>", "<'static>", "", "&'x str"), ("<'x, T>", "<'x, T>", "<'static, u8>", "", "(T, &'x str)")][gen]
    c.decl, c.use, c.conc, c.where, c.extra = decl, use, conc, where, extra
    c.ddecl, c.dwhere = decl, where
    if gen == 10:        # the impl names its parameters differently from the definition, which has a default
        c.ddecl, c.decl, c.use, c.where = "<Q = u16>", "<T>", "<T>", " where T: Any1"
        where, extra = " where Q: Any1", "Q"
    if gen == 11:
        c.decl, c.use = "", "<'_>"
    if gen == 12:
        c.decl, c.use = "<T>", "<'_, T>"
    c.target = g.weighted([(5, "S"), (1, "self::S"), (1, "super::" + "@MOD@::S")]) + c.use
    c.pb = g.flip()
    p = "#[pin] " if c.pb else ""
    if c.kind == "named":
        c.body = f"{where} {{ a: u32, {p}b: String, c: Vec<u32>, #[pin] d: {extra} }}"
        c.A, c.B, c.C = "a", "b", "c"
        c.pat = "Self { a, c, .. }"
        c.mk = "S { a: 7, b: String::from(\"bee\"), c: vec![1, 2], d: mkv(5) }"
    elif c.kind == "tuple":
        c.body = f"(u32, {p}String, Vec<u32>, #[pin] {extra}){where};"
        c.A, c.B, c.C = "0", "1", "2"
        c.pat = "Self(a, _, c, ..)"
        c.mk = "S(7, String::from(\"bee\"), vec![1, 2], mkv(5))"
    else:
        c.body = f"{where} {{ V {{ a: u32, {p}b: String, c: Vec<u32>, #[pin] d: {extra} }}, W(u32, {p}u8), Un }}"
        c.mk = g.pick(["S::V { a: 7, b: String::from(\"bee\"), c: vec![1, 2], d: mkv(5) }", "S::W(3, 4)", "S::Un"])
    c.mutself = g.flip()
    c.impl_extra = ""
    return c


N = "note(format!(\"{}\", {}));"


NOTE_FN = False  # whether observations are passed to a function or to a macro (macro arguments are handled differently)


def note(e, tag):
    if NOTE_FN:
        return f"note(dv(\"{tag}\", &({e})));"
    return f"note(format!(\"{tag}:{{:?}}\", {e}));"


def stmts(c):
    """name -> (weight, source, flags). Flags: f contains a fn item; p Self pattern; k self as a path keyword; m needs mut self; x ends the use of self; c may not sit in a closure."""
    s = {}
    st = c.kind != "enum"
    a = f"self.{c.A}" if st else "self.get()"

    def add(name, src, flags="", w=2):
        s[name] = (w, src, flags)
    add("read", note(a, "read"), w=3)
    add("sum", f"let z = {a} + Self::K; " + note("z", "sum"))
    add("method", note("self.get()", "get"))
    add("method-pin", note("self.as_ref().pget()", "pget"))
    add("assoc-fn", note("Self::assoc(4)", "assoc"))
    add("assoc-fn2", note("<Self>::assoc(4)", "assoc2"))
    add("trait-fn", note("<Self as Tr2>::tf(&*self)", "tf"))
    add("trait-const", note("<Self as Tr2>::Q + Self::K", "q"))
    add("trait-assoc-ty", "let q: <Self as Tr2>::Out = Self::out(); " + note("q", "out"))
    add("self-size", note("std::mem::size_of::<Self>() == std::mem::size_of::<Option<Self>>()", "size"))
    add("phantom", "let ph: PhantomData<Self> = PhantomData; " + note("ph == PhantomData::<Self>", "ph"))
    add("turbofish", note("sz::<Self>() > 10000", "sz"))
    add("vec-ty", note("Vec::<Self>::new().len()", "vecty"))
    add("closure", f"let cl = || {a}; " + note("cl()", "cl"))
    add("closure-param", "let cl = |x: &Self| x.get(); " + note("cl(&self)", "clp"), "")
    add("closure-ret", "let cl = || -> Option<&Self> { Some(&*self) }; " + note("cl().map(|x| x.get())", "clr"))
    add("fnptr", "let fp: fn(&Self) -> u32 = Self::get; " + note("fp(&self)", "fp"))
    add("fnitem-path", note("[1u32].iter().map(|x| Self::assoc(*x)).sum::<u32>()", "map"))
    add("map-self", note("Some(&*self).map(Self::get)", "mapself"))
    add("deref", note("(*self).get()", "deref"))
    add("ref-deref", "let r: &Self = &self; " + note("r.get()", "refd"))
    add("vec-mac", note(f"vec![{a}, Self::K]", "vecm"))
    add("fmt-nested", note(f"format!(\"{{}}-{{}}\", {a}, format!(\"{{}}\", Self::K))", "fmtn"))
    add("assert", f"assert!({a} == {a}); assert_eq!(Self::K, Self::K, \"x {{}}\", {a}); " + note("1", "assert"))
    add("matches-val", note(f"matches!({a}, 0..=9)", "mv"))
    add("id-mac", note(f"id!({a} + Self::K)", "idm"))
    add("id-mac-block", note(f"id!({{ let z = {a}; z * 2 }})", "idb"))
    add("ty-mac", "let ph: vsut::ty_of!(PhantomData<Self>) = PhantomData; " + note("ph == PhantomData", "tym"))
    add("mac-stmt", f"id! {{ let q = {a}; }} " + note("1", "ms"))
    add("mac-closure", note(f"id!((|| {a})())", "mc"))
    add("mac-method", note("id!(self.get() + <Self>::assoc(1))", "mm"))
    add("mac-selfpath", note("id!(self::helper(3))", "msp"))
    add("mac-nested", note(f"id!(id!(id!({a})))", "mn"))
    add("write", f"let mut o = String::new(); {{ use std::fmt::Write as _; write!(o, \"{{}} {{}}\", {a}, Self::K).unwrap(); }} " + note("o", "write"))
    add("local-mac", f"macro_rules! lm {{ () => {{ {a} }} }} " + note("lm!()", "lm"))
    add("local-mac-arg", f"macro_rules! lma {{ ($x:expr) => {{ {a} + $x + Self::K }}; ($x:expr, $y:expr) => {{ $x + $y }} }} " + note("lma!(1) + lma!(2, 3)", "lma"))
    add("local-mac-ty", "macro_rules! lmt { () => { PhantomData::<Self> } } " + note("lmt!() == PhantomData", "lmt"))
    add("nested-fn", "fn inner(x: u32) -> u32 { x + 1 } " + note(f"inner({a})", "nfn"), "f")
    add("nested-generic-fn", "fn inner_g<T: Copy>(x: T) -> T { x } " + note(f"inner_g({a})", "nfg"), "f")
    add("nested-struct", "struct In(u32); impl In { const K: u32 = 99; fn get(&self) -> u32 { self.0 + Self::K } fn mk() -> Self { Self(3) } fn own(self) -> Self { self } } " + note("In::mk().own().get() + In(1).get()", "nst"), "f")
    add("nested-struct-pat", "struct In { x: u32 } impl In { fn f(self: Box<Self>) -> u32 { let Self { x } = *self; x } } " + note("Box::new(In { x: 4 }).f()", "nsp"), "fp")
    add("nested-enum", "#[derive(Debug)] enum Ne { X(u32), Y } impl Ne { fn f(&self) -> u32 { match self { Self::X(v) => *v, Self::Y => 0 } } fn y() -> Self { Self::Y } } " + note("(Ne::X(3).f(), Ne::y())", "nen"), "fp")
    add("nested-trait", "trait Nt { const Z: u32; fn z(&self) -> u32 { Self::Z } fn me(self) -> Self where Self: Sized { self } } impl Nt for u8 { const Z: u32 = 12; } " + note("1u8.me().z()", "ntr"), "f")
    add("nested-generic-struct", "struct Wrap<T>(T); impl<T> Wrap<T> { fn map<F: FnOnce(T) -> T>(self, f: F) -> Self { Self(f(self.0)) } } " + note(f"Wrap({a}).map(|x| x + 1).0", "ngs"), "f")
    add("nested-const", "const KK: u32 = 77; static ST: u32 = KK + 1; " + note("KK + ST", "nco"))
    add("nested-mod", "mod nm { pub(super) fn f() -> u32 { self::g() } fn g() -> u32 { super::K0 } pub(self) struct P; } " + note("1", "nmod"), "fk")
    add("nested-pubself", "pub(self) struct Ps { pub(self) x: u32 } " + note("Ps { x: 3 }.x", "npub"), "k")
    add("nested-alias", "type Al = u32; let q: Al = 4; " + note("q", "nal"))
    add("use-self", "use self::inner_m::f as ff; " + note("ff()", "use"), "k")
    add("use-self-brace", "use inner_m::{self as im, f as f2}; " + note("im::f() + f2()", "useb"), "k")
    add("selfpath-fn", note("self::helper(2)", "spf"))
    add("selfpath-const", note("self::K0 + self::inner_m::f()", "spc"))
    add("selfpath-ty", "let o: self::Other = self::Other { v: 3 }; " + note("o.me().v", "spt"))
    add("superpath", note("super::outer() + crate::root()", "sup"))
    add("drop-call", "let w = String::from(\"w\"); drop(w); " + note("1", "dc"))
    add("ufcs-clone", "let w = String::from(\"w\"); " + note("Clone::clone(&w)", "ufcs"))
    add("label", "let r = 'pin: loop { break 'pin " + a + "; }; " + note("r", "lab"))
    add("if-let", f"if let 0..=8 = {a} {{ " + note("1", "ifl") + " } else { " + note("0", "ifl") + " }")
    add("attr-stmt", "#[cfg(any())] note(\"never\"); #[allow(unused_variables)] let unused = " + a + ";")
    add("struct-short", f"struct Sh {{ a: u32 }} let a = {a}; let sh = Sh {{ a }}; " + note("sh.a", "sh"))
    add("shadow-loop", f"for i in 0..2 {{ let x = i + {a}; " + note("x", "shl") + " }")
    add("while-self", f"let mut i = 0; while i < {a} && i < 3 {{ i += Self::ONE; }} " + note("i", "whs"))
    add("array-len", "let arr = [0u8; 3]; " + note("arr.len()", "arr"))
    add("ret-closure", f"let cl = || {{ if {a} > 100 {{ return 1; }} 2 }}; " + note("cl()", "rcl"))
    add("unsafe-blk", f"let v = unsafe {{ unsafe_id({a}) }}; " + note("v", "uns"))
    add("range", note(f"(0..{a}).len()", "rng"))
    add("async-blk", "let fut = async { let _ = " + a + "; Self::K }; let _ = &fut; " + note("1", "asy"), "")
    add("const-blk", "let z = const { 3 + 4 }; " + note("z", "cb"))
    add("where-fn", "fn wf<T>(x: T) -> T where T: Sized { x } " + note("wf(3)", "wf"), "f")
    add("pin-fn", "fn pf(x: Pin<&mut u8>) -> u8 { *x } " + note("pf(Pin::new(&mut 4))", "pf"), "f")
    add("dyn-self", "let dy: &dyn Tr3 = &*self; " + note("dy.t3()", "dyn"))
    add("impl-closure", "let cs: Box<dyn Fn(&Self) -> u32> = Box::new(|x| x.get()); " + note("cs(&self)", "boxcl"))
    add("ptr-cast", "let pc = &*self as *const Self; " + note("pc == self.as_ref().get_ref() as *const Self", "pc"))
    add("tuple-ty", "let tt: (Option<&Self>, u8) = (Some(&self), 1); " + note("tt.0.is_some()", "tt"))
    add("typed-cl-ret", "let q = (|x: u32| -> <Self as Tr2>::Out { x as u8 })(5); " + note("q", "tcr"))
    add("let-else", f"let 0..=1000 = {a} else {{ note(\"else\"); return; }}; " + note("1", "le"), "c")
    add("early-return", f"if {a} == 12345 {{ return; }}", "c")
    # Self in the generic arguments of any segment of a path, and in every type position
    add("path-args-1", "let v = Vec::<Option<Box<Self>>>::new(); " + note("v.len()", "pa1"))
    add("path-args-2", note("Option::<&Self>::None.is_none()", "pa2"))
    add("path-args-3", note("std::vec::Vec::<Self>::with_capacity(0).is_empty()", "pa3"))
    add("path-args-4", note("<Vec<Self> as Default>::default().len()", "pa4"))
    add("path-args-5", note("<[Self]>::len(&[])", "pa5"))
    add("path-args-6", note("<PhantomData<fn(&Self) -> Self> as Default>::default() == PhantomData", "pa6"))
    add("path-args-7", note("PhantomData == PhantomData::<(Self, [Self; 2], *const Self, &'static str)>", "pa7"))
    add("path-args-8", note("std::iter::empty::<&Self>().map(|x: &Self| x.get()).collect::<Vec<u32>>().len()", "pa8"))
    add("path-args-9", note("std::iter::empty::<u8>().filter_map(|_| None::<Box<Self>>).collect::<Vec<Box<Self>>>().len()", "pa9"))
    add("path-args-10", note("std::mem::align_of::<(Self, u8)>() == std::mem::align_of::<[Self; 1]>()", "pa10"))
    add("dyn-args", "let d: Option<Box<dyn Fn(&Self, Option<Self>) -> u32>> = None; " + note("d.is_none()", "dya"))
    add("slice-ty", "let d: &[&Self] = &[&*self]; " + note("d.len()", "sty"))
    add("array-ty", "let d: [Option<Self>; 2] = [None, None]; " + note("d.len()", "aty"))
    add("array-len-self", "let d = [0u8; { 1 + 1 }]; " + note("d.len()", "als"))
    add("ptr-ty", "let d: *mut Self = std::ptr::null_mut(); " + note("d.is_null()", "pty"))
    add("cast-ty", note("std::ptr::null::<u8>() as *const Self == std::ptr::null::<Self>()", "cty"))
    add("fnptr-ty", "let d: Option<for<'q> fn(&'q Self, Pin<&'q mut Self>) -> &'q Self> = None; " + note("d.is_none()", "fty"))
    add("never-struct-expr", "if false { let _x: Option<Self> = None; let _y = || -> Self { loop {} }; } " + note("1", "nse"))
    add("assoc-proj", "let o: <Self as Tr2>::Out = <Self as Tr2>::out(); let p: Option<<Self as Tr2>::Out> = Some(o); " + note("p", "apr"))
    add("ref-pat", "let &ref r = &*self; " + note("r.get()", "rfp"))
    add("at-pat", f"let q @ 0..=99999 = {a} else {{ return; }}; " + note("q", "atp"), "c")
    add("const-pat", f"match {a} {{ Self::K => note(\"k\"), Self::ONE => note(\"one\"), _ => note(\"other\") }}", "")
    add("range-pat", f"match {a} {{ Self::ONE..=Self::K => note(\"in\"), _ => note(\"out\") }}", "")
    add("qconst-pat", f"match {a} {{ <Self as Tr2>::Q => note(\"q\"), _ => note(\"nq\") }}", "")
    add("method-turbofish", note("self.conv::<Option<Self>>()", "mtf"))
    add("index", note(f"[1u32, 2, 3][({a} % 3) as usize]", "idx"))
    add("tuple-self", "let t = (&self, Self::K); " + note("t.0.get() + t.1", "tps"))
    add("array-self", "let t = [self.get(), Self::ONE]; " + note("t", "ars"))
    add("ref-self", "let t = &self; " + note("t.get()", "rs"))
    add("unary-self", note("!self.get().eq(&7)", "us"))
    add("try-self", "let t = (|| -> Option<u32> { Some(self.opt()? + Self::ONE) })(); " + note("t", "try"))
    add("assign-block", "let t; t = { self.get() }; " + note("t", "asb"))
    add("nested-closures", "let t = (|| (|| (|x: u32| x + self.get())(Self::ONE))())(); " + note("t", "ncl"))
    add("move-copy", "let k = self.get(); let t = move || k + Self::K; " + note("t()", "mvc"))
    add("match-guard", "match 3 { x if x == self.get() => note(\"eq\"), x if x == Self::K => note(\"k\"), _ => note(\"no\") }")
    add("while-let", "let mut it = Some(self.get()); while let Some(x) = it.take() { " + note("x", "wl") + " }")
    add("if-chain", "if self.get() > Self::K { " + note("1", "ifc") + " } else if Self::ONE == self.get() { " + note("2", "ifc") + " } else { " + note("3", "ifc") + " }")
    add("raw-self-str", note("\"self Self {self}\"", "rss") if NOTE_FN else "note(\"self Self\");")
    add("ident-like", "let selfish = 3; let this_self = 4; let _self = 5; " + note("selfish + this_self + _self", "idl"))
    add("field-like", "struct Fl { this: u32 } let q = Fl { this: self.get() }; " + note("q.this", "fll"))
    add("lifetime-ty", "let q: &'_ Self = &self; " + note("q.get()", "lty"))
    add("block-mac-bracket", note("vec![self.get(); Self::ONE as usize]", "bmb"))
    add("mac-brace", "let q = id! { self.get() + Self::K }; " + note("q", "mbr"))
    add("mac-bracket", "let q = id![self.get() + Self::K]; " + note("q", "mbk"))
    add("mac-in-pat", f"let id!(q) = {a}; " + note("q", "mip"))
    add("mac-path", "let q = self::idp::id2!(self.get()); " + note("q", "mpt") if False else "let q = std::convert::identity(std::format!(\"{}\", self.get())); " + note("q", "mpt"))
    add("mac-trailing", note("std::cmp::max(self.get(), id!(Self::K,))", "mtr") if False else note("id!((self.get(), Self::K,))", "mtr"))
    add("mac-fnptr", "let q = id!(Self::get as fn(&Self) -> u32); " + note("q(&self)", "mfp"))
    add("mac-turbofish", note("id!(sz::<Self>() == sz::<Option<Option<Self>>>() || Vec::<Self>::new().is_empty())", "mtf2"))
    add("mac-qpath", note("id!(<Self as Tr2>::Q + <Self as Tr2>::tf(&*self))", "mqp"))
    add("mac-colon", "let q = id!({ let x: &Self = &*self; x.get() }); " + note("q", "mco"))
    add("mac-label", "let q = id!('l: loop { break 'l self.get() }); " + note("q", "mlb"))
    add("mac-assoc-ty", "let q: id_ty!(<Self as Tr2>::Out) = Self::out(); " + note("q", "mat"))
    add("local-mac-2", "macro_rules! l2 { ($me:ident, $T:ty) => { <$T>::assoc($me.get()) } } " + note("l2!(self, Self)", "l2"))
    add("local-mac-3", "macro_rules! l3 { ($($e:expr),* $(,)?) => { [$($e),*] } } " + note("l3!(self.get(), Self::K, <Self as Tr2>::Q,)", "l3"))
    add("local-mac-4", "macro_rules! l4 { ($e:expr) => { { let cl = |s: &Self| s.get() + $e; cl(&*self) } } } " + note("l4!(Self::ONE)", "l4"))
    add("local-mac-5", "macro_rules! l5 { ($e:ident: $x:expr) => { $e.get() + $x }; ($e:ident = $x:ty) => { <$x>::assoc($e.get()) } } " + note("l5!(self: Self::K) + l5!(self = Self)", "l5"))
    add("local-mac-6", "macro_rules! l6 { ({ $($k:ident: $e:expr),* $(,)? }) => { [$($e),*] } } " + note("l6!({ a: self.get(), self: Self::K, b: <Self>::ONE })", "l6"))
    if st:
        brace = "Self { .. }"
        tup = "Self(..)"
        add("rest-pat", f"let {brace} = &*self; " + note("1", "rp1"), "p")
        add("rest-pat-iflet", f"if let {brace} = *self {{ note(\"y\"); }}", "p")
        add("rest-pat-match", f"match &*self {{ {brace} => note(\"m\") }}", "p")
        add("rest-pat-cl", f"let cl = |{brace}: &Self| 1; " + note("cl(&self)", "rpc"), "p")
        add("rest-pat-at", f"let q @ {brace} = &*self; " + note("q.get()", "rpa"), "p")
        add("nested-pat", f"let (Some({brace}), _) = (Some(&*self), 1) else {{ return; }}; " + note("1", "npt"), "pc")
        add("or-pat", f"if let (1, {brace}) | (_, {brace}) = (2, &*self) {{ note(\"or\"); }}", "p")
        add("slice-pat", f"if let [{brace}] = &[&*self][..] {{ note(\"sl\"); }}", "p")
        if c.kind == "tuple":
            add("tuple-rest-pat", f"let {tup} = &*self; if let Self(.., _) = *self {{ note(\"t\"); }}", "p")
            add("index-pat", "let Self { 0: q, 2: w, .. } = &*self; " + note("(q, w)", "ipt"), "p")
        else:
            add("bind-pat", "let Self { a: q, c: w, .. } = &*self; " + note("(q, w)", "bpt"), "p")
    else:
        add("enum-rest", "match *self { Self::V { .. } => note(\"V\"), Self::W { .. } => note(\"W\"), Self::Un { .. } => note(\"Un\") }", "p")
        add("enum-rest2", "match &*self { Self::V { .. } => note(\"V\"), Self::W(..) => note(\"W\"), Self::Un => note(\"Un\") }", "p")
        add("enum-or", "let q = if let Self::V { a: q, .. } | Self::W(q, ..) = &*self { *q } else { 0 }; " + note("q", "eor"), "p")
        add("enum-nested", "if let Some(Self::V { b, .. }) = Some(&*self) { " + note("b", "ene") + " }", "p")
        add("enum-fieldidx", "if let Self::W { 0: q, .. } = &*self { " + note("q", "efi") + " }", "p")
        add("enum-iflet-cl", "let cl = |s: &Self| if let Self::Un = s { 1 } else { 2 }; " + note("cl(&self)", "eic"), "p")
        add("enum-let-else", "let Self::V { a, .. } = &*self else { note(\"le\"); return; }; " + note("a", "ele"), "pc")
        add("enum-while", "let mut n = 0; while let Self::V { .. } = *self { n += 1; if n > 2 { break; } } " + note("n", "ewh"), "p")
    if st:
        add("self-pat", f"{{ let {c.pat} = &*self; " + note("(a, c)", "pat") + " }", "p")
        add("self-pat-ref", f"{{ let {c.pat.replace('a,', 'ref a,', 1).replace(' c,', ' ref c,', 1)} = *self; " + note("(a, c.len())", "patr") + " }", "p")
        add("closure-pat", f"let cl = |{c.pat}: &Self| *a + c.len() as u32; " + note("cl(&self)", "clpat"), "p")
        add("match-pat", f"match &*self {{ {c.pat} if *a > 3 => " + note("a", "mp").rstrip(";") + f", {c.pat} => note(format!(\"mp2 {{a}}\")) }}", "p")
        add("read-b", note(f"self.{c.B}.len()", "rb"))
        add("mac-b", note(f"format!(\"{{:?}}\", (&self.{c.B}, &self.{c.C}))", "mb"))
        add("field-ref", f"let r = &self.{c.C}; " + note("r.len()", "fr"))
        if c.mutself:
            add("proj-write", f"*self.as_mut().project().{c.A} += 1; " + note(f"self.{c.A}", "pw"), "m", 3)
            add("proj-push", f"self.as_mut().project().{c.C}.push(9); " + note(f"self.{c.C}", "pp"), "m", 3)
            add("proj-let", f"let p = self.as_mut().project(); p.{c.C}.clear(); *p.{c.A} = 2; " + note(f"self.{c.A}", "pl"), "m")
            add("mac-write", f"id!(*self.as_mut().project().{c.A} += Self::K); " + note(f"self.{c.A}", "mw"), "m")
            add("cl-write", f"{{ let mut cl = || *self.as_mut().project().{c.A} += 5; cl(); cl(); }} " + note(f"self.{c.A}", "cw"), "m")
            add("lm-write", f"macro_rules! inc {{ ($n:expr) => {{ *self.as_mut().project().{c.A} += $n; }} }} inc!(2); inc!(Self::K); " + note(f"self.{c.A}", "lmw"), "m")
            if c.pb:
                add("pin-set", f"self.as_mut().project().{c.B}.set(String::from(\"new\")); " + note(f"self.{c.B}", "ps"), "m")
    else:
        add("enum-match", "match &*self { Self::V { a, c, .. } => " + note("(a, c)", "em").rstrip(";") + ", Self::W(x, _) => " + note("x", "em").rstrip(";") + ", Self::Un => note(\"un\") }", "p", 3)
        add("enum-iflet", "if let Self::W(x, ..) = &*self { " + note("x", "ei") + " } else if let Self::Un = *self { note(\"u\"); }", "p")
        add("enum-proj-ref", "match self.as_ref().project_ref() { PR::V { a, .. } => " + note("a", "er").rstrip(";") + ", PR::W(x, ..) => " + note("x", "er").rstrip(";") + ", PR::Un => {} }", "")
        add("enum-use", "{ use self::S::*; if let Un = *self { note(\"un\"); } }", "kp")
        if c.mutself:
            add("enum-write", "match self.as_mut().project() { PM::V { a, c, .. } => { *a += 1; c.push(3); } PM::W(x, ..) => *x += Self::K, PM::Un => {} } " + note("self.get()", "ew"), "m", 3)
            add("enum-cl-write", "{ let mut cl = || if let PM::W(x, _) = self.as_mut().project() { *x += 1 }; cl(); } " + note("self.get()", "ecw"), "m")
    # constructing values of the type, generic or not (never dropped: that would run the body again)
    # patterns, constructors and keyword uses of self / Self as macro arguments
    add("mac-pubself", "id! { pub(self) struct Pz { pub(self) x: u32 } } " + note("Pz { x: self.get() }.x", "mps"), "k")
    add("mac-use", "id! { use inner_m::{self as im3, f as f3}; } " + note("im3::f() + f3()", "mus"), "k")
    add("mac-use-self", "id! { use self::inner_m::f as f4; } " + note("f4()", "mu2"), "k")
    add("mac-use-nest", "id! { use self::{inner_m::{self as im5, f as f5}, K0 as k5}; } " + note("im5::f() + f5() + k5", "mu3"), "k")
    add("mac-nested-items", "id! { mod nm2 { pub(super) fn g() -> u32 { self::h() } pub(self) fn h() -> u32 { super::K0 } } } " + note("1", "mni"), "fk")
    if c.kind != "enum":
        add("mac-match-brace", note("matches!(*self, Self { .. })", "mmb"), "p", 2)
        add("mac-match-ref", note("matches!(&*self, Self { .. } if self.get() > 3)", "mmr"), "p")
        add("mac-closure-pat", note("id!((|Self { .. }: &Self| 1)(&self))", "mcp"), "p")
        add("mac-let-pat", f"id! {{ let {c.pat} = &*self; {note('(a, c)', 'mlp')} }}", "p", 2)
        add("mac-some-pat", note("matches!(Some(&*self), Some(Self { .. }))", "msm"), "p")
    if c.kind == "tuple":
        add("mac-match-tuple", note("matches!(*self, Self(1..=7, ..))", "mmt"), "p", 2)
        add("mac-ctor", "let q = id!(|d| Self(1, String::new(), vec![], d)); " + note("std::mem::size_of_val(&q)", "mct"))
        add("mac-ctor-path", "let q: fn(u32, String, Vec<u32>, _) -> Self = id!(Self); " + note("std::mem::size_of_val(&q)", "mcp2"))
    elif c.kind == "named":
        add("mac-match-named", note("matches!(*self, Self { a: 1..=7, .. })", "mmn"), "p", 2)
        add("mac-lit", "let q = id!(|d| Self { a: 1, b: String::new(), c: vec![], d }); " + note("std::mem::size_of_val(&q)", "mlt"))
    else:
        add("mac-match-v", note("(matches!(*self, Self::V { .. }), matches!(&*self, Self::W(..)), matches!(*self, Self::Un))", "mmv"), "p", 2)
        add("mac-match-or", note("matches!(&*self, Self::V { a: 1..=7, .. } | Self::W(2, _) | Self::Un)", "mmo"), "p", 2)
        add("mac-match-all", "id!(match &*self { Self::V { a, .. } => " + note("a", "mma").rstrip(";") + ", Self::W(x, _) => " + note("x", "mma").rstrip(";") + ", Self::Un => {} });", "p")
        add("mac-ctor-v", "let n = id!(std::mem::ManuallyDrop::new(Self::W(4, 2))); " + note("n.get()", "mcv"))
        add("mac-unit-v", "let n = std::mem::ManuallyDrop::new(id!(Self::Un)); " + note("n.get()", "muv"))
        add("mac-lit-v", "let q = id!(|d| Self::V { a: 1, b: String::new(), c: vec![], d }); " + note("std::mem::size_of_val(&q)", "mlv"))
    if c.kind == "tuple":
        add("ctor-ptr", "let q: fn(u32, String, Vec<u32>, _) -> Self = Self; " + note("std::mem::size_of_val(&q)", "cpt"))
        add("ctor-cl", "let q = |d| Self(1, String::new(), vec![], d); " + note("std::mem::size_of_val(&q)", "ccl"))
        add("ctor-arg", "let q = std::convert::identity(Self); " + note("std::mem::size_of_val(&q)", "car"))
    elif c.kind == "named":
        add("lit-cl", "let q = |d| Self { a: 1, b: String::new(), c: vec![], d }; " + note("std::mem::size_of_val(&q)", "lcl"))
    else:
        add("lit-v", "let q = |d| Self::V { a: 1, b: String::new(), c: vec![], d }; " + note("std::mem::size_of_val(&q)", "lv"))
        add("ctor-v", "let q: fn(u32, u8) -> Self = Self::W; let n = std::mem::ManuallyDrop::new(q(4, 2)); " + note("n.get()", "ctv"))
        add("unit-v", "let n = std::mem::ManuallyDrop::new(Self::Un); " + note("n.get()", "unv"))
    if c.gen == 0:
        if st:
            lit = c.mk.replace("S", "Self", 1).replace("mkv(5)", "()")
            add("construct", f"let n = std::mem::ManuallyDrop::new({lit}); " + note("n.get()", "con"))
            if c.kind == "tuple":
                add("ctor-fn", "let mkf: fn(u32, String, Vec<u32>, ()) -> Self = Self; let n = std::mem::ManuallyDrop::new(mkf(1, String::new(), vec![], ())); " + note("n.get()", "cfn"))
        else:
            add("construct-v", "let n = std::mem::ManuallyDrop::new(Self::W(4, 1)); " + note("n.get()", "con"))
            add("construct-map", "let n = Some(5u32).map(|x| std::mem::ManuallyDrop::new(Self::W(x, 1))); " + note("n.map(|x| x.get())", "com"))
    if c.gen in (3, 4):
        add("const-param", note("N + 1", "cp"))
        add("const-param-arr", "let ar = [0u8; N]; " + note("ar.len()", "cpa"))
    if c.gen == 6:
        add("hr-const", note("<T as Hr<'static>>::H", "hrc"))
        add("hr-bound", "fn hrf<T>(_: PhantomData<T>) -> u32 where for<'q> T: Hr<'q> { <T as Hr<'_>>::H } " + note("hrf(PhantomData::<T>)", "hrb"), "f")
    if c.gen == 9:
        add("assoc-param", "let ph: PhantomData<<T as Assoc>::Ty> = PhantomData; " + note("ph == PhantomData", "asp"))
    if c.gen in (1, 2, 4, 5, 6, 9, 10, 12):
        add("ty-param", "let ph: PhantomData<(T, Self)> = PhantomData; " + note("std::mem::size_of::<T>() > 1000", "tp"))
    return s


LAST = {
    "move-this": lambda c: "let this = self; " + note("this.get()", "last"),
    "project-last": lambda c: (f"let p = self.project(); " + note(f"*p.{c.A}", "last")) if c.kind != "enum" else "let _p = self.project();",
    "get-ref": lambda c: "let this = self.into_ref().get_ref(); " + note("this.get()", "last"),
    "fn-take": lambda c: "Self::take(self);",
    "mac-take": lambda c: "id!(Self::take(self));",
    "closure-move": lambda c: "let cl = move || self.get(); " + note("cl()", "last"),
    "async-move": lambda c: "let _f = async move { let _ = self; };",
    "return": lambda c: "return Self::take(self);",
    "rebind": lambda c: "let mut this = self; let this2 = this.as_mut(); " + note("this2.get()", "last"),
    "expr": lambda c: "Self::take(self)",
}
WRAPS = ["block", "if", "closure", "loop", "match", "macro", "unsafe", "label", "mac-if", "nested-block", "catch"]


def wrap(g, c, src, flags):
    if any(x in flags for x in "c"):
        ks = ["block", "if", "loop", "match", "unsafe", "nested-block"]
    else:
        ks = list(WRAPS)
    if "f" in flags:
        ks = [k for k in ks if not k.startswith("mac")]
    k = g.pick(ks)
    return {
        "block": f"{{ {src} }}", "if": f"if Self::ONE == 1 {{ {src} }} else {{ unreachable!() }}", "closure": f"{{ let {'mut ' if 'm' in flags else ''}w = || {{ {src} }}; w(); }}",
        "loop": f"for _i in 0..1 {{ {src} }}", "match": f"match Self::K {{ 0 => {{}} _ => {{ {src} }} }}", "macro": f"id! {{ {{ {src} }} }}", "unsafe": f"unsafe {{ unsafe_id(1); {src} }}",
        "label": f"'lbl: {{ {src} break 'lbl; }}", "mac-if": f"id!(if Self::ONE == 1 {{ {src} }});", "nested-block": f"{{ {{ {{ {src} }} }} }}",
        "catch": f"std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {{ {src} }})).unwrap();",
    }[k], k


def part(g, tier):
    global NOTE_FN
    c = make_type(g)
    tables = []
    for NOTE_FN in (False, True):
        tables.append(stmts(c))
    names = list(tables[0])
    body, kinds, used = [], set(), set()
    for _ in range(g.int(3, 9)):
        NOTE_FN = g.flip()
        table = tables[NOTE_FN]
        k = g.weighted([(table[n][0], n) for n in names])
        w, src, flags = table[k]
        local_items = any(x in src for x in ("struct ", "fn ", "macro_rules", "mod ", "enum ", "trait ", "const ", "use ", "type ", "static "))
        if k in used and local_items:
            src = "{ " + src + " }"
        elif local_items and k not in ("local-mac",):
            src = "{ " + src + " }" if g.chance(2, 3) or "In" in src or "impl" in src else src
        if k in used or g.chance(1, 3):
            src, wk = wrap(g, c, src, flags)
            kinds.add("in:" + wk)
        used.add(k)
        body.append(src)
        kinds.add("stmt:" + k)
    last = ""
    if g.chance(1, 2):
        k = g.pick(list(LAST))
        last = LAST[k](c)
        kinds.add("last:" + k)
    b = "\n            ".join(body + ([last] if last else []))
    getf = f"self.{c.A}" if c.kind != "enum" else "match self { Self::V { a, .. } => *a, Self::W(a, _) => *a, Self::Un => 0 }"
    recv = ("mut " if c.mutself else "") + "self: " + g.weighted([(4, "Pin<&mut Self>"), (1, "::std::pin::Pin<&mut Self>"), (1, "::core::pin::Pin<&mut Self>")])
    recv = g.weighted([(8, ""), (1, "#[allow(unused)] "), (1, "#[allow(unused_mut)] #[cfg(all())] "), (1, "#[cfg_attr(all(), allow(unused))] ")]) + recv + g.weighted([(8, ""), (1, ",")])
    env = f"""
        fn dv<T: std::fmt::Debug + ?Sized>(t: &str, v: &T) -> String {{ format!("{{}} {{:?}}", t, v) }}
        pub const K0: u32 = 40; pub fn helper(x: u32) -> u32 {{ x * 3 }} pub mod inner_m {{ pub fn f() -> u32 {{ 8 }} }}
        pub struct Other {{ pub v: u32 }} impl Other {{ pub fn me(self) -> Self {{ self }} }}
        pub fn sz<T>() -> usize {{ std::mem::size_of::<T>() }} pub unsafe fn unsafe_id(x: u32) -> u32 {{ x }}
        pub trait Tr2 {{ type Out; const Q: u32; fn tf(&self) -> u32; fn out() -> Self::Out; }} pub trait Tr3 {{ fn t3(&self) -> u32; }}
        pub trait Hr<'q> {{ const H: u32 = 17; fn hr(&'q self) -> u32 {{ 18 }} }} impl<'q> Hr<'q> for u8 {{}}
        macro_rules! id_ty {{ ($t:ty) => {{ $t }} }}
        macro_rules! id {{ ($($t:tt)*) => {{ $($t)* }} }}
        impl{c.decl} S{c.use}{c.where} {{ pub const K: u32 = 5; pub const ONE: u32 = 1; pub fn get(&self) -> u32 {{ {getf} }} pub fn opt(&self) -> Option<u32> {{ Some(self.get()) }} pub fn conv<Q>(&self) -> usize {{ std::mem::size_of::<PhantomData<Q>>() }} pub fn pget(self: Pin<&Self>) -> u32 {{ self.get() }}
            pub fn assoc(x: u32) -> u32 {{ x + Self::K }} fn take(self: Pin<&mut Self>) {{ note(format!("take {{}}", self.get())) }} }}
        impl{c.decl} Tr2 for S{c.use}{c.where} {{ type Out = u8; const Q: u32 = 6; fn tf(&self) -> u32 {{ self.get() + 1 }} fn out() -> u8 {{ 3 }} }}
        impl{c.decl} Tr3 for S{c.use}{c.where} {{ fn t3(&self) -> u32 {{ self.get() + 2 }} }}
"""
    kw = "enum" if c.kind == "enum" else "struct"
    names_arg = "project = PM, project_ref = PR" if c.kind == "enum" else ""
    attr = lambda pd: "#[pin_project" + ("(" + ", ".join(x for x in [names_arg, "PinnedDrop" if pd else ""] if x) + ")" if pd or names_arg else "") + "]"
    defn = f"pub {kw} S{c.ddecl}{c.body}"
    fa = g.pick(["", "#[allow(unused)] ", "#[inline] ", "/** doc */ ", "#[cold] #[inline(never)] ", "#[cfg(all())] ", "#[cfg_attr(all(), inline, allow(clippy::all))] ", "#[doc = \"d\"] #[doc(hidden)] "])
    ret = g.weighted([(8, ""), (1, " -> ()")])
    ia = g.weighted([(6, ("", "")), (1, ("#[allow(unused)] ", "")), (1, ("", "#[allow(unused)] ")), (1, ("/** doc */ ", "#[cfg(all())] "))])
    pd = f"{ia[0]}#[pinned_drop] {ia[1]}impl{c.decl} PinnedDrop for {c.target.replace('@MOD@', 'a')}{c.where} {{ {fa}fn drop({recv}){ret} {{\n            {b}\n        }} }}"
    om = f"{ia[0]}{ia[1]}impl{c.decl} {c.target.replace('@MOD@', 'b')}{c.where} {{ {fa}fn m({recv}){ret} {{\n            {b}\n        }} }}"
    uses = "use vsut::*; use pin_project::{pin_project, pinned_drop}; use std::pin::Pin; use std::marker::PhantomData;"
    root = "    pub use crate::root;\n    pub fn outer() -> u32 { 21 }\n"
    A = f"    mod a {{ {uses}\n        {attr(True)} {defn}\n{env}        {pd}\n        pub fn go() {{ let x: Pin<Box<S{c.conc}>> = Box::pin({c.mk}); drop(x); }}\n    }}\n"
    B = f"    mod b {{ {uses}\n        {attr(False)} {defn}\n{env}        {om}\n        pub fn go() {{ let mut x: Pin<Box<S{c.conc}>> = Box::pin({c.mk}); x.as_mut().m(); }}\n    }}\n"
    run = "    pub fn run() { a::go(); let l = vsut::take_notes(); b::go(); let r = vsut::take_notes(); assert!(!r.is_empty() || l.is_empty()); assert_eq!(l, r, \"trace as pinned drop and as method\"); }\n"
    return {"src": root + A + B + run, "plain": root + B + "    pub fn run() {}\n", "classes": kinds | {"type:" + c.kind, f"generics:{c.gen}"}, "nontrivial": len([k for k in kinds if k.startswith("stmt")]) >= 3}


def gen(g, tier):
    parts = [part(g, tier)] + [part(g, tier) for _ in range(K - 1) if g.chance(7, 8)]
    return batch_case(parts, "bodies", "pinned drop bodies with their method twins", header="pub fn root() -> u32 { 100 }\n")
