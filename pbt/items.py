"""Model and generator of struct/enum definitions, shared by all properties.

Every definition is generated together with one concrete instantiation of its parameters, so that values can be made
(trait Mk), fingerprinted (trait Fp) and their owned drop trackers listed, all from the prelude crate `vsut`."""
import copy
from dataclasses import dataclass, field as dfield
from typing import Optional

INST = ["u8", "Tr", "TrP", "String", "u32", "()", "bool", "PhantomPinned", "Al16", "Option<Tr>", "Option<TrP>", "(Tr, TrP)", "Vec<Tr>", "Box<TrP>"]
PLAIN = ["u8", "u16", "u32", "u64", "i32", "bool", "String", "()", "char"]
PRIMS = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "bool", "char", "String", "()", "f64", "Al16", "Al64", "std::num::NonZeroU8", "&'static str"]
FIELD_NAMES = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p"]
ODD_NAMES = ["r#type", "r#fn", "this", "value", "guard", "result", "ptr", "pin", "pinned", "project", "project_ref", "project_replace", "self_", "_x", "_0", "_1",
             "replacement", "target", "lifetime", "field0", "field1", "r#match", "é", "S", "T", "x10", "drop", "new", "r#struct", "r#mut", "inner", "fut", "stream", "state", "r#ref", "Self_", "N", "r#raw"]
VARIANTS = ["A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L"]
ODD_VARIANTS = ["None", "Some", "Pin", "Ok", "Err", "r#Box", "lower", "Drop", "Unpin", "Project", "Self_", "PhantomData", "Ö"]
LIFETIMES = ["'a", "'b", "'pin", "'pin_", "'pin__", "'c", "'p", "'pinned", "'_pin", "'this", "'s", "'pi", "'r#static_", "'r#pin", "'r#pin_", "'r#b"]
TPARAMS = ["T", "U", "V", "W", "Item", "F", "Fut", "R", "r#Raw"]
CPARAMS = ["N", "M", "CAP"]


@dataclass
class Ty:
    src: str            # as written in the definition
    conc: str           # concrete instantiation
    need: frozenset = frozenset()   # type parameters P such that `src: Unpin` can only hold if P: Unpin
    uses: frozenset = frozenset()   # parameters mentioned
    kind: str = "leaf"
    sized: bool = True


@dataclass
class Param:
    kind: str           # lt | ty | const
    name: str
    conc: str
    bounds: str = ""
    default: str = ""
    sized: bool = True


@dataclass
class Field:
    name: Optional[str]
    ty: Ty
    pin: bool = False
    vis: str = ""
    pre: list = dfield(default_factory=list)
    post: list = dfield(default_factory=list)

    def render(self, pinned=True, vis=True, pin_attr="#[pin]"):
        a = list(self.pre) + ([pin_attr] if self.pin and pinned else []) + list(self.post)
        s = "".join(x + ("\n" if x.startswith("//") else " ") for x in a)
        if vis and self.vis:
            s += self.vis + " "
        if self.name is not None:
            s += self.name + ": "
        return s + self.ty.src


@dataclass
class Variant:
    name: Optional[str]      # None for a struct
    shape: str               # named | tuple | unit
    fields: list
    attrs: list = dfield(default_factory=list)


@dataclass
class Item:
    kind: str
    name: str
    params: list
    where: list
    variants: list
    vis: str = ""
    args: dict = dfield(default_factory=dict)
    arg_order: list = dfield(default_factory=list)
    pre: list = dfield(default_factory=list)     # attributes above #[pin_project]
    post: list = dfield(default_factory=list)    # attributes below
    trailing_comma: bool = False
    tail: Optional[tuple] = None                 # (sized conc, unsized conc) of the last field's parameter
    fixed: bool = False                          # the last field is unsized whatever the parameters
    classes: set = dfield(default_factory=set)
    anon: bool = False                           # the pinned drop impl leaves lifetimes anonymous ('_)
    methods: tuple = ()                          # inherent methods of the type (name, receiver)
    frags: tuple = ()                            # parts that come through macro_rules fragments

    # ---- rendering
    def generics_decl(self, defaults=True):
        if not self.params:
            return ""
        out = []
        for p in self.params:
            if p.kind == "const":
                s = f"const {p.name}: {p.bounds}"
                if defaults and p.default:
                    s += " = " + p.default
            else:
                s = p.name + (": " + p.bounds if p.bounds else "")
                if defaults and p.default:
                    s += " = " + p.default
            out.append(s)
        return "<" + ", ".join(out) + ">"

    def generics_use(self):
        return "<" + ", ".join(p.name for p in self.params) + ">" if self.params else ""

    def where_str(self, extra=()):
        w = list(self.where) + list(extra)
        return (" where " + ", ".join(w)) if w else ""

    def conc(self, unsized=True, name=None):
        if not self.params:
            return name or self.name
        a = []
        for p in self.params:
            c = p.conc
            if self.tail and p.kind == "ty" and not p.sized:
                c = self.tail[1] if unsized else self.tail[0]
            a.append(c)
        return (name or self.name) + "<" + ", ".join(a) + ">"

    def conc_args(self, unsized=True):
        c = self.conc(unsized)
        return c[len(self.name):].strip("<>") if False else (c[len(self.name) + 1:-1] if self.params else "")

    def args_list(self):
        m = {}
        a = self.args
        for k in ("project", "project_ref"):
            if a.get(k):
                m[k] = f"{k} = {a[k]}"
        if a.get("project_replace"):
            m["project_replace"] = "project_replace" if a["project_replace"] is True else f"project_replace = {a['project_replace']}"
        if a.get("pinned_drop"):
            m["pinned_drop"] = "PinnedDrop"
        if a.get("unpin"):
            m["unpin"] = a["unpin"]
        order = [k for k in self.arg_order if k in m] + [k for k in m if k not in self.arg_order]
        return [m[k] for k in order]

    def attr(self, path="pin_project"):
        l = self.args_list()
        if not l:
            return f"#[{path}]"
        return f"#[{path}({', '.join(l)}{',' if self.trailing_comma else ''})]"

    def body(self, pinned=True, pin_attr="#[pin]"):
        if self.kind == "struct":
            v = self.variants[0]
            if v.shape == "unit":
                return self.where_str() + ";"
            fs = [f.render(pinned, pin_attr=pin_attr) for f in v.fields]
            if v.shape == "named":
                return self.where_str() + " {\n" + "".join(f"        {f},\n" for f in fs) + "    }"
            return "(\n" + "".join(f"        {f},\n" for f in fs) + "    )" + self.where_str() + ";"
        out = []
        for v in self.variants:
            a = "".join(x + " " for x in v.attrs)
            fs = [f.render(pinned, vis=False, pin_attr=pin_attr) for f in v.fields]
            if v.shape == "unit":
                out.append(f"        {a}{v.name},\n")
            elif v.shape == "named":
                out.append(f"        {a}{v.name} {{ " + ", ".join(fs) + " },\n")
            else:
                out.append(f"        {a}{v.name}(" + ", ".join(fs) + "),\n")
        return self.where_str() + " {\n" + "".join(out) + "    }"

    def method_impl(self):
        """An inherent impl whose methods are called like those generated code uses; none of them may ever run."""
        if not self.methods:
            return ""
        ms = " ".join(f"#[allow(dead_code, unused)] pub fn {n}({r}) {{ ::core::panic!(\"a method of the user was called\") }}" for n, r in self.methods)
        return f"    impl{self.generics_decl(defaults=False)} {self.name}{self.generics_use()}{self.where_str()} {{ {ms} }}\n"

    def render(self, macro=True, path="pin_project", name=None, pin_attr="#[pin]", attrs=True):
        if self.methods and not name:
            it = copy.copy(self)
            it.methods = ()
            return it.render(macro, path, name, pin_attr, attrs) + self.method_impl()
        if self.frags and macro and not name:
            return self.fragments(path, pin_attr, attrs)
        s = ""
        if attrs:
            s += "".join("    " + x + "\n" for x in self.pre)
        if macro:
            s += "    " + self.attr(path) + "\n"
        if attrs:
            s += "".join("    " + x + "\n" for x in self.post)
        vis = self.vis + " " if self.vis else ""
        return s + f"    {vis}{self.kind} {name or self.name}{self.generics_decl()}{self.body(macro, pin_attr)}\n"

    def fragments(self, path, pin_attr, attrs):
        """The definition written by macro_rules, some of its parts given as fragments (invisible groups, foreign spans)."""
        it = copy.deepcopy(self)
        it.frags = ()
        marks = []

        def mark(spec, val):
            marks.append((f"\x01{len(marks)}\x02", spec, val))
            return marks[-1][0]
        if "ident" in self.frags:
            it.name = mark("ident", it.name)
        if "vis" in self.frags:
            it.vis = mark("vis", it.vis)
        for i, f in enumerate(it.all_fields()):
            if "ty" in self.frags and (i + self.frags[-1]) % 3 != 2:
                f.ty = copy.copy(f.ty)
                f.ty.src = mark("ty", f.ty.src)
            if "ident" in self.frags and f.name:
                f.name = mark("ident", f.name)
            if "meta" in self.frags and f.pin and pin_attr == "#[pin]":
                f.pin = False
                f.post = ["#[" + mark("meta", "pin") + "]"] + f.post
        t = it.render(True, path, None, pin_attr, attrs)
        for n, (k, spec, val) in enumerate(marks):
            t = t.replace(k, f"$f{n}")
        pats = "".join(f"$f{n}:{spec}, " for n, (k, spec, val) in enumerate(marks))
        return f"    macro_rules! frag_def {{ ({pats}) => {{\n{t}    }} }}\n    frag_def! {{ {''.join(v + ', ' for _, _, v in marks)}}}\n"

    def wrap_drop(self, text):
        return text

    # ---- patterns / constructors
    def vpath(self, vi, ty=None):
        v = self.variants[vi]
        return (ty or self.name) + ("::" + v.name if v.name else "")

    def pat(self, vi, ty=None, pre="f", mode=""):
        v = self.variants[vi]
        p = self.vpath(vi, ty)
        if v.shape == "unit":
            return p
        if v.shape == "named":
            return p + " { " + ", ".join(f"{f.name}: {mode}{pre}{i}" for i, f in enumerate(v.fields)) + " }"
        return p + "(" + ", ".join(f"{mode}{pre}{i}" for i in range(len(v.fields))) + ")"

    def access(self, fi):
        v = self.variants[0]
        return v.fields[fi].name if v.shape == "named" else str(fi)

    def exists(self, m):
        """Is projection method m generated for this definition?"""
        if self.kind == "struct":
            return True if m != "project_replace" else bool(self.args.get(m))
        return bool(self.args.get(m))

    def all_fields(self):
        return [f for v in self.variants for f in v.fields]

    def fty(self, f):
        """Concrete type of a field (unsized instantiation if the definition has an unsized tail)."""
        return f.ty.conc


# ---------------------------------------------------------------------------------------------- generation
class Env:
    def __init__(self, params, name, opts):
        self.params, self.name, self.opts = params, name, opts
        self.tys = [p for p in params if p.kind == "ty" and p.sized]
        self.lts = [p for p in params if p.kind == "lt"]
        self.consts = [p for p in params if p.kind == "const" and p.bounds == "usize"]


def leaf(g, env):
    o = env.opts
    w = [(6, "tr")]
    if env.tys:
        w.append((9, "param"))
    w.append((4, "prim"))
    w.append((2, "trp"))
    w.append((1, "pp"))
    if o.get("trackers"):
        w = [(5, "tr"), (3, "trp"), (1, "prim")] + ([(6, "param")] if env.tys else [])
    if o.get("selfref"):
        w.append((5, "sr"))
    k = g.weighted(w)
    if k == "sr":
        return Ty("SelfRef", "SelfRef", kind="selfref-ptr")
    if k == "param":
        p = g.pick(env.tys)
        return Ty(p.name, p.conc, frozenset([p.name]), frozenset([p.name]), "param")
    if k in ("tr", "trp") and g.chance(1, 5):
        x = "vsut::" + (g.pick(["ZTr", "ZTr", "ZTrA", "BTr", "STr1", "STr4", "STr8"]) if k == "tr" else g.pick(["ZTrP", "ZTrP", "STrP1", "STrP4", "STrP8", "BTrP"]))
        return Ty(x, x, kind="tracker")
    if k == "tr":
        return Ty("Tr" if g.chance(5, 6) else g.pick(["vsut::ma::Node", "::vsut::ma::Node"]), "Tr", kind="tracker")
    if k == "trp":      # different types whose paths end in the same name
        return Ty("TrP" if g.chance(2, 3) else g.pick(["vsut::mb::Node", "::vsut::mb::Node"]), "TrP", kind="tracker")
    if k == "pp":
        return Ty("PhantomPinned", "PhantomPinned", kind="phantompinned")
    x = g.pick(PRIMS)
    return Ty(x, x, kind="prim")


def wrap(t, fs, fc=None, need=None, kind="wrap", uses=frozenset()):
    return Ty(fs.format(t.src), (fc or fs).format(t.conc), t.need if need is None else need, t.uses | uses, kind)


def gen_ty(g, env, depth=2):
    if depth == 0 or g.chance(9, 20):
        return leaf(g, env)
    o = env.opts
    w = [(4, "option"), (3, "tuple"), (3, "array"), (2, "box"), (2, "vec"), (2, "phantom"), (2, "paren"), (2, "alias"), (1, "refcell"), (1, "result"),
         (1, "pinbox"), (1, "macro"), (1, "idassoc"), (1, "fn"), (1, "fnr"), (1, "dynbox"), (1, "path"), (1, "fnphantom")]
    if env.lts:
        w += [(3, "ref"), (2, "refmut"), (2, "refphantom")]
    if env.tys:
        w += [(3, "assoc")]
    if env.consts:
        w += [(4, "carray")]
    if o.get("self_ty", True):
        w += [(2, "selflink")]
    if o.get("trackers"):
        w = [(3, "option"), (3, "tuple"), (3, "array"), (2, "box"), (2, "vec"), (1, "paren"), (1, "alias"), (1, "phantom"), (1, "result")] + ([(3, "assoc")] if env.tys else []) + ([(3, "carray")] if env.consts else [])
    k = g.weighted(w)
    sub = lambda: gen_ty(g, env, depth - 1)
    if k == "option":
        return wrap(sub(), "Option<{}>")
    if k == "tuple":
        n = g.int(1, 3)
        ts = [sub() for _ in range(n)]
        j = lambda l: "(" + "".join(x + ", " for x in l) + ")"
        return Ty(j([t.src for t in ts]), j([t.conc for t in ts]), frozenset().union(*[t.need for t in ts]), frozenset().union(*[t.uses for t in ts]), "tuple")
    if k == "array":
        return wrap(sub(), "[{}; " + str(g.pick([2, 1, 3, 0])) + "]")
    if k == "carray":
        c = g.pick(env.consts)
        return wrap(sub(), "[{}; " + c.name + "]", "[{}; " + c.conc + "]", uses=frozenset([c.name]), kind="carray")
    if k == "box":
        return wrap(sub(), "Box<{}>", need=frozenset(), kind="box")
    if k == "pinbox":
        return wrap(sub(), "Pin<Box<{}>>", need=frozenset(), kind="box")
    if k == "vec":
        return wrap(sub(), "Vec<{}>")
    if k == "phantom":
        return wrap(sub(), "PhantomData<{}>", kind="phantom")
    if k == "fnphantom":
        return wrap(sub(), "PhantomData<fn({}) -> u8>", need=frozenset(), kind="phantom")
    if k == "paren":
        return wrap(sub(), "({})", kind="paren")
    if k == "alias":
        return wrap(sub(), g.pick(["Alias<{}>", "vsut::Alias<{}>", "::vsut::Alias<{}>"]))
    if k == "path":
        x = g.pick(["std::option::Option<{}>", "::core::option::Option<{}>", "::std::boxed::Box<{}>"])
        return wrap(sub(), x, need=frozenset() if "Box" in x else None, kind="path")
    if k == "refcell":
        return wrap(sub(), "std::cell::RefCell<{}>")
    if k == "result":
        a, b = sub(), sub()
        return Ty(f"Result<{a.src}, {b.src}>", f"Result<{a.conc}, {b.conc}>", a.need | b.need, a.uses | b.uses, "wrap")
    if k == "macro":
        t = sub()
        if "for<'pin" in t.src.replace("'r#", "'"):      # known finding of C17: lifetimes introduced inside macro arguments
            return t
        return wrap(t, "vsut::ty_of!({})", "{}", kind="macro")
    if k == "idassoc":
        return wrap(sub(), "<{} as Id>::Is", "{}", kind="idassoc")
    if k == "fn":
        return Ty("fn(u32) -> u32", "fn(u32) -> u32", kind="fnptr")
    if k == "fnr":
        lt = g.pick(["'x", "'pin", "'pin_", "'r", "'r#pin"])
        if lt.replace("r#", "") in [p.name.replace("r#", "") for p in env.params]:
            lt = "'x"
        return Ty(f"for<{lt}> fn(&{lt} u8) -> &{lt} u8", "for<'x> fn(&'x u8) -> &'x u8", kind="hrtb")
    if k == "dynbox":
        x = g.pick(["Box<dyn Fp>", "Box<dyn Fp + Send>", "Box<dyn Fp + Send + Sync>"])
        return Ty(x, x, kind="dynbox")
    if k == "ref":
        l = g.pick(env.lts)
        x = g.pick(PLAIN + ["str"])
        return Ty(f"&{l.name} {x}", f"&'static {x}", uses=frozenset([l.name]), kind="ref")
    if k == "refmut":
        l = g.pick(env.lts)
        x = g.pick(["u8", "u32", "String", "u16"])
        return Ty(f"&{l.name} mut {x}", f"&'static mut {x}", uses=frozenset([l.name]), kind="ref")
    if k == "refphantom":
        l = g.pick(env.lts)
        t = sub()
        return Ty(f"PhantomData<&{l.name} {t.src}>", f"PhantomData<&'static {t.conc}>", frozenset(), t.uses | {l.name}, "phantom")
    if k == "assoc":
        p = g.pick([p for p in env.tys])
        a = g.pick(["Ty", "Other"])
        env.need_assoc = getattr(env, "need_assoc", set()) | {p.name}
        return Ty(f"<{p.name} as Assoc>::{a}", f"<{p.conc} as Assoc>::{a}", frozenset(), frozenset([p.name]), "assoc")
    if k == "selflink":
        x = g.pick(["Link<Self>", "Link<NAME>", "PhantomData<fn(Self)>", "Link<(Self, u8)>", "Option<Link<Box<Self>>>"])
        own = env.name + ("<" + ", ".join(p.name for p in env.params) + ">" if env.params else "")
        src = x.replace("NAME", own)
        return Ty(src, x.replace("NAME", "C").replace("Self", "C"), frozenset(), frozenset(), "selfref")
    raise AssertionError(k)


def gen_params(g, opts):
    ps = []
    if not opts.get("generics", True):
        return ps
    nl = g.weighted([(6, 0), (3, 1), (1, 2), (1, 3)]) if opts.get("lifetimes", True) else 0
    names = list(LIFETIMES)
    for _ in range(nl):
        n = g.pick(names)
        names = [x for x in names if x.replace("r#", "") != n.replace("r#", "")]
        ps.append(Param("lt", n, "'static", bounds=(g.pick([p.name for p in ps] + ["'static"]) if g.chance(1, 5) and ps else "")))
    nt = g.weighted([(4, 0), (6, 1), (3, 2), (1, 3), (1, 4)])
    nc = g.weighted([(7, 0), (2, 1), (1, 2)]) if opts.get("consts", True) else 0
    rest = []
    tn = list(TPARAMS)
    for _ in range(nt):
        n = tn.pop(0) if g.chance(3, 4) else tn.pop(g.int(0, len(tn) - 1))
        inst = g.pick(INST if not opts.get("trackers") else ["Tr", "TrP", "Option<Tr>", "(Tr, TrP)", "u8", "Vec<Tr>", "vsut::ZTr", "vsut::ZTrP"])
        b = g.weighted([(8, ""), (2, "Any1"), (1, "'static"), (1, "Sized"), (1, "Any1 + 'static"), (1, "Any2<u8>"), (1, "Conv<u8, Out = u8>")])
        rest.append(Param("ty", n, inst, bounds=b))
    cn = list(CPARAMS)
    for _ in range(nc):
        k = g.weighted([(5, "usize"), (1, "bool"), (1, "char"), (1, "u8")])
        rest.append(Param("const", cn.pop(0), {"usize": g.pick(["2", "1", "3"]), "bool": g.pick(["true", "false"]), "char": "'x'", "u8": "7"}[k], bounds=k))
    if len(rest) > 1 and g.chance(1, 2):
        rest = g.perm(rest)
    # Defaults are only allowed on a trailing run of parameters.
    if rest and g.chance(1, 4):
        for p in rest[g.int(0, len(rest) - 1):]:
            if p.kind == "ty":
                p.default = g.pick([p.conc, "u8"]) if not any(x in p.bounds for x in ()) else p.conc
            else:
                p.default = p.conc if p.bounds != "bool" else "{ true }"
    return ps + rest


def gen_where(g, env, opts):
    out = []
    if not opts.get("where", True) or not g.chance(1, 3):
        return out
    for _ in range(g.int(1, 2)):
        c = ["Self: Sized"] if not opts.get("tail_used") else ["u8: Any1"]
        c.append("u8: Any1")
        for p in env.tys:
            c += [f"{p.name}: Any1", f"Option<{p.name}>: Any1", f"for<'x> &'x {p.name}: Any1", f"for<'x> {p.name}: Any2<&'x u8>", f"{p.name}: Any2<Self>", f"[{p.name}; 2]: Sized", f"{p.name}: Conv<u8>,", f"Box<dyn Any2<{p.name}>>: Sized"]
        for p in env.lts:
            c += [f"{p.name}: {p.name}"]
            for t in env.tys:
                c += [f"{t.name}: {p.name}"]
        if opts.get("no_self_where"):
            c = [x for x in c if "Self" not in x]
        out.append(g.pick(c).rstrip(","))
    if any("Self" in w for w in out) and env.lts:
        # `Self` in a where clause needs its implied outlives bounds spelled out (known finding of C17).
        out += [f"{t.name}: {p.name}" for t in env.tys for p in env.lts]
        out += [f"{a.name}: {b.name}" for a in env.lts for b in env.lts if a is not b]
    return list(dict.fromkeys(out))


FIELD_ATTRS = ["/// doc", "#[allow(dead_code)]", "#[cfg(all())]", "#[cfg_attr(all(), allow(unused))]", "#[cfg_attr(any(), nonexistent_attr)]", "#[doc = \"x\"]", "#[cfg(not(any()))]", "/** block */",
               "#[rustfmt::skip]", "#[doc(hidden)]", "#[deprecated]", "#[allow(clippy::pin)]", "#[cfg_attr(all(), doc = \"pin\")]"]
FVIS = ["", "", "", "pub", "pub(crate)", "pub(super)", "pub(self)", "pub(in crate)"]


def gen_fields(g, env, shape, opts, nmin=1):
    if shape == "unit":
        return []
    n = g.weighted([(3, 1), (5, 2), (4, 3), (3, 4), (2, 5), (1, 7)] + ([(1, g.int(9, 14))] if opts.get("many", True) else []))
    n = max(n, nmin)
    if nmin == 0 and g.chance(1, 12):
        n = 0
    names = list(FIELD_NAMES)
    odd = list(ODD_NAMES)
    out = []
    same = g.chance(1, 5)
    base = None
    prefix = None
    for i in range(n):
        if shape == "named":
            if g.chance(1, 5) and odd:
                nm = odd.pop(g.int(0, len(odd) - 1))
            else:
                nm = names.pop(0)
            if nm in [p.name for p in env.params]:
                nm = names.pop(0)
        else:
            nm = None
        if same and base is not None and g.chance(4, 5):
            t = base
        else:
            t = gen_ty(g, env, 2)
        base = base or t
        f = Field(nm, t, pin=g.flip())
        if opts.get("field_attrs", True):
            if g.chance(1, 6):
                f.pre = [g.pick(FIELD_ATTRS) for _ in range(g.int(1, 2))]
            if g.chance(1, 6):
                f.post = [g.pick(FIELD_ATTRS) for _ in range(g.int(1, 2))]
            f.pre = list(dict.fromkeys(f.pre))
            f.post = [a for a in dict.fromkeys(f.post) if a not in f.pre]
        if opts.get("field_vis", True) and g.chance(1, 3):
            f.vis = g.pick(FVIS)
        out.append(f)
    return out


ITEM_ATTRS = ["/// doc", "#[allow(dead_code)]", "#[must_use]", "#[repr(C)]", "#[cfg(all())]", "#[cfg_attr(all(), allow(unused))]", "#[doc(hidden)]", "#[non_exhaustive]", "#[allow(clippy::all)]", "#[repr(align(32))]", "#[deprecated]"]
NAMES = ["S", "Foo", "Item_", "r#type", "lower", "É", "Struct", "MyFuture", "X1"]
PNAMES = ["P", "Proj", "FooProj", "r#dyn", "StructProj", "Projection", "proj"]
RNAMES = ["R", "ProjRef", "FooProjRef", "r#in", "Ref", "pref"]
ONAMES = ["O", "ProjOwn", "FooProjOwn", "r#move", "Own", "Replaced"]


def fix_unused(item, g, opts):
    """Every lifetime and type parameter must be mentioned by a field."""
    used = frozenset().union(*[f.ty.uses for f in item.all_fields()]) if item.all_fields() else frozenset()
    miss = [p for p in item.params if p.kind != "const" and p.name not in used and not (p.kind == "ty" and not p.sized)]
    if not miss:
        return
    assoc_only = False
    src = "PhantomData<(" + "".join((f"&{p.name} ()" if p.kind == "lt" else p.name) + ", " for p in miss) + ")>"
    conc = "PhantomData<(" + "".join((f"&{p.conc} ()" if p.kind == "lt" else p.conc) + ", " for p in miss) + ")>"
    need = frozenset(p.name for p in miss if p.kind == "ty")
    t = Ty(src, conc, need, frozenset(p.name for p in miss), "phantom")
    cands = [v for v in item.variants if v.shape != "unit"]
    v = g.pick(cands)
    f = Field("marker_" if v.shape == "named" else None, t, pin=g.chance(1, 3))
    v.fields.insert(g.int(0, len(v.fields)) if item.tail is None and not item.fixed else 0, f)


def gen_args(g, item, opts):
    a = {}
    want = opts.get("args", {})
    named = opts.get("named", None)

    def nm(pool):
        n = g.pick(pool)
        bad = {item.name, *[p.name for p in item.params], *[x for x in a.values() if isinstance(x, str)], "C"}
        return n if n not in bad else pool[1] + "X"
    if named or (named is None and (item.kind == "enum" and g.chance(9, 10) or item.kind == "struct" and g.chance(1, 2))):
        a["project"] = nm(PNAMES)
    if named or (named is None and (item.kind == "enum" and g.chance(9, 10) or item.kind == "struct" and g.chance(1, 2))):
        a["project_ref"] = nm(RNAMES)
    pr = opts.get("replace", False)
    if pr == "maybe":
        pr = g.chance(1, 3)
    if pr and item.tail is None and not item.fixed:
        a["project_replace"] = nm(ONAMES) if (item.kind == "enum" or named or g.flip()) else True
    up = opts.get("unpin")
    if up == "maybe":
        up = g.weighted([(6, None), (1, "UnsafeUnpin"), (1, "!Unpin")])
    if up:
        a["unpin"] = up
    pd = opts.get("pinned_drop")
    if pd == "maybe":
        pd = g.chance(1, 6)
    if pd and not a.get("project_replace"):
        a["pinned_drop"] = True
    item.args = a
    item.arg_order = g.perm(["project", "project_ref", "project_replace", "pinned_drop", "unpin"]) if g.chance(1, 3) else []
    item.trailing_comma = bool(item.args_list()) and g.chance(1, 5)


def gen_item(g, **opts):
    kind = opts.get("kind") or g.weighted([(3, "struct"), (2, "enum")])
    name = opts.get("name") or (g.pick(NAMES) if g.chance(1, 4) else "S")
    params = gen_params(g, opts)
    tail = None
    if kind == "struct" and opts.get("tail") and g.chance(opts["tail"], 100):
        tail = g.pick([("[Tr; 2]", "[Tr]"), ("Tr", "(dyn Fp + 'static)"), ("[TrP; 2]", "[TrP]"), ("TrP", "(dyn Fp + 'static)"), ("u32", "(dyn Fp + 'static)")])
        tp = Param("ty", "X", tail[0], bounds=g.pick(["?Sized", "?Sized + Any1", "Any1 + ?Sized"]), sized=False)
        for p in params:
            p.default = ""
        params.append(tp)
        opts["tail_used"] = True
        opts["self_ty"] = False
    fixed = kind == "struct" and tail is None and bool(opts.get("fixed_tail")) and g.chance(opts["fixed_tail"], 100)
    if fixed:
        opts["tail_used"] = True
        opts["self_ty"] = False
    env = Env(params, name, opts)
    env.need_assoc = set()
    item = Item(kind, name, params, [], [], tail=tail, fixed=fixed)
    if kind == "struct":
        shape = g.pick(["named", "tuple"])
        fs = gen_fields(g, env, shape, opts)
        item.variants = [Variant(None, shape, fs)]
        if tail:
            conc = tail[1]
            w = g.pick(["X", "(X)", "Alias<X>"]) if False else "X"
            fs.append(Field("tail" if shape == "named" else None, Ty(w, conc, frozenset(["X"]), frozenset(["X"]), "tail", sized=False), pin=g.flip()))
        if fixed:
            ts = [Ty(x, x, kind="unsized", sized=False) for x in ("[u8]", "str", "[TrP]", "[Tr]", "dyn Fp", "(dyn Fp + Unpin)", "[PhantomPinned]", "dyn Fp + Send", "std::path::Path", "vsut::Alias<[u8]>")]
            ts += [Ty(f"[{p.name}]", f"[{p.conc}]", frozenset([p.name]), frozenset([p.name]), "unsized", sized=False) for p in env.tys]
            fs.append(Field("tail" if shape == "named" else None, g.pick(ts), pin=g.flip()))
    else:
        nv = g.weighted([(2, 1), (5, 2), (4, 3), (2, 4), (1, g.int(5, 10))])
        vn, ov = list(VARIANTS), list(ODD_VARIANTS)
        for i in range(nv):
            n = ov.pop(g.int(0, len(ov) - 1)) if g.chance(1, 8) and ov else vn.pop(0)
            shape = g.weighted([(4, "named"), (4, "tuple"), (2, "unit")])
            fs = gen_fields(g, env, shape, opts, nmin=0)
            v = Variant(n, shape, fs)
            if g.chance(1, 10):
                v.attrs = [g.pick(["/** doc */", "#[allow(dead_code)]", "#[cfg(all())]", "#[doc(hidden)]"])]
            item.variants.append(v)
        if not any(v.fields for v in item.variants):
            v = item.variants[g.int(0, nv - 1)]
            if v.shape == "unit":
                v.shape = g.pick(["named", "tuple"])
            v.fields = gen_fields(g, env, v.shape, opts, nmin=1)
    fix_unused(item, g, opts)
    # `<T as Assoc>` needs the bound, either inline or in the where clause.
    for p in params:
        if p.kind == "ty" and p.name in env.need_assoc:
            if g.flip():
                p.bounds = ("Assoc + " + p.bounds) if p.bounds else "Assoc"
            else:
                item.where.append(f"{p.name}: Assoc")
            if p.default and p.default not in INST:
                p.default = "u8"
    item.where += gen_where(g, env, opts)
    item.where = list(dict.fromkeys(item.where))
    gen_args(g, item, opts)
    if opts.get("item_attrs", True) and g.chance(1, 4):
        pool = [a for a in ITEM_ATTRS if kind == "struct" or a not in ("#[repr(align(32))]",)]
        if kind == "enum":
            pool = [a for a in pool]
        for _ in range(g.int(1, 2)):
            a = g.pick(pool)
            if a in item.pre + item.post:
                continue
            (item.pre if g.flip() else item.post).append(a)
    if opts.get("vis", True) and g.chance(1, 2):
        item.vis = g.pick(["", "pub", "pub(crate)", "pub(super)", "pub(self)", "pub(in crate)"])
    classify(item)
    if item.args.get("pinned_drop") and any(p.kind == "lt" for p in item.params):
        item.anon = g.chance(1, 4)
        item.classes.add("drop-impl:anonymous" if item.anon else "drop-impl:named")
    if opts.get("frags") and not POST and g.chance(opts["frags"], 100):
        item.frags = g.pick([("ty",), ("ident",), ("meta",), ("ty", "ident"), ("ty", "ident", "vis", "meta"), ("none",)]) + (g.int(0, 2),)
        item.classes.add("fragments:" + "+".join(item.frags[:-1]))
    if opts.get("methods") and not POST and g.chance(opts["methods"], 100):
        item.methods = own_methods(g)
        item.classes.add("own-methods")
    return POST(g, item) if POST else item


def own_methods(g):
    P, R, M, N = "self: ::core::pin::Pin<&mut Self>", "self: ::core::pin::Pin<&Self>", "&mut self", ""
    pool = [("get_unchecked_mut", P), ("get_ref", R), ("drop", P), ("drop", M), ("new_unchecked", N), ("get_mut", P), ("into_ref", P), ("get_ref", "&self"), ("new", N), ("read", "&self"), ("write", M), ("drop_in_place", M), ("__drop_inner", P), ("get_unchecked_mut", M),
            ("deref", "&self"), ("into_inner_unchecked", P), ("map_unchecked_mut", P), ("as_ptr", "&self")]
    k = g.int(0, len(pool) - 1)
    return tuple({n: (n, r) for n, r in [pool[k]] + g.subset(pool)}.values())


POST = None      # C18 and C19 present the generated definition in another form


def classify(item):
    c = item.classes
    c.add(item.kind)
    pins = [f.pin for f in item.all_fields()]
    c.add("pins:" + ("all" if all(pins) else "none" if not any(pins) else "mixed"))
    n = max([len(v.fields) for v in item.variants])
    c.add("fields:" + ("1" if n <= 1 else "2-4" if n <= 4 else "5-8" if n <= 8 else "9+"))
    if item.kind == "enum":
        c.add("variants:" + ("1" if len(item.variants) == 1 else "2-4" if len(item.variants) <= 4 else "5+"))
    for p in item.params:
        c.add("param:" + p.kind)
        if p.default:
            c.add("param:default")
        if p.kind == "lt" and p.name.startswith("'pin"):
            c.add("param:lt-named-pin")
    if item.where:
        c.add("where")
    if item.tail:
        c.add("unsized-tail")
    if item.fixed:
        c.add("always-unsized")
    for v in item.variants:
        c.add("shape:" + v.shape + ("-empty" if v.shape != "unit" and not v.fields else ""))
    for f in item.all_fields():
        c.add("ty:" + f.ty.kind)
        if f.name and f.name.startswith("r#"):
            c.add("raw-ident")
        if f.pre or f.post:
            c.add("field-attrs")
    for k, v in item.args.items():
        if v:
            c.add("arg:" + (k if k != "unpin" else v))
    if item.pre or item.post:
        c.add("item-attrs")


import re


ALLOW = "#![allow(unused, non_camel_case_types, non_snake_case, non_upper_case_globals, uncommon_codepoints, mixed_script_confusables, private_interfaces, deprecated)]\n"


def crate(body, inner=""):
    """A whole program: the body in a module of its own (so that `super` exists)."""
    return ALLOW + inner + "pub mod m {\n" + body + "}\n"


def override(g, n=12):
    """Sometimes: a crate that passes itself off as `pin_project`, with some of the hidden items replaced."""
    if not g.chance(1, n):
        return ""
    fakes = ["pub trait Drop {}", "pub trait Unpin {}", "pub struct PhantomPinned;", "pub struct Wrapper<'a, T: ?Sized>(std::marker::PhantomData<&'a ()>, T);",
             "pub struct AlwaysUnpin<'a, T>(std::marker::PhantomData<&'a ()>, std::marker::PhantomData<T>);",
             "pub struct UnsafeDropInPlaceGuard<T: ?Sized>(*mut T); impl<T: ?Sized> UnsafeDropInPlaceGuard<T> { pub unsafe fn new(p: *mut T) -> Self { Self(p) } }"]
    sel = g.subset(fakes) or [g.pick(fakes[:2])]
    return ("#![allow(hidden_glob_reexports)]\nextern crate pin_project as pin_project_orig; extern crate self as pin_project; pub use ::pin_project_orig::*;\n"
            "mod __private { pub use ::pin_project_orig::__private::*; " + " ".join(sel) + " }\n")


def subst(src, m, own=None):
    """Replace parameter names (types, consts, lifetimes) in a type as written."""
    def r(k):
        w = k.group(0)
        if w == "Self" and own:
            return own
        return m.get(w, w)
    return re.sub(r"'?(?:r#)?[A-Za-z_][A-Za-z0-9_]*", r, src)


def impl_for(item, trait, body="", extra=(), kw="", pre="", params=None, args=None, where=True):
    """impl<params> trait for Item<args> where ... { body }"""
    gd = item.generics_decl(defaults=False) if params is None else params
    ga = item.generics_use() if args is None else args
    w = item.where_str(extra) if where else ((" where " + ", ".join(extra)) if extra else "")
    return f"    {pre}{kw}impl{gd} {trait} for {item.name}{ga}{w} {{ {body} }}\n"


def drop_generics(item):
    """Parameters and arguments of the pinned drop impl, with '_ for some lifetimes that nothing else in the header mentions."""
    if not item.anon:
        return None, None
    it = copy.copy(item)
    rest = " ".join(item.where + [p.bounds for p in item.params])
    an = {p.name for p in item.params if p.kind == "lt" and not p.bounds and not re.search(re.escape(p.name) + r"(?!\w)", rest)}
    it.params = [p for p in item.params if p.name not in an]
    return it.generics_decl(defaults=False), "<" + ", ".join("'_" if p.name in an else p.name for p in item.params) + ">" if item.params else ""


def pinned_drop_impl(item, body="", attr="#[pinned_drop] ", extra=()):
    ps, ar = drop_generics(item)
    return item.wrap_drop(impl_for(item, "PinnedDrop", "fn drop(self: Pin<&mut Self>) { " + body + " }", pre=attr, extra=extra, params=ps, args=ar))


def instantiate(g, item, pool=None):
    """A random instantiation: mapping of parameter names to concrete types."""
    m = {}
    for p in item.params:
        if p.kind == "lt":
            m[p.name] = "'static"
        elif p.kind == "const":
            m[p.name] = p.conc
        elif not p.sized:
            m[p.name] = g.pick(["[Tr]", "[TrP]", "(dyn Fp + 'static)", "(dyn Fp + Unpin)", "str", "u8", "PhantomPinned"])
        else:
            m[p.name] = g.pick(pool or INST)
    return m


def inst_name(item, m):
    return item.name + ("<" + ", ".join(m[p.name] for p in item.params) + ">" if item.params else "")


USES = "    use vsut::*; use pin_project::{pin_project, pinned_drop, UnsafeUnpin}; use std::pin::Pin; use std::marker::{PhantomData, PhantomPinned};\n"
USES_PLAIN = "    use vsut::*; use std::pin::Pin; use std::marker::{PhantomData, PhantomPinned};\n"


def helpers(item, trks=False):
    """type C, constructor mk(variant, seed), snapshot (addresses + fingerprints) and tracker lists, all via plain user code."""
    s = f"    type C = {item.conc()};\n"
    cs = "C"
    if item.tail:
        s += f"    type CS = {item.conc(unsized=False)};\n"
        cs = "CS"
    s += f"    fn mk(v: usize, s: u64) -> {cs} {{ match v {{\n"
    for vi, v in enumerate(item.variants):
        vals = []
        for i, f in enumerate(v.fields):
            t = f.ty.conc if f.ty.sized else item.tail[0]
            e = f"mkv::<{t}>(s + {i * 17 + 1})"
            vals.append(f"{f.name}: {e}" if v.shape == "named" else e)
        p = item.vpath(vi)
        if v.shape == "named":
            e = p + " { " + ", ".join(vals) + " }"
        elif v.shape == "tuple":
            e = p + "(" + ", ".join(vals) + ")"
        else:
            e = p
        s += f"        {vi if vi + 1 < len(item.variants) else '_'} => {e},\n"
    s += "    } }\n"
    s += "    fn want(v: usize, s: u64) -> Vec<String> { contents(&|| { let b: Box<C> = Box::new(mk(v, s)); snap(&b) }) }\n"
    s += "    fn snap(x: &C) -> Snap { match x {\n"
    for vi, v in enumerate(item.variants):
        es = ", ".join(f"sn(f{i})" for i in range(len(v.fields)))
        s += f"        {item.pat(vi)} => Snap {{ variant: {vi}, fields: vec![{es}] }},\n"
    s += "    } }\n"
    if not trks:
        return s
    s += "    fn trks(x: &C) -> Vec<Vec<(u64, usize)>> { match x {\n"
    for vi, v in enumerate(item.variants):
        es = ", ".join(f"trk_of(f{i})" for i in range(len(v.fields)))
        s += f"        {item.pat(vi)} => vec![{es}],\n"
    s += "    } }\n"
    pins = ", ".join("&[" + ", ".join(str(f.pin).lower() for f in v.fields) + "]" for v in item.variants)
    s += f"    const PINS: &[&[bool]] = &[{pins}];\n"
    return s
