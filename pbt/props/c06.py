"""C06: no annotated type ends up packed with an under-aligned field, however the packing is written."""
from ..core import case, prog
from ..items import *

LEVEL = "exploration"
CASES = {"quick": 1100, "thorough": 9000}
RULE = ("A case is a struct definition (fields of alignment 1 with one or more better aligned ones at random positions, pinned or not, named or tuple, generic or not) "
        "together with one non-packed representation that must be accepted, and 2-4 packed variants that must be rejected: packed / packed(N) alone or combined, before "
        "or after the attribute, behind (nested) cfg_attr, from macro_rules fragments, or added by another attribute macro expanded before or after pin_project or only after its derive (there "
        "only with N below the alignment of some field). Non-trivial: at least one variant is not the literal `#[repr(packed)]` attribute.")
A1 = ["u8", "[u8; 3]", "bool", "()", "(u8, i8)", "Option<bool>", "[u8; 0]", "PhantomData<u64>", "std::num::NonZeroU8", "PhantomPinned", "i8"]
AX = [("u16", 2), ("u32", 4), ("u64", 8), ("Tr", 8), ("TrP", 8), ("String", 8), ("&'static str", 8), ("Option<u32>", 4), ("Vec<u8>", 8), ("fn(u32) -> u32", 8), ("[u16; 2]", 2), ("(u8, u32)", 4),
      ("Box<u8>", 8), ("char", 4), ("f64", 8), ("[u64; 0]", 8)]


def make(g, ones):
    n = g.int(1, 6)
    fs = []
    shape = g.pick(["named", "tuple"])
    generic = not ones and g.chance(1, 4)
    al = 1
    params = [Param("ty", "T", "u32")] if generic else []
    if g.chance(1, 6):
        params.insert(0, Param("lt", "'a", "'static"))
    pos = g.int(0, n - 1)
    for i in range(n):
        nm = FIELD_NAMES[i] if shape == "named" else None
        if i == pos and not ones:
            if generic:
                t, a = Ty("T", "u32", uses=frozenset(["T"])), 16
            else:
                x, a = g.pick(AX)
                t = Ty(x, x)
            al = max(al, a)
        else:
            x = g.pick(A1)
            t = Ty(x, x)
        fs.append(Field(nm, t, pin=g.flip()))
    if params and params[0].kind == "lt":
        fs.insert(g.int(0, len(fs)), Field("marker_" if shape == "named" else None, Ty("PhantomData<&'a u8>", "PhantomData<&'static u8>"), pin=g.flip()))
    item = Item("struct", "S", params, [], [Variant(None, shape, fs)])
    item.args = {}
    if g.chance(1, 5):
        item.args["unpin"] = g.pick(["!Unpin", "UnsafeUnpin"])
    if g.chance(1, 5):
        item.args["project_replace"] = True
    elif g.chance(1, 6):
        item.args["pinned_drop"] = True
    classify(item)
    return item, al, generic


def define(item, before=(), after=(), macro=True):
    b = list(before) + (["#[pin_project" + ("(" + ", ".join(item.args_list()) + ")" if item.args_list() else "") + "]"] if macro else []) + list(after)
    return "".join("    " + x + "\n" for x in b) + f"    struct S{item.generics_decl()}{item.body(macro)}\n"


def packed_repr(g, al, must_under):
    ns = [n for n in (1, 2, 4, 8, 16, 32) if n < al] if must_under else [1, 2, 4, 8]
    ns = ns or [1]
    n = g.pick(ns)
    p = g.pick(["packed", "packed", f"packed({n})", f"packed({n})", "packed(1)"])
    return g.weighted([(4, p), (1, f"C, {p}"), (1, f"{p}, C"), (1, f"Rust, {p}") if False else (1, f"{p},")])


def variant(g, item, al, ones):
    """(style, source, plain source) of one packed version."""
    k = g.weighted([(3, "attr"), (2, "two-attrs"), (2, "cfg_attr"), (1, "cfg_attr-nested"), (2, "macro-ident"), (1, "macro-meta"), (1, "macro-literal"), (1, "macro-tt"), (2, "aux-before"),
                    (3 if not ones else 0, "aux-after"), (2 if not ones else 0, "aux-after-last"), (1, "aux-before-last"), (1, "rotate"), (1 if not ones else 0, "cfg_attr-aux"),
                    (1 if not ones else 0, "aux-replace"), (5 if not ones else 0, "aux-late")])
    hidden = k in ("aux-after", "aux-after-last", "cfg_attr-aux", "aux-replace", "aux-late")
    r = packed_repr(g, al, hidden)
    B, A = [], []
    if k == "attr":
        (B if g.flip() else A).append(f"#[repr({r})]")
    elif k == "two-attrs":
        l = g.perm(["#[repr(C)]", f"#[repr({r})]"]) if "C" not in r else [f"#[repr({r})]", "#[allow(dead_code)]"]
        for x in l:
            (B if g.flip() else A).append(x)
    elif k == "cfg_attr":
        (B if g.flip() else A).append(f"#[cfg_attr({g.pick(['all()', 'not(any())', 'any(all(), any())'])}, {g.pick(['', 'allow(unused), '])}repr({r}))]")
    elif k == "cfg_attr-nested":
        (B if g.flip() else A).append(f"#[cfg_attr(all(), cfg_attr(all(), repr({r})))]")
    elif k.startswith("macro"):
        if k == "macro-ident":
            pat, attr, arg = "$r:ident", "#[repr($r)]", "packed"
        elif k == "macro-meta":
            pat, attr, arg = "$r:meta", "#[$r]", f"repr({r})"
        elif k == "macro-literal":
            pat, attr, arg = "$r:literal", "#[repr(packed($r))]", "1"
        else:
            pat, attr, arg = "$($r:tt)*", "#[repr($($r)*)]", r
        def wrap_m(macro):
            d = define(item, [attr] if first else [], [] if first else [attr], macro)
            return f"    macro_rules! mk_ {{ ({pat}) => {{\n{d}    }} }}\n    mk_! {{ {arg} }}\n"
        first = g.flip()
        return k, wrap_m(True), wrap_m(False)
    elif k == "aux-before":
        B.append(f"#[auxmac::add_attr(#[repr({r})])]")
    elif k == "aux-before-last":
        B.append(f"#[auxmac::add_attr_last(#[repr({r})])]")
    elif k == "aux-after":
        A.append(f"#[auxmac::add_attr(#[repr({r})])]")
    elif k == "aux-after-last":
        A += ["#[allow(dead_code)]", f"#[auxmac::add_attr_last(#[repr({r})])]"]
    elif k == "aux-late":      # the packing only appears after the derive has run
        late = f"#[auxmac::add_attr_last(#[auxmac::{g.pick(['add_attr', 'add_attr_last'])}(#[repr({r})])])]"
        (A if g.chance(2, 3) else B).append(late)
    elif k == "rotate":
        B += ["#[auxmac::rotate_attrs]", f"#[repr({r})]"]
    elif k == "cfg_attr-aux":
        A.append(f"#[cfg_attr(all(), auxmac::add_attr(#[repr({r})]))]")
    elif k == "aux-replace":
        body = define(item, [], [f"#[repr({r})]"], macro=False).replace("#[pin] ", "")
        A.append("#[auxmac::replace_item(" + f"#[repr({r})] struct S{item.generics_decl()}{item.body(True)}" + ")]")
        return k, define(item, B, A), body
    if k == "rotate":
        return k, define(item, B, A), define(item, B[1:], A, macro=False)
    return k, define(item, B, A), define(item, B, A, macro=False)


def rest(item):
    return pinned_drop_impl(item) if item.args.get("pinned_drop") else ""


def gen(g, tier):
    ones = g.chance(1, 4)
    item, al, generic = make(g, ones)
    c = g.pick(["", "#[repr(C)]", "#[repr(align(4))]", "#[repr(C, align(16))]", "#[cfg_attr(any(), repr(packed))]", "#[cfg_attr(all(), repr(C))]", "#[auxmac::add_attr(#[repr(C)])]", "#[auxmac::add_attr_last(#[auxmac::add_attr(#[repr(C)])])]", "#[doc = \"packed\"]"])
    first = g.flip()
    ctl = define(item, [c] if c and first else [], [c] if c and not first else [])
    progs = [prog(crate(USES + ctl + rest(item)), name="not-packed", why="the representation is not packed",
                  plain_src=crate(USES_PLAIN + define(item, [c] if c and first else [], [c] if c and not first else [], macro=False)))]
    classes, seen = set(item.classes) | {"align1-only" if ones else "aligned-field"}, set()
    for _ in range(g.int(2, 4)):
        k, src, pl = variant(g, item, al, ones)
        if src in seen:
            continue
        seen.add(src)
        progs.append(prog(crate(USES + src + rest(item)), expect="fail", sane_src=crate(USES_PLAIN + pl), name=k, why="packed"))
        classes.add("how:" + k)
    return case(progs, classes, any(p["name"] != "attr" for p in progs[1:]), f"struct with {len(progs) - 1} packed variants")
