"""C18: fields, variants and #[pin] that come from cfg, cfg_attr or another attribute macro count as if written directly."""
import copy
from ..core import batch_case, case, prog
from .. import items
from ..items import *
from . import c01, c02, c07, c09

LEVEL = "exploration"
CASES = {"quick": 1100, "thorough": 12000}
K = 3
FLAGS = ["--cfg", "feat_on"]
RULE = ("A case is a generated final definition F and a disguised source that becomes F after cfg, cfg_attr and other attribute macros have run: switched-off fields, variants and parameters inserted, "
        "#[pin] written through (nested) cfg_attr or switched off, #[pin_project(..)] itself behind cfg_attr or added by a macro, the body or the whole item supplied by an attribute macro that is expanded before or "
        "after pin_project, from a decoy that differs in fields, pins, shape or kind. The disguised source is driven by the histories and oracles of C01 (projections), C02 (Unpin), C07 (replacement) and C09 (drop), "
        "which know only F. The rest are disguises of a final item that must be rejected (no field left, repeated or argumented #[pin], explicit discriminant, union, missing pinned drop impl). Non-trivial: the source "
        "differs from F by at least two disguises.")
ON = ["all()", "not(any())", "feat_on", "any(feat_on, feat_off)", "not(feat_off)", "all(feat_on, not(feat_off))", "any(feat_off, all())"]
OFF = ["any()", "not(all())", "feat_off", "all(feat_on, feat_off)", "not(feat_on)", "any(feat_off, any())"]
GHOST = ["u8", "PhantomPinned", "Missing<T0>", "&'nowhere u8", "[u8; NOPE]", "TrP", "crate::nowhere::X", "dyn Fn(u8)", "Self"]


def on(g):
    return g.pick(ON)


def off(g):
    return g.pick(OFF)


def cfg_off(g):
    return g.pick([f"#[cfg({off(g)})]", f"#[cfg({off(g)})]", f"#[cfg_attr({on(g)}, cfg({off(g)}))]"])


def pin_form(g):
    return g.pick(["#[pin]", f"#[cfg_attr({on(g)}, pin)]", f"#[cfg_attr({on(g)}, pin)]", f"#[cfg_attr({on(g)}, cfg_attr({on(g)}, pin))]", f"#[cfg_attr({on(g)}, pin, allow(unused))]", f"#[cfg_attr({on(g)}, allow(unused), pin)]",
                   f"#[cfg_attr({off(g)}, pin)] #[pin]", f"#[pin] #[cfg_attr({off(g)}, pin(foo))]"])


def unpin_form(g):
    return g.pick(["", "", f"#[cfg_attr({off(g)}, pin)]", f"#[cfg_attr({on(g)}, cfg_attr({off(g)}, pin))]", f"#[cfg_attr({off(g)}, cfg_attr({on(g)}, pin))]"])


def ghost_field(g, i, named):
    a = [cfg_off(g)] + g.pick([[], ["#[pin]"], [f"#[cfg_attr({on(g)}, pin)]"], ["#[pin]", "#[pin]"], ["#[pin(foo)]"], ["#[allow(unused)]"]])
    if g.chance(1, 3):
        a = g.perm(a)
    return " ".join(a) + " " + (f"ghost{i}: " if named else "") + g.pick(GHOST)


def decoy_fields(g, named):
    out = []
    for i in range(g.int(0, 3)):
        out.append(g.pick(["", "#[pin] ", "#[pin] #[pin] ", "#[pin(x)] "]) + (f"{g.pick(['a', 'b', 'decoy'])}{i}: " if named else "") + g.pick(["u8", "PhantomPinned", "Nowhere", "TrP"]))
    return out


def decoy_body(g, item):
    if item.kind == "struct":
        return ", ".join(decoy_fields(g, item.variants[0].shape == "named"))
    out = []
    for i in range(g.int(0, 3)):
        n = g.pick(["A", "B", "Decoy"]) + str(i)
        out.append(g.pick([n, n + " = " + str(i + 4), n + "(" + ", ".join(decoy_fields(g, False)) + ")", n + " { " + ", ".join(decoy_fields(g, True)) + " }"]))
    return ", ".join(out)


class Disguised(Item):
    def inner_body(self):
        """Contents of the body, disguised by cfg."""
        d = self.plan
        vs = []
        k = 0
        for vi, v in enumerate(self.variants):
            fs = []
            for f in v.fields:
                pf, extra, gh = d["fields"][k]
                k += 1
                fs += gh
                h = copy.copy(f)
                h.post = [x for x in [pf] + extra if x] + [a for a in f.post if not a.startswith("//")]
                h.pre = [a for a in f.pre if not a.startswith("//")]
                h.pin = False
                fs.append(h.render(vis=self.kind == "struct"))
            if v.shape != "unit":
                fs += d["tails"][vi]
            vs.append(fs)
        if self.kind == "struct":
            return ", ".join(vs[0])
        out = []
        for vi, (v, fs) in enumerate(zip(self.variants, vs)):
            out += d["gvar"][vi]
            a = "".join(x + " " for x in v.attrs + d["vattr"][vi])
            out.append(a + v.name + ("" if v.shape == "unit" else " { " + ", ".join(fs) + " }" if v.shape == "named" else "(" + ", ".join(fs) + ")"))
        out += d["gvar"][-1]
        return ", ".join(out)

    def gdecl(self):
        s = self.generics_decl()
        gp = self.plan["gparam"]
        if gp and s:
            s = s[:-1] + ", " + gp + ">" if not any(p.default for p in self.params) else s
        return s

    def head(self):
        return (self.vis + " " if self.vis else "") + f"{self.kind} {self.name}{self.gdecl()}"

    def with_body(self, inner):
        sh = self.variants[0].shape
        if self.kind == "enum" or sh == "named":
            return self.head() + self.where_str() + " { " + inner + " }"
        return self.head() + "(" + inner + ")" + self.where_str() + ";"

    def render(self, macro=True, path="pin_project", name=None, pin_attr="#[pin]", attrs=True):
        if not macro:
            return super().render(macro, path, name, pin_attr, attrs)
        d = self.plan
        inner = self.inner_body()
        full = self.with_body(inner)
        at = self.attr(path)
        if d["attr"] == "cfg":
            at = f"#[cfg_attr({d['on']}, {at[2:-1]})]"
        elif d["attr"] == "either":
            at = f"#[cfg_attr({d['on']}, {at[2:-1]})]\n    #[cfg_attr({d['off']}, pin_project(PinnedDrop, UnsafeUnpin))]"
        elif d["attr"] == "added":
            at = f"#[auxmac::add_attr({at})]"
        elif d["attr"] == "added-last":
            at = f"#[auxmac::add_attr_last({at})]"
        pre, post = [a for a in self.pre if not a.startswith("//")], [a for a in self.post if not a.startswith("//")]
        seq = pre + [at] + post
        src = full
        m = d["macro"]
        if m == "set_body":
            x = f"#[auxmac::set_body({inner})]"
            src = self.with_body(d["decoy"])
        elif m == "replace_item":
            x = f"#[auxmac::replace_item({full})]"
            src = d["decoy_item"]
        elif m == "id":
            x = "#[auxmac::id]"
        else:
            x = None
        if x:
            if d["cfg_macro"]:
                x = f"#[cfg_attr({d['on']}, {x[2:-1]})]"
            k = len(pre) + (1 if d["after"] else 0)
            seq.insert(k, x)
        if d["id2"]:
            seq.insert(d["id2"] % (len(seq) + 1), "#[auxmac::id]")
        return "".join("    " + a + "\n" for a in seq) + "    " + src + "\n"


def disguise(g, item):
    item.__class__ = Disguised
    n = 0
    fields, tails, gvar, vattr = [], [], [], []
    for v in item.variants:
        for f in v.fields:
            pf = pin_form(g) if f.pin else unpin_form(g)
            ex = [f"#[cfg({on(g)})]"] if g.chance(1, 5) else []
            gh = [ghost_field(g, i, v.shape == "named") for i in range(g.weighted([(4, 0), (2, 1), (1, 2)]))]
            gh = [x.replace("ghost", f"ghost{len(fields)}_") for x in gh]
            n += (pf not in ("", "#[pin]")) + len(ex) + len(gh)
            fields.append((pf, ex, gh))
        t = [ghost_field(g, 99, v.shape == "named")] if v.shape != "unit" and g.chance(1, 4) else []
        n += len(t)
        tails.append(t)
    for i in range(len(item.variants) + 1):
        gv = []
        if g.chance(1, 5):
            gv.append(cfg_off(g) + " " + g.pick([f"Ghost{i}", f"Ghost{i}(#[pin] u8)", f"Ghost{i} {{ #[pin] a: PhantomPinned }}", f"Ghost{i} = 5", f"#[pin] Ghost{i}(Nowhere)"]))
            n += item.kind == "enum"
        gvar.append(gv)
        vattr.append([f"#[cfg({on(g)})]"] if g.chance(1, 6) else [])
    d = {"fields": fields, "tails": tails, "gvar": gvar, "vattr": vattr, "on": on(g), "off": off(g)}
    d["gparam"] = f"#[cfg({off(g)})] Ghost" if g.chance(1, 6) else ""
    d["attr"] = g.weighted([(6, "plain"), (2, "cfg"), (1, "either"), (1, "added"), (1, "added-last")])
    d["macro"] = g.weighted([(3, None), (3, "set_body"), (2, "replace_item"), (1, "id")])
    d["after"] = g.flip() and d["attr"] != "added-last"
    d["cfg_macro"] = g.chance(1, 6)
    d["id2"] = g.int(1, 5) if g.chance(1, 6) else 0
    d["decoy"] = decoy_body(g, item)
    early = not d["after"] and d["attr"] == "plain" and not d["id2"]
    k = g.pick(["struct", "enum"] + (["other"] if early else []))
    if k == "struct":
        d["decoy_item"] = g.pick(["", "pub "]) + "struct " + g.pick(["Decoy", item.name]) + g.pick(["<Z>", ""]) + g.pick([" { " + ", ".join(decoy_fields(g, True)) + " }", "(" + ", ".join(decoy_fields(g, False)) + ");", ";"])
    elif k == "enum":
        d["decoy_item"] = "enum " + g.pick(["Decoy", item.name]) + " { " + g.pick(["", "A, B", "A(#[pin] u8)", "A { #[pin] a: u8 }", "A = 3"]) + " }"
    else:
        d["decoy_item"] = g.pick(["fn f() {}", "union Decoy { a: u8 }", "mod q {}", "const X: u8 = 1;", "trait Q {}"])
    n += (d["attr"] != "plain") + 2 * (d["macro"] in ("set_body", "replace_item")) + (d["macro"] == "id") + bool(d["gparam"] and item.params) + bool(d["id2"])
    item.plan = d
    item.disguises = n
    item.pre = [a for a in item.pre if a != "#[deprecated]"]
    item.classes |= {"attr:" + d["attr"], "macro:" + str(d["macro"]) + ("-after" if d["after"] else "-before") if d["macro"] else "macro:none", "disguises:" + ("0-1" if n < 2 else "2-4" if n < 5 else "5+")}
    if any(x[2] for x in fields) or any(tails):
        item.classes.add("ghost-fields")
    if item.kind == "enum" and any(gvar):
        item.classes.add("ghost-variants")
    if any("cfg_attr" in x[0] for x in fields):
        item.classes.add("pin-via-cfg_attr")
    return item


def with_disguise(f, *a):
    made = []

    def post(g, item):
        made.append(disguise(g, item))
        return item
    items.POST = post
    try:
        r = f(*a)
    finally:
        items.POST = None
    return r, made


def drop_impl_forms(g, src):
    """#[pinned_drop] itself through cfg_attr or next to another macro."""
    if "#[pinned_drop] impl" in src:
        src = src.replace("#[pinned_drop] impl", g.pick(["#[pinned_drop] impl", f"#[cfg_attr({on(g)}, pinned_drop)] impl", "#[auxmac::id] #[pinned_drop] impl", f"#[cfg({on(g)})] #[pinned_drop] impl", "#[pinned_drop] #[auxmac::id] impl",
                                                         "#[auxmac::add_attr(#[pinned_drop])] impl"]), 1)
    return src


def part(g, tier):
    f = g.weighted([(5, c01.part), (4, c02.part), (2, c07.part), (3, c09.part)])
    p, made = with_disguise(f, g, tier)
    p["src"] = drop_impl_forms(g, p["src"])
    p["nontrivial"] = any(m.disguises >= 2 for m in made)
    p["classes"] = p["classes"] | {"oracle:" + f.__module__.rsplit(".", 1)[1]}
    return p


def generic(g, tier):
    c, made = with_disguise(c02.generic_case, g, tier)
    for p in c["progs"]:
        p["src"] = drop_impl_forms(g, p["src"])
        p["flags"] = FLAGS
    c["nontrivial"] = any(m.disguises >= 2 for m in made)
    return c


def rejected(g, tier):
    """The final item must be rejected although the source, taken literally, looks valid."""
    shape = g.pick(["named", "tuple"])
    kind = g.pick(["struct", "struct", "enum"])
    f = lambda i, a, t: f"{a} " + (f"{FIELD_NAMES[i]}: " if shape == "named" else "") + t
    wrap = lambda fs: "{ " + ", ".join(fs) + " }" if shape == "named" else "(" + ", ".join(fs) + ")"
    semi = ";" if shape == "tuple" else ""
    n = g.int(1, 4)
    good = [f(i, g.pick(["", "#[pin]"]), g.pick(["u8", "Tr", "TrP", "String"])) for i in range(n)]
    j = g.int(0, n - 1)
    arg = g.pick(["", "", "(!Unpin)", "(project = P)", "(project_ref = R)"])
    k = g.pick(["cfg-empty", "double-pin", "pin-args", "body-empty", "body-double-pin", "body-pin-args", "discriminant", "variant-pin", "union", "type-pin", "no-drop-impl", "two-drop-impls", "unit", "fn", "twice"])
    T = lambda inner: f"struct S {inner}{semi}" if kind == "struct" else f"enum S {{ B, A{inner} }}"
    at = f"#[pin_project{arg}]"
    sane, u = None, USES

    def macro(x):
        l = [at, x]
        return " ".join(l if g.flip() else l[::-1]) + " "
    if k == "cfg-empty":
        src = at + " " + T(wrap([f"{cfg_off(g)} {x}" for x in good]))
        sane = at + " " + T(wrap(good))
    elif k == "double-pin":
        bad = list(good)
        bad[j] = f(j, g.pick(["#[pin] ", ""]) + f"#[cfg_attr({on(g)}, {g.pick(['pin, pin', 'pin']) })] #[cfg_attr({on(g)}, pin)]", "u8")
        src = at + " " + T(wrap(bad))
        sane = at + " " + T(wrap(good))
    elif k == "pin-args":
        bad = list(good)
        bad[j] = f(j, f"#[cfg_attr({on(g)}, {g.pick(['pin()', 'pin(foo)', 'pin = 1'])})]", "u8")
        src = at + " " + T(wrap(bad))
        sane = at + " " + T(wrap(good))
    elif k.startswith("body-"):
        bad = list(good)
        if k == "body-empty":
            new = "" if kind == "struct" else g.pick(["", "A, B", "A(), B {}"])
        else:
            bad[j] = f(j, g.pick(["#[pin] #[pin]", "#[pin] #[allow(unused)] #[pin]"]) if k == "body-double-pin" else g.pick(["#[pin()]", "#[pin(x)]", "#[pin = \"\"]"]), "u8")
            new = ", ".join(bad) if kind == "struct" else "A" + wrap(bad)
        src = macro(f"#[auxmac::set_body({new})]") + T(wrap(good))
        sane = at + " " + T(wrap(good))
    elif k == "discriminant":
        src = macro(f"#[auxmac::set_body(A {wrap(good)} = 3, B)]") + f"#[repr(u8)] enum S {{ A {wrap(good)}, B }}"
        sane = macro("#[auxmac::id]") + f"#[repr(u8)] enum S {{ A {wrap(good)}, B }}"
    elif k == "variant-pin":
        src = macro(f"#[auxmac::set_body(#[pin] A {wrap(good)}, B)]") + f"enum S {{ A {wrap(good)}, B }}" if g.flip() else at + f" enum S {{ #[cfg_attr({on(g)}, pin)] A {wrap(good)}, B }}"
        sane = at + f" enum S {{ A {wrap(good)}, B }}"
    elif k in ("union", "unit", "fn"):
        new = {"union": "union S { a: u8, b: u16 }", "unit": "struct S;", "fn": "fn s() {}"}[k]
        src = macro(f"#[auxmac::replace_item({new})]") + T(wrap(good))
        sane = at + " " + T(wrap(good))
    elif k == "type-pin":
        x = g.pick([f"#[cfg_attr({on(g)}, pin)]", "#[auxmac::add_attr(#[pin])]", "#[auxmac::add_attr_last(#[pin])]", f"#[cfg_attr({on(g)}, pin(__private(!Unpin)))]"])
        src = at + " " + x + " " + T(wrap(good))
        sane = at + " " + T(wrap(good))
    elif k == "twice":
        x = g.pick([f"#[cfg_attr({on(g)}, pin_project)]", "#[auxmac::add_attr(#[pin_project])]", "#[auxmac::add_attr_last(#[pin_project])]"])
        src = (at + " " + x if g.flip() else x + " " + at) + " " + T(wrap(good))
        sane = at + " " + T(wrap(good))
    else:
        imp = " impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) {} }"
        base = g.pick(["#[pin_project(PinnedDrop)]", f"#[cfg_attr({on(g)}, pin_project(PinnedDrop))]"]) + " " + T(wrap(good)) + "\n    "
        a = f"#[pinned_drop]{imp}"
        if k == "no-drop-impl":
            src = base + f"#[cfg({off(g)})] #[pinned_drop]{imp}"
        else:
            src = base + a + f"\n    #[cfg({on(g)})] " + g.pick(["#[pinned_drop]", f"#[cfg_attr({on(g)}, pinned_drop)]"]) + imp
        sane = base + a
    progs = [prog(crate(u + "    " + sane + "\n"), name="control", flags=FLAGS, why="the directly written valid item", plain_src=crate(u + "    struct S;\n")),
             prog(crate(u + "    " + src + "\n"), expect="fail", name="final-" + k, flags=FLAGS, why=f"the final item is invalid ({k})")]
    return case(progs, {"reject:" + k, "kind:" + kind}, True, f"final item invalid: {k}")


def gen(g, tier):
    k = g.weighted([(6, "run"), (2, "generic"), (3, "reject")])
    if k == "generic":
        return generic(g, tier)
    if k == "reject":
        return rejected(g, tier)
    parts = [part(g, tier)] + [part(g, tier) for _ in range(K - 1) if g.chance(7, 8)]
    return batch_case(parts, "disguised", "disguised definitions", miri_flags=FLAGS)
