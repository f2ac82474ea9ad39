"""C22: what an annotated item expands to is repeatable and does not depend on its neighbours."""
from ..core import batch_case, case
from ..items import *
from . import c01, c02, c07, c09

LEVEL = "exploration"
CASES = {"quick": 900, "thorough": 12000}
K = 2
RULE = ("A case is either (a) a crate of 2-6 modules, each with 1-4 generated annotated definitions (all argument combinations, generics, where clauses, pinned drop impls with bodies), expanded in at least three separate compiler "
        "processes: twice as is, then with the modules in another order, some of them removed, or every other attribute run first; the expansion of each module has to be the same text each time; or (b) a definition driven by the "
        "histories and oracles of C01, C02, C07 or C09 while 1-6 other annotated definitions, with names derived from its own name and from the usual names of helpers, stand before and after it in the same scope. "
        "Non-trivial: at least three annotated items in the crate.")
BODIES = ["", "let _this = self;", "let _n = Self::K + self.as_ref().get_ref().len();", "fn inner(x: u8) -> u8 { x } let _ = inner(1); id!(self.len(), Self::K);", "let _c = |x: &Self| x.len() + Self::K; println!(\"{}\", self.len());",
          "let _ = std::mem::size_of::<Option<&Self>>(); self::top();"]
HELPERS = "macro_rules! id { ($($t:tt)*) => { { let _ = ($($t)*); } } } fn top() {}"
USES2 = "use vsut::*; use pin_project::{pin_project, pinned_drop, UnsafeUnpin}; use std::pin::Pin; use std::marker::{PhantomData, PhantomPinned};"


def definition(g, name, tag, body=False):
    """(with attribute, plain) of a valid annotated item whose projections have unique names."""
    item = gen_item(g, tail=8, replace="maybe", unpin="maybe", pinned_drop="maybe", name=name, where=True, field_attrs=g.flip())
    for i, f in enumerate(item.all_fields()):
        if f.name and not re.fullmatch(r"[a-z]|tail|marker_", f.name):
            f.name = f"field{i}"       # a field called like a constant or tuple struct in scope is a known finding of C19
    for k in ("project", "project_ref", "project_replace"):
        if isinstance(item.args.get(k), str):
            item.args[k] = {"project": "Pm", "project_ref": "Pr", "project_replace": "Po"}[k] + tag
    src, plain = "    " + item.render() + "\n", "    " + item.render(macro=False) + "\n"
    if item.args.get("pinned_drop"):
        if body and not item.methods:
            b = g.pick(BODIES)
            gd, ga = item.generics_decl(defaults=False), item.generics_use()
            imp = f"    impl{gd} {name}{ga}{item.where_str()} {{ const K: usize = 1; fn len(&self) -> usize {{ 1 }} }}\n"
            src, plain = src + imp, plain + imp
        else:
            b = ""
        src += pinned_drop_impl(item, b)
    return src, plain, item


# ------------------------------------------------------------------ (a) expansion as a function of the item
def expansion(g, tier):
    n = g.int(2, 6)
    mods, total, classes = [], 0, set()
    for i in range(n):
        k = g.int(1, 4)
        ds = [definition(g, f"T{j}" if g.chance(3, 4) else f"r#T{j}", str(j), True) for j in range(k)]
        total += k
        for _, _, it in ds:
            classes |= it.classes
        mods.append((f"m{i}", f"pub mod m{i} {{\n    {USES2} {HELPERS}\n" + "".join(d[0] for d in ds) + "}\n"))
    if g.chance(1, 3):
        # the same module twice
        mods.append((f"m{n}", mods[0][1].replace("pub mod m0 ", f"pub mod m{n} ", 1)))
    crate = lambda ms, x="": "#![allow(warnings)]\n" + x + "".join(s for _, s in ms)
    other = "mod zz { use pin_project::*; #[pin_project] struct First<'pin, T>(#[pin] &'pin T); #[pin_project(project = A, project_replace = B)] enum Second { X { #[pin] a: u8 } } #[pin_project(PinnedDrop, !Unpin)] struct Third(u8); #[pinned_drop] impl PinnedDrop for Third { fn drop(self: std::pin::Pin<&mut Self>) {} } }\n"
    vs = [crate(mods), crate(mods)]
    for _ in range(g.int(1, 2)):
        k = g.pick(["perm", "some", "before", "rev"])
        classes.add("context:" + k)
        if k == "perm":
            vs.append(crate(g.perm(mods)))
        elif k == "rev":
            vs.append(crate(mods[::-1]))
        elif k == "some":
            vs.append(crate([g.pick(mods)]))
        else:
            vs.append(crate(mods, other))
    p = {"src": vs[0], "variants": vs, "mods": [m for m, _ in mods], "mode": "modules", "expect": "ok", "edition": "2021", "name": "expansion"}
    return case([p], classes | {"expansion"}, total >= 3, f"expansion of {total} items in {len(mods)} modules, {len(vs)} compilations")


# ------------------------------------------------------------------ (b) neighbours in the same scope
def neighbours(g, src, own):
    pool = []
    b = own.replace("r#", "")
    for f in ("{}Projection", "__{}Projection", "{}ProjectionRef", "{}Proj", "{}ProjRef", "{}ProjOwn", "__{}", "{}_", "{}2", "{}Mut", "{}Ref", "__{}ProjectionRef", "__{}ProjectionOwned", "{}ProjectionOwned", "_{}"):
        pool.append(f.format(b))
    pool += ["Projection", "ProjectionRef", "__S", "Inner", "Guard", "Nb", "Unnamed", "__Origin", "Subject", "Other", "Origin"]
    pool = [n for n in dict.fromkeys(pool) if not re.search(r"(?<!\w)" + re.escape(n) + r"(?!\w)", src)]
    out = []
    for i in range(g.int(1, 6)):
        n = pool.pop(g.int(0, len(pool) - 1))
        d = definition(g, n, f"Nb{i}")
        if g.chance(1, 5):
            d = (f"    fn nb_fn{i}() {{\n{d[0]}    }}\n", f"    fn nb_fn{i}() {{\n{d[1]}    }}\n", d[2])
        elif g.chance(1, 6):
            d = (f"    macro_rules! nb_mac{i} {{ ($($t:tt)*) => {{ $($t)* }} }} nb_mac{i}! {{\n{d[0]}    }}\n", d[1], d[2])
        out.append(d)
    return out


def part(g, tier):
    k = g.weighted([(3, "c01"), (2, "c02"), (3, "c07"), (3, "c09")])
    p = {"c01": c01.part, "c02": c02.part, "c07": c07.part, "c09": c09.part}[k](g, tier)
    m = re.search(r"\b(?:struct|enum)\s+((?:r#)?[^\W\d]\w*)", p["src"])
    nb = neighbours(g, p["src"], m.group(1) if m else "S")
    at = g.int(0, len(nb))
    head, tail = nb[:at], nb[at:]
    i = p["src"].index(USES) + len(USES) if USES in p["src"] else None
    if i is None:
        head, tail = [], nb
        i = 0
    src = p["src"][:i] + "".join(d[0] for d in head) + p["src"][i:] + "".join(d[0] for d in tail)
    q = dict(p, src=src, classes=set(p["classes"]) | {"neighbours", "oracle:" + k, f"neighbours:{len(nb)}"}, nontrivial=len(nb) >= 2)
    if p.get("plain"):
        q["plain"] = p["plain"] + "".join(d[1] for d in nb)
    return q


def gen(g, tier):
    if g.flip():
        return expansion(g, tier)
    parts = [part(g, tier)] + [part(g, tier) for _ in range(K - 1) if g.chance(7, 8)]
    return batch_case(parts, "neighbours", "definitions among annotated neighbours")
