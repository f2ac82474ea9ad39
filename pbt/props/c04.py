"""C04: user impls of Unpin, and ineffective or safe impls of UnsafeUnpin, are rejected."""
from ..core import case, prog
from ..items import *
from .c02 import inst

LEVEL = "exploration"
CASES = {"quick": 900, "thorough": 9000}
RULE = ("A case is a generated definition in one of the three Unpin modes (with or without PinnedDrop, project_replace, a proper UnsafeUnpin impl) that must be "
        "accepted, plus 2-4 mutants of the program, each adding one offending impl (blanket, conditional on parameters / field types / an unimplemented trait, for one "
        "instantiation, written with paths, aliases, macros, nested modules or function bodies), each of which must be rejected. Non-trivial: at least two mutants.")


def base(g):
    mode = g.pick([None, "!Unpin", "UnsafeUnpin"])
    item = gen_item(g, frags=8, tail=10, fixed_tail=10, replace="maybe", pinned_drop="maybe", unpin=mode)
    src = USES + item.render()
    if item.args.get("pinned_drop"):
        src += pinned_drop_impl(item)
    return item, mode, src


def unsafe_impls(g, item):
    tps = [p.name for p in item.params if p.kind == "ty"]
    return impl_for(item, "UnsafeUnpin", kw="unsafe ", extra=[f"{p}: Unpin" for p in g.subset(tps)])


def placed(g, imp, item):
    """The same impl at another place in the program."""
    k = g.weighted([(4, "here"), (1, "fn"), (1, "mod"), (1, "macro"), (1, "const")])
    if k == "here":
        return imp, k
    if k == "fn":
        return "    fn inner() {\n    " + imp + "    }\n", k
    if k == "mod":
        return "    mod inner { use super::*;\n    " + imp + "    }\n", k
    if k == "const":
        return "    const _: () = {\n    " + imp + "    };\n", k
    return "    macro_rules! mkit { ($($t:tt)*) => { $($t)* } } mkit! {\n    " + imp + "    }\n", k


def offending(g, item, trait, kw, header="auto"):
    """One user impl of `trait` in some form; (source, label)."""
    tps = [p.name for p in item.params if p.kind == "ty"]
    own = item.name + item.generics_use()
    forms = ["blanket", "concrete"] + (["cond-param", "never-trait", "cond-field", "cond-any", "partial"] if tps else ["cond-static"])
    if trait == "Unpin" and any(p.kind == "ty" and p.sized for p in item.params) and not item.where and all(p.bounds in ("", "Any1", "'static") for p in item.params if p.kind == "ty") and not any("Assoc" in f.ty.src for f in item.all_fields()):
        forms += ["emulated-negative"] * 6
    k = g.pick(forms)
    extra, pre = [], ""
    tr = trait
    if trait == "Unpin":
        tr = g.pick(["Unpin", "Unpin", "std::marker::Unpin", "::core::marker::Unpin", "MyUnpin"])
        if tr == "MyUnpin":
            pre = "    use std::marker::Unpin as MyUnpin;\n"
    elif g.chance(1, 4):
        tr = "::pin_project::UnsafeUnpin"
    if k == "emulated-negative":
        # A local type with an `Unpin` impl that never holds counts as known not to be Unpin.
        m = inst(g, item)
        pre += f"    pub struct NoUnpin(PhantomPinned);\n    impl Unpin for NoUnpin where for<'cursed> {g.pick(['str', '[u8]'])}: Sized {{}}\n"
        ps = [p for p in item.params if p.kind == "ty" and p.sized]
        for p in g.subset(ps) or [g.pick(ps)]:
            m[p.name] = g.pick(["NoUnpin", "NoUnpin", "(NoUnpin, u8)", "Option<NoUnpin>"])
        return pre + f"    {kw}impl {tr} for {inst_name(item, m)} {{}}\n", k
    if k == "concrete":
        m = inst(g, item)
        n = inst_name(item, m)
        if g.chance(1, 4):
            pre += f"    type Target = {n};\n"
            n = "Target"
        return pre + f"    {kw}impl {tr} for {n} {{}}\n", k
    if k == "partial":
        p0 = g.pick([p for p in item.params if p.kind == "ty"])
        m = inst(g, item)
        ps = [p for p in item.params if p is not p0]
        decl = "<" + ", ".join((f"const {p.name}: {p.bounds}" if p.kind == "const" else p.name + (": " + p.bounds if p.bounds else "")) for p in ps) + ">" if ps else ""
        args = "<" + ", ".join(m[p.name] if p is p0 else p.name for p in item.params) + ">"
        w = [subst(x, {p0.name: m[p0.name]}, item.name + args) for x in item.where]
        return pre + f"    {kw}impl{decl} {tr} for {item.name}{args}{' where ' + ', '.join(w) if w else ''} {{}}\n", k
    if k == "cond-param":
        extra = [f"{p}: {g.pick(['Unpin', 'Copy', 'Send', 'Any1', '''std::fmt::Debug''' ])}" for p in (g.subset(tps) or tps[:1])]
    elif k == "never-trait":
        pre += "    trait Never {}\n"
        extra = [f"{g.pick(tps)}: Never"]
    elif k == "cond-field":
        fs = [f for f in item.all_fields() if f.ty.uses & set(tps)]
        if fs:
            extra = [subst(g.pick(fs).ty.src, {}, own) + ": " + g.pick(["Unpin", "Any1"])]
    elif k == "cond-any":
        extra = [f"{g.pick(tps)}: Any1", "for<'q> &'q u8: Any1"]
    elif k == "cond-static":
        extra = ["u8: Copy", "for<'q> &'q u8: Any1"]
    return pre + impl_for(item, tr, kw=kw, extra=extra), k


def gen(g, tier):
    item, mode, src = base(g)
    uu = ""
    ov = override(g)
    if mode == "UnsafeUnpin" and g.chance(3, 4):
        uu = unsafe_impls(g, item)
    ctl = prog(crate(src + uu, ov), name="control", plain_src=crate(USES_PLAIN + item.render(macro=False), ov), why="nothing offending in it")
    progs, classes, seen = [ctl], set(item.classes) | {"mode:" + str(mode)} | ({"posing-as-pin_project"} if ov else set()), set()
    for _ in range(g.int(2, 4)):
        what = g.weighted([(5, "unpin"), (3 if mode != "UnsafeUnpin" else 0, "unsafeunpin"), (2, "safe")])
        if what == "unpin":
            imp, k = offending(g, item, "Unpin", "")
            imp, pl = placed(g, imp, item)
            m = src + uu + imp
            why = "a user impl of Unpin"
        elif what == "unsafeunpin":
            imp, k = offending(g, item, "UnsafeUnpin", "unsafe ")
            imp, pl = placed(g, imp, item)
            m = src + imp
            why = "UnsafeUnpin impl without the UnsafeUnpin argument"
        else:
            imp, k = offending(g, item, "UnsafeUnpin", "")
            imp, pl = placed(g, imp, item)
            m = src + imp
            why = "UnsafeUnpin impl without unsafe"
        if m in seen:
            continue
        seen.add(m)
        progs.append(prog(crate(m, ov), expect="fail", sane_src=crate(USES + item.render(macro=False) + (imp if what != "safe" else re.sub(r"\bimpl\b", "unsafe impl", imp, count=1)), ov), name=f"{what}-{k}-{pl}", why=why))
        classes |= {"offence:" + what, "form:" + k, "place:" + pl}
    return case(progs, classes, len(progs) > 2, f"definition in mode {mode} with {len(progs) - 1} offending impls")
