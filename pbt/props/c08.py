"""C08: a destructor (or the user's pinned drop code) panics at every possible point; nothing leaks or is dropped twice."""
from ..core import batch_case
from ..items import *

LEVEL = "fault_enumeration"
CASES = {"quick": 700, "thorough": 8000}
K = 3
TECHNIQUE = "property-based testing (Hypothesis) with exhaustive fault enumeration inside every generated program"
RULE = ("A case is a generated definition whose fields own drop trackers, with project_replace or with PinnedDrop, and a scenario of 2-3 steps on one pinned slot "
        "(replacements or Pin::set with any variant, final drop). Within the program every tracked drop and every user drop-code call of every step is made to panic "
        "once (all single faults, and pairs of faults in different steps up to 60 per pair), and after each fault the model checks: every tracker of the old value "
        "dropped exactly once and pinned ones at their old address, the replacement in place and intact, the slot usable, nothing leaked at the end. "
        "Non-trivial: at least one fault point exists.")


def helpers8(item):
    s = helpers(item, True)
    check = """
        let all = drops_since(n0);
        assert_eq!(sorted(ids(&all)), sorted(ids(&flat(&old))), "everything of the old value dropped exactly once");
        for p in pick(&old, PINS[ov], true) { assert!(all.contains(&p), "pinned tracker {} not dropped in place", p.0); }
        assert_eq!(base, addr(&**slot)); let st = snap(slot); is_variant(&st, v); post(&st, &st, &want(v, s));
        assert_eq!(ids(&flat(&trks(slot))), fresh_ids, "the slot owns the replacement");
        fired
    }
"""
    if item.args.get("project_replace"):
        s += """    fn rep(slot: &mut Pin<Box<C>>, v: usize, s: u64, k: u64) -> bool {
        let old = trks(slot); let ov = snap(slot).variant; let fresh = mk(v, s); let fresh_ids = ids(&flat(&trks(&fresh)));
        let base = addr(&**slot); let n0 = log_len(); arm(k);
        let res = catch(|| slot.as_mut().project_replace(fresh)); disarm();
        let fired = res.is_err();
        match res {
            Ok(r) => { dropped_exactly(n0, &pick(&old, PINS[ov], true), "by project_replace"); drop(r); }
            Err(id) => assert!(pick(&old, PINS[ov], true).iter().any(|x| x.0 == id), "the fault came from a pinned field"),
        }""" + check
    s += """    fn set(slot: &mut Pin<Box<C>>, v: usize, s: u64, k: u64) -> bool {
        let old = trks(slot); let ov = snap(slot).variant; let fresh = mk(v, s); let fresh_ids = ids(&flat(&trks(&fresh)));
        let base = addr(&**slot); let n0 = log_len(); arm(k);
        let fired = catch(|| slot.as_mut().set(fresh)).is_err(); disarm();""" + check
    s += """    fn fin(slot: Pin<Box<C>>, k: u64) -> bool {
        let old = trks(&slot); let ov = snap(&slot).variant; let n0 = log_len(); arm(k);
        let fired = catch(move || drop(slot)).is_err(); disarm();
        let all = drops_since(n0);
        assert_eq!(sorted(ids(&all)), sorted(ids(&flat(&old))), "everything dropped exactly once");
        for p in pick(&old, PINS[ov], true) { assert!(all.contains(&p), "pinned tracker {} not dropped in place", p.0); }
        no_leak();
        fired
    }
"""
    return s


def part(g, tier):
    pd = g.chance(1, 3)
    item = gen_item(g, frags=8, methods=8, replace=not pd, pinned_drop=pd, unpin="maybe", trackers=g.chance(7, 8), many=False)
    nv = len(item.variants)
    steps = []
    for _ in range(g.int(1, 2)):
        op = "set" if pd or g.chance(1, 6) else "rep"
        steps.append(f"{op}(&mut slot, {g.int(0, nv - 1)}, {g.int(1, 300)}, k[{len(steps)}])")
    v0, s0 = g.int(0, nv - 1), g.int(1, 50)
    trial = f"let mut slot: Pin<Box<C>> = Box::pin(mk({v0}, {s0})); let mut f = vec![];" + "".join(f" f.push({x});" for x in steps) + f" f.push(fin(slot, k[{len(steps)}])); f"
    src = USES + item.render()
    if pd:
        before = g.flip()
        src += pinned_drop_impl(item, "fault_point();" if before else "let _x = 1; fault_point();")
    src += helpers8(item) + f"    pub fn run() {{ enumerate_faults({len(steps) + 1}, &|k| {{ {trial} }}); }}\n"
    plain = USES_PLAIN + item.render(macro=False) + helpers(item, True) + "    pub fn run() {}\n"
    owns = any("Tr" in f.ty.conc for f in item.all_fields())
    return {"src": src, "plain": plain, "classes": item.classes | {f"steps:{len(steps) + 1}", "pinned_drop" if pd else "replace"}, "nontrivial": owns or pd}


def gen(g, tier):
    parts = [part(g, tier)] + [part(g, tier) for _ in range(K - 1) if g.chance(7, 8)]
    return batch_case(parts, "faults", "definitions with enumerated faults")
