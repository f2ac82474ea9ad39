#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single place where the property texts are edited)."""
import json, os
D = "pin-project-internal/src/pin_project/derive.rs"
A = "pin-project-internal/src/pin_project/args.rs"
AT = "pin-project-internal/src/pin_project/attribute.rs"
U = "pin-project-internal/src/utils.rs"
PD = "pin-project-internal/src/pinned_drop.rs"
L = "src/lib.rs"
IL = "pin-project-internal/src/lib.rs"
P = []
def p(id, title, st, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=["compile result (accepted/rejected) of a user program and its behaviour when run"], hook_needed=None)))

p("C01", "Projection exposes exactly the fields, in place, pinned iff marked #[pin]",
  "Calling project (project_ref) on a pinned value gives, for a struct or for the variant that is active, a projection with exactly the same field names or positions; a field marked #[pin] has exactly the type Pin<&mut T> (Pin<&T>), any other field exactly &mut T (&T), T being its declared type. Every reference points at that very field of the original value (same address, same contents), so writes through one are seen through any later access, and no call to project or project_ref moves, drops or alters anything.",
  ["programs","histories"], "every struct/enum definition the attribute accepts (any number, order, name and type of fields, any variant, generics, unsized tails) and every history of project, project_ref, writes and reads",
  "The tests project a handful of hand-written types once; the claim quantifies over all definitions and over histories of mixed projections and writes.",
  [D], [("visit_fields/visit_variants build pattern and body", D), ("make_proj_impl", D)])
p("C02", "By default a type is Unpin exactly when all its #[pin] field types are Unpin",
  "With neither UnsafeUnpin nor !Unpin given, for every instantiation of its parameters the annotated type implements Unpin if and only if the type of every #[pin] field, in every variant, implements Unpin. Fields that are not pinned, unused parameters, lifetimes and bounds have no influence, and generic code that assumes Unpin for exactly the pinned field types can use the type as Unpin, while code that assumes less cannot.",
  ["programs","inputs"], "every accepted definition with every assignment of #[pin] and every concrete or abstract instantiation of its generics",
  "tests/unpin.rs asserts a few fixed instantiations; soundness of every safe use of Pin::new and Pin::get_mut rests on the iff for all definitions.",
  [D, L], [("make_unpin_impl Default arm", D), ("AlwaysUnpin, PinnedFieldsOf", L)])
p("C03", "!Unpin types are never Unpin; UnsafeUnpin types are Unpin exactly as declared",
  "A type annotated with !Unpin does not implement Unpin for any instantiation, whatever its fields. A type annotated with UnsafeUnpin implements Unpin for exactly those instantiations for which the user's own unsafe UnsafeUnpin impl holds: never if there is none, and independent of its fields' own Unpin-ness.",
  ["programs","inputs"], "every accepted definition, every instantiation, every user-written UnsafeUnpin impl (blanket, conditional, concrete, missing)",
  "Only a few hand-picked instantiations are asserted in the tests.",
  [D, L], [("make_unpin_impl Unsafe and Negative arms", D), ("Wrapper, UnsafeUnpin forwarding", L)])
p("C04", "Safe code cannot add its own Unpin impl, nor an ineffective UnsafeUnpin impl",
  "In every mode, a program that writes its own implementation of Unpin for an annotated type (blanket, conditional, or for one instantiation) is rejected by the compiler. A program that implements UnsafeUnpin for a type that was not annotated with UnsafeUnpin is rejected too, as is implementing UnsafeUnpin without the unsafe keyword, while the same programs without the offending impl are accepted; an impl whose conditions no type can ever meet adds nothing and is not meant here.",
  ["programs"], "every accepted definition, every mode, every form of user-written impl",
  "The compile-fail tests are a fixed list (and do not run in this sandbox); an overlooked form of impl is unsoundness in safe code.",
  [D, L], [("make_unpin_impl: overlapping impls and dummy UnsafeUnpin impl", D), ("PinnedFieldsOf / Wrapper defeat coherence disjointness", L)])
p("C05", "Own Drop impls and PinnedDrop argument/impl mismatches are rejected",
  "For every annotated type a program in which the user implements Drop directly is rejected, with or without the PinnedDrop argument. The PinnedDrop argument and exactly one #[pinned_drop] impl covering every instantiation of the type must come together: argument without impl, impl without argument, two impls, or an impl for fewer instantiations than the type allows are all rejected, and the matching combination is accepted.",
  ["programs"], "every accepted definition (struct, enum, generics, bounds), every combination of Drop / PinnedDrop / argument and every way the impl can be narrower than the type",
  "The compile-fail tests cover a few monomorphic or single-parameter types and are not run here.",
  [D, PD], [("make_drop_impl: MustNotImplDrop trait, dummy PinnedDrop impl, generated Drop", D)])
p("C06", "repr(packed) types are rejected however the packing is written or hidden",
  "No program is accepted in which an annotated struct ends up with a packed layout that leaves a field under-aligned, whether the packed representation is written as packed or packed(N), combined with other representations, placed before or after the attribute, behind cfg_attr, produced by a macro_rules macro, or added or moved by another attribute macro. A packed representation visible on the type is rejected even when every field has alignment 1, and the same type with any non-packed representation is accepted.",
  ["programs","configurations"], "every spelling, order and origin of the representation attribute on every struct/enum definition",
  "The compile-fail tests list a few spellings and are not run here.",
  [D], [("ensure_not_packed: attribute scan and unaligned-reference check", D)])
p("C07", "project_replace moves out unpinned, drops pinned in place, installs replacement",
  "project_replace returns every unpinned field of the old value, unchanged, in the matching position, with PhantomData of the field type for each pinned field, and leaves the replacement in the very same place. The old pinned fields are each dropped exactly once, at their old address and in declaration order, before the call returns; nothing else is dropped or duplicated, over any sequence of projections, replacements and final drops.",
  ["programs","histories"], "every accepted definition with project_replace and every history of construct, project, project_replace (any variant to any variant) and drop",
  "tests/project_replace-style tests use a few types and one replacement; drop order, addresses and exactly-once need a model over all histories.",
  [D, L], [("proj_own_body", D), ("make_proj_impl project_replace", D), ("UnsafeDropInPlaceGuard, UnsafeOverwriteGuard", L)])
p("C08", "A panicking destructor during replacement or drop leaks and double-drops nothing",
  "If the destructor of any field panics during project_replace or while a pinned value is dropped, every other field of the old value (pinned or not) is still dropped exactly once, the replacement ends up in place, intact and owned exactly once, and the pinned slot stays fully usable afterwards. The same holds when the user's pinned drop code itself panics: all fields are still dropped exactly once.",
  ["programs","crash_points","fault_sequences"], "every accepted definition, every position in the history and every destructor as the one that panics",
  "Tests panic in one or two fixed destructors; the claim is over every fault point of every definition.",
  [D, L], [("guards run on unwind", L), ("scoped guards in proj_own_body", D)])
p("C09", "PinnedDrop runs exactly once, first, in place; otherwise drop is unchanged",
  "With PinnedDrop, however a value is disposed of (scope end, box, collection, assignment, Pin::set, unwinding), the user's drop code runs exactly once, before any field is dropped, on the value at its final pinned address with all fields intact, and the fields are then dropped once each in declaration order. Without PinnedDrop the type has no destructor of its own: it needs dropping only if a field does, its fields can be moved out by pattern, and its drop order is that of the plain type.",
  ["programs","histories"], "every accepted definition and every way of disposing of a value",
  "Tests drop two or three values in one way each.",
  [D, PD], [("make_drop_impl", D), ("expand_impl", PD)])
p("C10", "The body of a pinned drop behaves like an ordinary method with the same body",
  "Any body that compiles as an ordinary method taking self: Pin<&mut Self> on the type compiles as the body of a #[pinned_drop] impl and has the same effects: self and Self (in expressions, patterns, types, paths, closures, macro arguments and local macro definitions) mean the value and its type, nested items keep their own self and Self, and module-relative paths are unaffected.",
  ["programs"], "every method body built from the supported expression, pattern, type, path, closure, nested-item and macro forms, on every generic or plain struct or enum",
  "tests/pinned_drop.rs has a few fixed bodies; the rewriting of self/Self is syntactic and must be right for every body.",
  [PD, U], [("expand_impl", PD), ("ReplaceReceiver", U)])
p("C11", "Malformed pinned-drop impls are rejected and pinned drop is not safely callable",
  "Any #[pinned_drop] use other than a non-unsafe impl of PinnedDrop for the type with exactly one method, fn drop(self: Pin<&mut Self>) returning unit, and an attribute without arguments, is rejected by the compiler. Safe code cannot run a value's pinned drop code by itself: no name reachable from the body or from elsewhere lets a program call it without unsafe.",
  ["programs"], "every deviation in attribute arguments, item kind, trait path, self type, unsafety, method name, receiver, parameters, return type, qualifiers, extra items, and every attempted safe call",
  "The compile-fail tests are a fixed list and are not run here.",
  [PD, L], [("validate_impl, validate_sig", PD), ("expand_impl shadows the inner function", PD), ("unsafe PinnedDrop::drop", L)])
p("C12", "Projection items are as visible as the type, and never beyond its crate",
  "Projection methods and projection types have the visibility of the annotated type, except that they are limited to the current crate when the type is pub; each field of a projection has the visibility of the original field. Code that could not name the type or access the field therefore cannot reach it through a projection, and code inside those scopes can.",
  ["programs","configurations"], "every combination of type, field and module visibility, every accessing module and crate",
  "Tests check one or two visibilities; privacy is a relation between every pair of definition and use sites.",
  [U, D], [("determine_visibility", U), ("field visibilities copied in visit_fields", D)])
p("C13", "Exactly the documented argument lists are accepted, in any order",
  "The attribute accepts exactly the documented argument lists: project = Name, project_ref = Name, project_replace or project_replace = Name, PinnedDrop, and UnsafeUnpin or !Unpin, comma separated with an optional trailing comma, each at most once; PinnedDrop excludes project_replace, UnsafeUnpin excludes !Unpin, names must be distinct from each other and from the type, and on enums project_replace needs a name. Every other argument list is rejected, and the order of arguments never changes the result.",
  ["inputs","programs"], "every sequence of argument tokens, on structs and enums",
  "The compile-fail tests list some bad lists and are not run here; acceptance is a language over all sequences and orders.",
  [A, D], [("Args::parse", A), ("name clash check in Context::new, parse_enum", D)])
p("C14", "Exactly the requested projection methods and named types exist",
  "A struct has project and project_ref always and project_replace only if requested; an enum has each of the three only if its projection type is named. A projection type is usable under exactly the name given for it (with the extra lifetime first for project and project_ref, and the type's own parameters for project_replace) and is what the method returns; nothing that was not requested occupies a name in the user's scope or on the type.",
  ["programs","configurations"], "every subset and naming of the projection arguments on every struct/enum definition",
  "Tests use a few fixed argument sets and never check absence.",
  [D], [("make_proj_impl", D), ("GenerateTokens exposed/scoped split", D)])
p("C15", "Unsupported targets and misplaced, duplicate or argumented #[pin] are rejected",
  "The attribute is accepted only on structs with at least one field and on enums with at least one variant that has a field and no explicit discriminants; every other item is rejected. A #[pin] marker is accepted only on a field, at most once and without arguments: on the type, on a variant, repeated, with any argument, or on a repeated #[pin_project], the program is rejected.",
  ["programs"], "every item kind and shape and every placement and spelling of the markers",
  "The compile-fail tests are a fixed list and are not run here; a marker silently ignored or misread changes pinning guarantees.",
  [D, AT, A, U], [("Input::parse", AT), ("validate_struct, validate_enum", D), ("position_exact", U), ("parse_args duplicate check", A)])
p("C16", "Projections borrow for exactly the pinned borrow, neither shorter nor longer",
  "The references in a projection live exactly as long as the pinned reference it was made from: they may be kept, returned and used for the whole of that lifetime, independently of each other and for unsized or generic types, also when the type's own parameters include references and lifetimes of any name. A program in which one is used after that borrow ends, overlaps a conflicting access to the value, survives the value, or is stretched to a longer lifetime is rejected.",
  ["programs"], "every definition (including lifetime parameters of any name) and every arrangement of borrows and uses",
  "Tests only contain accepted programs for a few types; the rejected side is never sampled.",
  [D, U], [("determine_lifetime_name, insert_lifetime_and_bound", U), ("make_proj_impl signatures", D)])
p("C17", "The attribute leaves the type itself unchanged and accepts every valid type",
  "Any valid struct or enum definition in the supported shapes stays valid with the attribute added, whatever generics, bounds, where clauses, defaults, const and lifetime parameters (also with unusual names), higher-ranked types, Self references or field types it uses. The annotated type then has the same size, alignment, field offsets, auto traits, derives and other attributes, construction and pattern-matching behaviour as the plain definition.",
  ["programs"], "every valid struct/enum definition in the supported shapes, with and without the attribute",
  "Tests are a list of definitions that once failed; each new shape of generics or type is untested.",
  [D, U, AT], [("parse_attribute re-emits the item", AT), ("generic handling in Context::new and make_*_impl", D), ("determine_lifetime_name", U)])
p("C18", "Projection and Unpin follow the item after cfg and other attribute macros",
  "Fields, variants and #[pin] markers that are removed by cfg or introduced by cfg_attr, or added, removed or changed by another attribute macro applied to the same item, count as if the final item had been written directly. The resulting projections, Unpin behaviour, drop behaviour and acceptance are those of the directly written item.",
  ["programs","configurations"], "every placement of cfg/cfg_attr predicates (true or false) on fields, variants, markers and parameters, and every item transformation by another macro",
  "Tests have one fixed cfg layout and three auxiliary macros.",
  [AT, D, A], [("two-stage expansion: attribute then derive", AT), ("parse_args reading the passed arguments", A)])
p("C19", "Generated code works in any surrounding scope, edition and lint setting",
  "The attributes behave the same whatever the surrounding program looks like: user items, macros, type parameters, fields or modules that shadow names of the standard library or prelude, no_std, no_implicit_prelude, any edition, use inside functions or macro-generated items, and forbid(unsafe_code). They never trigger a warning in user code that the plain definition would not, even with strict lints denied.",
  ["programs","configurations"], "every definition combined with every hostile surrounding scope, edition, crate attribute and strict lint level",
  "Tests contain a fixed lint crate and one hostile type; every generated path is a potential capture.",
  [D, PD, AT], [("absolute ::pin_project paths and private const scope", D), ("allowed lints", D), ("call-site unsafe tokens", D)])
p("C20", "The macros never panic: bad input gives a compile error, not a macro crash",
  "For every item and every argument tokens that the compiler itself can parse, the attribute macros either expand successfully or report an ordinary compile error. They never panic, hang or abort the compiler.",
  ["inputs","programs"], "every syntactically valid item, impl block and argument token tree handed to the macros",
  "Tests only feed a fixed set of bad inputs (not run here); internal assumptions must hold for all token trees.",
  [D, PD, A, AT, U], [("bail! error paths", PD), ("unwrap/unreachable sites", A)])
p("C21", "Safe programs using the macros have no undefined behaviour",
  "A program that uses the macros without writing unsafe code itself performs no undefined behaviour: no invalid, dangling, misaligned or aliasing-violating access, no double drop and no use of dropped memory, over any history of construction, projection, writes, replacement, panics and drops.",
  ["programs","histories","fault_sequences"], "every safe program over the public macros: any definition, history and panic point",
  "The tests run natively, where undefined behaviour is usually invisible.",
  [D, L], [("get_unchecked_mut/new_unchecked in make_proj_impl", D), ("guards", L)])
p("C22", "Expansion of an item is repeatable and independent of its neighbours",
  "The macros keep no memory: the code an annotated item (with its pinned drop impl) expands to depends only on that item. Compiling the same program again gives the same expansion, and adding, removing or reordering other annotated items in the crate or in the same scope, whatever their names, changes neither that expansion nor the item's projections, Unpin behaviour or drops.",
  ["programs","histories"], "every set and order of annotated items in a crate and every repetition of a compilation",
  "Tests compile one fixed crate once; order effects, leaked state between expansions and nondeterministic output cannot be seen.",
  [D, PD, U, AT], [("expansion is a pure function of its input", D), ("determine_lifetime_name", U)])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
