//! Prelude linked by generated programs: deterministic value makers, fingerprints, drop trackers, fault
//! injection and compile-time probes.  Nothing here depends on how the macros are implemented.
#![allow(clippy::all)]
use std::cell::{Cell, RefCell};
use std::marker::{PhantomData, PhantomPinned};
use std::pin::Pin;

// ---------------------------------------------------------------- tracker log
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ev {
    pub kind: &'static str,
    pub id: u64,
    pub addr: usize,
}
thread_local! {
    static LOG: RefCell<Vec<Ev>> = RefCell::new(Vec::new());
    static NEXT: Cell<u64> = Cell::new(1);
    static LIVE: RefCell<Vec<u64>> = RefCell::new(Vec::new());
    static ERR: RefCell<Vec<String>> = RefCell::new(Vec::new());
    /// Fault injection: the n-th tracked drop from now panics (0 = disarmed).
    static ARM: Cell<u64> = Cell::new(0);
    static ARM_ID: Cell<u64> = Cell::new(0);
    static NOTES: RefCell<Vec<String>> = RefCell::new(Vec::new());
}
pub fn reset() {
    LOG.with(|l| l.borrow_mut().clear());
    LIVE.with(|l| l.borrow_mut().clear());
    ERR.with(|l| l.borrow_mut().clear());
    NOTES.with(|l| l.borrow_mut().clear());
    NEXT.with(|n| n.set(1));
    ARM.with(|a| a.set(0));
    ARM_ID.with(|a| a.set(0));
    HOOK.with(|a| a.set(None));
    RECS.with(|a| a.borrow_mut().clear());
}
pub fn note(s: impl Into<String>) {
    let s = s.into();
    NOTES.with(|l| l.borrow_mut().push(s));
}
pub fn take_notes() -> Vec<String> {
    NOTES.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
pub fn take_log() -> Vec<Ev> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
pub fn push_ev(kind: &'static str, id: u64, addr: usize) {
    LOG.with(|l| l.borrow_mut().push(Ev { kind, id, addr }));
}
pub fn log_len() -> usize {
    LOG.with(|l| l.borrow().len())
}
pub fn live() -> Vec<u64> {
    let mut v = LIVE.with(|l| l.borrow().clone());
    v.sort();
    v
}
pub fn errors() -> Vec<String> {
    ERR.with(|l| l.borrow().clone())
}
pub fn arm(n: u64) {
    ARM.with(|a| a.set(n));
}
pub fn arm_id(id: u64) {
    ARM_ID.with(|a| a.set(id));
}
pub fn disarm() {
    ARM.with(|a| a.set(0));
    ARM_ID.with(|a| a.set(0));
}
fn born() -> u64 {
    let id = NEXT.with(|n| {
        let v = n.get();
        n.set(v + 1);
        v
    });
    LIVE.with(|l| l.borrow_mut().push(id));
    id
}
fn died(id: u64, addr: usize) {
    // May run while the thread-local state is being torn down: ignore then.
    let ok = LIVE.try_with(|l| {
        let mut l = l.borrow_mut();
        match l.iter().position(|x| *x == id) {
            Some(p) => {
                l.swap_remove(p);
                true
            }
            None => false,
        }
    });
    let ok = match ok {
        Ok(b) => b,
        Err(_) => return,
    };
    if !ok {
        let _ = ERR.try_with(|e| e.borrow_mut().push(format!("tracker {id} dropped while not alive")));
    }
    let _ = LOG.try_with(|l| l.borrow_mut().push(Ev { kind: "drop", id, addr }));
    let fire = ARM.with(|a| {
        let n = a.get();
        if n > 0 {
            a.set(n - 1);
        }
        n == 1
    }) || ARM_ID.with(|a| {
        let hit = a.get() == id && id != 0;
        if hit {
            a.set(0);
        }
        hit
    });
    if fire {
        std::panic::panic_any(Injected(id));
    }
}
/// A fault point outside of any tracker (user drop code).
pub fn fault_point() {
    let fire = ARM.with(|a| {
        let n = a.get();
        if n > 0 {
            a.set(n - 1);
        }
        n == 1
    });
    if fire {
        std::panic::panic_any(Injected(0));
    }
}
/// Enumerates fault points: `trial(k)` runs the scenario with the k[i]-th tracked drop of its i-th step panicking (0 = no
/// fault) and says which faults fired. All single faults, then pairs (strided to a bound) are tried.
pub fn enumerate_faults(steps: usize, trial: &dyn Fn(&[u64]) -> Vec<bool>) {
    let mut runs = 1u64;
    let mut faults = 0u64;
    trial(&vec![0; steps]);
    let mut n = vec![0u64; steps];
    for i in 0..steps {
        loop {
            let mut k = vec![0; steps];
            k[i] = n[i] + 1;
            runs += 1;
            if !trial(&k)[i] {
                break;
            }
            n[i] += 1;
            faults += 1;
            if cfg!(miri) && n[i] >= 2 {
                break;
            }
            assert!(n[i] < 1000, "fault points do not end");
        }
    }
    for i in 0..steps {
        for j in i + 1..steps {
            let total = n[i] * n[j];
            let stride = if cfg!(miri) { total + 1 } else { total / 60 + 1 };
            let mut c = 0;
            while c < total {
                let mut k = vec![0; steps];
                k[i] = c / n[j] + 1;
                k[j] = c % n[j] + 1;
                let f = trial(&k);
                runs += 1;
                faults += f.iter().filter(|x| **x).count() as u64;
                c += stride;
            }
        }
    }
    println!("STAT fault_runs {runs}");
    println!("STAT faults_injected {faults}");
}
type Rec = (usize, Vec<String>, Vec<(u64, usize)>);
type Hook = fn(usize) -> (Vec<String>, Vec<(u64, usize)>);
thread_local! {
    static HOOK: Cell<Option<Hook>> = Cell::new(None);
    static RECS: RefCell<Vec<Rec>> = RefCell::new(Vec::new());
}
/// `f(addr)` looks at the value at `addr` while the user's drop code runs: contents and owned trackers.
pub fn set_hook(f: Hook) {
    HOOK.with(|h| h.set(Some(f)));
}
/// Called by generated pinned drop code.
pub fn user_drop<T: ?Sized>(x: &T) {
    let a = addr(x);
    push_ev("user", 0, a);
    let (c, t) = HOOK.with(|h| h.get()).map(|f| f(a)).unwrap_or_default();
    RECS.with(|r| r.borrow_mut().push((a, c, t)));
}
/// Runs `f` (which may make and drop scratch values) without leaving a trace in the records or the log.
pub fn keep<R>(f: impl FnOnce() -> R) -> R {
    let recs = RECS.with(|r| std::mem::take(&mut *r.borrow_mut()));
    let hook = HOOK.with(|h| h.take());
    let n = log_len();
    let r = f();
    LOG.with(|l| l.borrow_mut().truncate(n));
    HOOK.with(|h| h.set(hook));
    RECS.with(|x| *x.borrow_mut() = recs);
    r
}
pub fn user_addrs() -> Vec<usize> {
    RECS.with(|r| r.borrow().iter().map(|x| x.0).collect())
}
/// Since n0, exactly these values were disposed of, in this order: for each, the user's drop code ran once, first, with the
/// value's contents intact, and then its trackers were dropped in order and in place. Returns where the user code ran.
#[inline(never)]
pub fn check_groups(n0: usize, want: &[Vec<String>]) -> Vec<usize> {
    let recs = RECS.with(|r| std::mem::take(&mut *r.borrow_mut()));
    let evs: Vec<Ev> = LOG.with(|l| l.borrow()[n0..].to_vec());
    let mut exp = Vec::new();
    for (a, _, t) in &recs {
        exp.push(Ev { kind: "user", id: 0, addr: *a });
        exp.extend(t.iter().map(|x| Ev { kind: "drop", id: x.0, addr: x.1 }));
    }
    assert_eq!(evs, exp, "user drop code once and first, then the fields in order");
    assert_eq!(recs.iter().map(|r| r.1.clone()).collect::<Vec<_>>(), want, "contents seen by the user drop code");
    recs.iter().map(|r| r.0).collect()
}
pub struct Injected(pub u64);

/// Runs `f`; returns Some(id) when the injected fault of tracker `id` unwound out of it.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, u64> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => match e.downcast::<Injected>() {
            Ok(i) => Err(i.0),
            Err(e) => std::panic::resume_unwind(e),
        },
    }
}

// ---------------------------------------------------------------- fingerprints
/// Fingerprint of a value, and the trackers it owns in the order in which dropping it drops them.
pub trait Fp {
    fn fp(&self) -> String;
    fn trk(&self, _out: &mut Vec<(u64, usize)>) {}
}
/// Deterministic construction from a seed.
pub trait Mk: Fp + Sized {
    fn mk(s: u64) -> Self;
}
pub fn mkv<T: Mk>(s: u64) -> T {
    T::mk(s)
}
pub fn fpv<T: Mk>(s: u64) -> String {
    // A scratch value: its trackers are not to show up in the log or in the fault counters.
    let (armed, armed_id) = (ARM.with(|a| a.replace(0)), ARM_ID.with(|a| a.replace(0)));
    let n = log_len();
    let r = T::mk(s).fp();
    LOG.with(|l| l.borrow_mut().truncate(n));
    ARM.with(|a| a.set(armed));
    ARM_ID.with(|a| a.set(armed_id));
    r
}
pub fn fp_of<T: Fp + ?Sized>(t: &T) -> String {
    t.fp()
}
pub fn trk_of<T: Fp + ?Sized>(t: &T) -> Vec<(u64, usize)> {
    let mut v = Vec::new();
    t.trk(&mut v);
    v
}

/// Tracker, Unpin.
pub struct Tr {
    id: u64,
    s: u64,
}
impl Drop for Tr {
    fn drop(&mut self) {
        died(self.id, self as *const _ as usize)
    }
}
impl Fp for Tr {
    fn fp(&self) -> String {
        format!("Tr{}", self.s)
    }
    fn trk(&self, out: &mut Vec<(u64, usize)>) {
        out.push((self.id, self as *const _ as usize))
    }
}
impl Mk for Tr {
    fn mk(s: u64) -> Self {
        Tr { id: born(), s }
    }
}
impl Tr {
    pub fn id(&self) -> u64 {
        self.id
    }
    pub fn seed(&self) -> u64 {
        self.s
    }
}
/// Tracker, !Unpin.
pub struct TrP {
    id: u64,
    s: u64,
    _p: PhantomPinned,
}
impl Drop for TrP {
    fn drop(&mut self) {
        died(self.id, self as *const _ as usize)
    }
}
impl Fp for TrP {
    fn fp(&self) -> String {
        format!("TrP{}", self.s)
    }
    fn trk(&self, out: &mut Vec<(u64, usize)>) {
        out.push((self.id, self as *const _ as usize))
    }
}
impl Mk for TrP {
    fn mk(s: u64) -> Self {
        TrP { id: born(), s, _p: PhantomPinned }
    }
}
impl TrP {
    pub fn id(&self) -> u64 {
        self.id
    }
}
/// Zero-sized trackers (all instances of a type share one identity) and a large one.
macro_rules! ztr { ($($t:ident $id:expr, $(#[$a:meta])* ($($b:tt)*) $mk:expr;)*) => {$(
    $(#[$a])*
    pub struct $t($($b)*);
    impl Drop for $t { fn drop(&mut self) { died($id, self as *const _ as usize) } }
    impl Fp for $t {
        fn fp(&self) -> String { stringify!($t).into() }
        fn trk(&self, out: &mut Vec<(u64, usize)>) { out.push(($id, self as *const _ as usize)) }
    }
    impl Mk for $t { fn mk(_: u64) -> Self { LIVE.with(|l| l.borrow_mut().push($id)); $mk } }
    impl Assoc for $t { type Ty = TrP; type Other = u8; }
)*} }
ztr! {
    ZTr 1 << 40, () ZTr();
    ZTrP 1 << 41, (PhantomPinned) ZTrP(PhantomPinned);
    ZTrA 1 << 42, #[repr(align(32))] () ZTrA();
    BTr 1 << 43, ([u64; 80]) BTr([7; 80]);
    STr1 1 << 44, (u8) STr1(7);
    STr4 1 << 45, (u32) STr4(7);
    STr8 1 << 46, (u64) STr8(7);
    STrP1 1 << 47, (u8, PhantomPinned) STrP1(7, PhantomPinned);
    STrP4 1 << 48, (u32, PhantomPinned) STrP4(7, PhantomPinned);
    STrP8 1 << 49, (u64, PhantomPinned) STrP8(7, PhantomPinned);
    BTrP 1 << 50, ([u64; 80], PhantomPinned) BTrP([7; 80], PhantomPinned);
}
/// Over-aligned data.
#[repr(align(16))]
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Al16(pub u64);
#[repr(align(64))]
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Al64(pub u8);
macro_rules! leaf {
    ($($t:ty, $s:ident => $mk:expr;)*) => {$(
        impl Fp for $t { fn fp(&self) -> String { format!("{}:{:?}", stringify!($t), self) } }
        impl Mk for $t { fn mk($s: u64) -> Self { $mk } }
    )*};
}
leaf! {
    u8, s => (s % 251) as u8; u16, s => s as u16; u32, s => (s as u32).wrapping_mul(2654435761); u64, s => s; u128, s => (s as u128) << 40;
    usize, s => s as usize; i8, s => (s % 120) as i8 - 60; i16, s => s as i16; i32, s => -(s as i32); i64, s => !(s as i64); isize, s => s as isize;
    bool, s => s % 2 == 1; char, s => char::from(b'a' + (s % 26) as u8); String, s => format!("s{s}");
    (), s => { let _ = s; }; f64, s => s as f64 / 4.0; f32, s => s as f32 / 2.0;
    Al16, s => Al16(s); Al64, s => Al64((s % 250) as u8); PhantomPinned, s => { let _ = s; PhantomPinned };
    std::num::NonZeroU8, s => std::num::NonZeroU8::new((s % 200) as u8 + 1).unwrap();
    std::cmp::Ordering, s => if s % 2 == 0 { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater };
}
impl Fp for str {
    fn fp(&self) -> String {
        format!("str:{self}")
    }
}
impl<T: Fp> Fp for [T] {
    fn fp(&self) -> String {
        format!("[{}]", self.iter().map(|x| x.fp()).collect::<Vec<_>>().join(","))
    }
    fn trk(&self, out: &mut Vec<(u64, usize)>) {
        for x in self {
            x.trk(out)
        }
    }
}
impl<T: Fp, const N: usize> Fp for [T; N] {
    fn fp(&self) -> String {
        self[..].fp()
    }
    fn trk(&self, out: &mut Vec<(u64, usize)>) {
        self[..].trk(out)
    }
}
impl<T: Mk, const N: usize> Mk for [T; N] {
    fn mk(s: u64) -> Self {
        let mut k = s;
        std::array::from_fn(|_| {
            k += 1000;
            T::mk(k)
        })
    }
}
impl<T: Fp> Fp for Option<T> {
    fn fp(&self) -> String {
        match self {
            None => "None".into(),
            Some(x) => format!("Some({})", x.fp()),
        }
    }
    fn trk(&self, out: &mut Vec<(u64, usize)>) {
        if let Some(x) = self {
            x.trk(out)
        }
    }
}
impl<T: Mk> Mk for Option<T> {
    fn mk(s: u64) -> Self {
        if s % 5 == 0 { None } else { Some(T::mk(s + 1)) }
    }
}
impl<T: Fp, U: Fp> Fp for Result<T, U> {
    fn fp(&self) -> String {
        match self {
            Ok(x) => format!("Ok({})", x.fp()),
            Err(x) => format!("Err({})", x.fp()),
        }
    }
    fn trk(&self, out: &mut Vec<(u64, usize)>) {
        match self {
            Ok(x) => x.trk(out),
            Err(x) => x.trk(out),
        }
    }
}
impl<T: Mk, U: Mk> Mk for Result<T, U> {
    fn mk(s: u64) -> Self {
        if s % 2 == 0 { Ok(T::mk(s + 1)) } else { Err(U::mk(s + 2)) }
    }
}
impl<T: Fp + ?Sized> Fp for Box<T> {
    fn fp(&self) -> String {
        format!("Box({})", (**self).fp())
    }
    fn trk(&self, out: &mut Vec<(u64, usize)>) {
        (**self).trk(out)
    }
}
impl<T: Mk> Mk for Box<T> {
    fn mk(s: u64) -> Self {
        Box::new(T::mk(s + 3))
    }
}
macro_rules! dynbox { ($($t:ty),*) => {$( impl Mk for Box<$t> { fn mk(s: u64) -> Self { if s % 2 == 0 { Box::new(u32::mk(s)) } else { Box::new(Tr::mk(s)) } } } )*} }
dynbox!(dyn Fp, dyn Fp + Send, dyn Fp + Send + Sync);
impl<T: Fp + ?Sized> Fp for Pin<Box<T>> {
    fn fp(&self) -> String {
        format!("PinBox({})", (**self).fp())
    }
    fn trk(&self, out: &mut Vec<(u64, usize)>) {
        (**self).trk(out)
    }
}
impl<T: Mk> Mk for Pin<Box<T>> {
    fn mk(s: u64) -> Self {
        Box::pin(T::mk(s + 3))
    }
}
impl<T: Fp> Fp for Vec<T> {
    fn fp(&self) -> String {
        format!("vec{}", self[..].fp())
    }
    fn trk(&self, out: &mut Vec<(u64, usize)>) {
        self[..].trk(out)
    }
}
impl<T: Mk> Mk for Vec<T> {
    fn mk(s: u64) -> Self {
        (0..s % 4).map(|i| T::mk(s + 100 * i)).collect()
    }
}
impl<T: Fp> Fp for RefCell<T> {
    fn fp(&self) -> String {
        format!("RefCell({})", self.borrow().fp())
    }
    fn trk(&self, out: &mut Vec<(u64, usize)>) {
        self.borrow().trk(out)
    }
}
impl<T: Mk> Mk for RefCell<T> {
    fn mk(s: u64) -> Self {
        RefCell::new(T::mk(s + 5))
    }
}
impl<T: ?Sized> Fp for PhantomData<T> {
    fn fp(&self) -> String {
        "PhantomData".into()
    }
}
impl<T: ?Sized> Mk for PhantomData<T> {
    fn mk(_: u64) -> Self {
        PhantomData
    }
}
impl<T: Fp + ?Sized> Fp for &T {
    fn fp(&self) -> String {
        format!("&{}", (**self).fp())
    }
}
impl Mk for &'static str {
    fn mk(s: u64) -> Self {
        ["", "x", "yy", "zzz"][(s % 4) as usize]
    }
}
/// Leaked plain data behind references: never trackers, so nothing shows up as leaked.
pub trait Plain: Mk {}
macro_rules! plain { ($($t:ty),*) => {$( impl Plain for $t {} impl Mk for &'static $t { fn mk(s: u64) -> Self { Box::leak(Box::new(<$t>::mk(s))) } } impl Mk for &'static mut $t { fn mk(s: u64) -> Self { Box::leak(Box::new(<$t>::mk(s))) } } )*} }
plain!(u8, u16, u32, u64, i32, bool, String, (), char, PhantomPinned, Al16);
impl<T: Fp + ?Sized> Fp for &mut T {
    fn fp(&self) -> String {
        format!("&mut {}", (**self).fp())
    }
}
macro_rules! tup { ($($n:tt $t:ident),*) => {
    impl<$($t: Fp),*> Fp for ($($t,)*) {
        fn fp(&self) -> String { let v: Vec<String> = vec![$(self.$n.fp()),*]; format!("({})", v.join(",")) }
        fn trk(&self, out: &mut Vec<(u64, usize)>) { $(self.$n.trk(out);)* }
    }
    impl<$($t: Mk),*> Mk for ($($t,)*) { fn mk(s: u64) -> Self { ($($t::mk(s + 7 * ($n + 1)),)*) } }
} }
tup!(0 A);
tup!(0 A, 1 B);
tup!(0 A, 1 B, 2 C);
fn fn_a(x: u32) -> u32 {
    x.wrapping_add(1)
}
fn fn_b(x: u32) -> u32 {
    x ^ 0x55
}
impl Fp for fn(u32) -> u32 {
    fn fp(&self) -> String {
        format!("fn:{}", self(10))
    }
}
impl Mk for fn(u32) -> u32 {
    fn mk(s: u64) -> Self {
        if s % 2 == 0 { fn_a } else { fn_b }
    }
}
fn fn_r1(x: &u8) -> &u8 {
    x
}
fn fn_r2(_: &u8) -> &u8 {
    &7
}
impl Fp for for<'x> fn(&'x u8) -> &'x u8 {
    fn fp(&self) -> String {
        format!("fnr:{}", self(&1))
    }
}
impl Mk for for<'x> fn(&'x u8) -> &'x u8 {
    fn mk(s: u64) -> Self {
        if s % 2 == 0 { fn_r1 } else { fn_r2 }
    }
}
/// Recursive link: carries any type without requiring anything of it.
pub struct Link<T: ?Sized>(pub Option<Box<T>>);
impl<T: ?Sized> Fp for Link<T> {
    fn fp(&self) -> String {
        format!("Link{}", self.0.is_some())
    }
}
impl<T: ?Sized> Mk for Link<T> {
    fn mk(_: u64) -> Self {
        Link(None)
    }
}
/// Associated types.
pub trait Assoc {
    type Ty;
    type Other;
}
macro_rules! assoc { ($($t:ty => $a:ty, $b:ty;)*) => {$( impl Assoc for $t { type Ty = $a; type Other = $b; } )*} }
assoc! {
    u8 => Tr, TrP; Tr => TrP, u8; TrP => u8, Tr; String => Tr, Tr; u32 => TrP, TrP; () => u16, bool; bool => PhantomPinned, ();
    PhantomPinned => String, TrP; Al16 => TrP, u8; Option<Tr> => Tr, TrP; Option<TrP> => u8, Tr; (Tr, TrP) => TrP, Tr; Vec<Tr> => u8, TrP; Box<TrP> => TrP, u8;
}
/// Holds of everything; used as a bound that is always satisfied.
pub trait Any1 {}
impl<T: ?Sized> Any1 for T {}
pub trait Any2<T: ?Sized> {}
impl<T: ?Sized, U: ?Sized> Any2<U> for T {}
pub trait Conv<T> {
    type Out;
}
impl<T, U> Conv<U> for T {
    type Out = U;
}
/// Type-level identity, so that `<T as Id>::Is` is another spelling of `T`.
pub trait Id {
    type Is: ?Sized;
}
impl<T: ?Sized> Id for T {
    type Is = T;
}
pub type Alias<T> = T;
pub mod ma { pub use super::Tr as Node; }
pub mod mb { pub use super::TrP as Node; }
#[macro_export]
macro_rules! ty_of {
    ($($t:tt)*) => { $($t)* };
}

// ---------------------------------------------------------------- helpers used by generated checks
pub fn addr<T: ?Sized>(t: &T) -> usize {
    t as *const T as *const () as usize
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Snap {
    pub variant: usize,
    pub fields: Vec<(usize, String)>,
}
pub fn sn<T: Fp + ?Sized>(t: &T) -> (usize, String) {
    (addr(t), t.fp())
}
#[inline(never)]
fn ck_(got: (usize, String), i: usize, st: &Snap, exp: &[String]) {
    assert_eq!(got, (st.fields[i].0, exp[i].clone()), "address or contents of field {i}");
}
/// A projected field: same address as the field itself, contents as the model says.
pub fn ck<T: Fp + ?Sized>(x: &T, i: usize, st: &Snap, exp: &[String]) {
    ck_(sn(x), i, st, exp)
}
/// The whole value after an operation: nothing moved, every field as the model says.
#[inline(never)]
pub fn post(now: &Snap, st: &Snap, exp: &[String]) {
    assert_eq!(now.variant, st.variant, "variant changed");
    let a = |s: &Snap| s.fields.iter().map(|x| x.0).collect::<Vec<_>>();
    assert_eq!(a(now), a(st), "field moved");
    assert_eq!(now.fields.iter().map(|x| x.1.clone()).collect::<Vec<_>>(), exp, "contents");
}
/// Contents of a scratch value: leaves no trace in the log, the fault counters or the ids.
#[inline(never)]
pub fn contents(f: &dyn Fn() -> Snap) -> Vec<String> {
    let (armed, armed_id) = (ARM.with(|a| a.replace(0)), ARM_ID.with(|a| a.replace(0)));
    let n = log_len();
    let r = f().fields.into_iter().map(|x| x.1).collect();
    LOG.with(|l| l.borrow_mut().truncate(n));
    ARM.with(|a| a.set(armed));
    ARM_ID.with(|a| a.set(armed_id));
    r
}
#[inline(never)]
pub fn quiet_since(n0: usize) {
    assert_eq!(log_len(), n0, "a projection dropped something");
}
#[inline(never)]
pub fn is_variant(st: &Snap, v: usize) {
    assert_eq!(st.variant, v, "wrong variant projected");
}
#[inline(never)]
pub fn no_leak() {
    assert!(live().is_empty(), "leaked trackers {:?}", live());
}
/// Everything dropped since the log had n0 entries.
pub fn drops_since(n0: usize) -> Vec<(u64, usize)> {
    LOG.with(|l| l.borrow()[n0..].iter().filter(|e| e.kind == "drop").map(|e| (e.id, e.addr)).collect())
}
/// Exactly these trackers were dropped since n0, at these addresses and in this order.
#[inline(never)]
pub fn dropped_exactly(n0: usize, want: &[(u64, usize)], what: &str) {
    assert_eq!(drops_since(n0), want, "drops {what}");
}
pub type Trks = Vec<Vec<(u64, usize)>>;
/// The trackers of the fields selected by `sel`, in declaration order.
pub fn pick(t: &Trks, pins: &[bool], pinned: bool) -> Vec<(u64, usize)> {
    t.iter().zip(pins).filter(|(_, p)| **p == pinned).flat_map(|(x, _)| x.iter().cloned()).collect()
}
pub fn flat(t: &Trks) -> Vec<(u64, usize)> {
    t.iter().flatten().cloned().collect()
}
pub fn ids(t: &[(u64, usize)]) -> Vec<u64> {
    t.iter().map(|x| x.0).collect()
}
pub fn sorted(mut v: Vec<u64>) -> Vec<u64> {
    v.sort();
    v
}
/// A field moved out by project_replace: same contents and same owned trackers as in the old value.
#[inline(never)]
pub fn moved_<T: Fp + ?Sized>(x: &T, i: usize, exp: &[String], old: &Trks) {
    assert_eq!(x.fp(), exp[i], "contents of moved-out field {i}");
    assert_eq!(ids(&trk_of(x)), ids(&old[i]), "trackers of moved-out field {i}");
}
pub fn need_unpin<T: ?Sized + Unpin>() {}
/// Compile-time type identity without room for coercion.
pub fn same_ty<T: ?Sized>(_: PhantomData<T>, _: PhantomData<T>) {}

#[macro_export]
macro_rules! holds {
    ($t:ty : $($b:tt)+) => {{
        struct W<T: ?Sized>(::core::marker::PhantomData<T>);
        trait No { const V: bool = false; }
        impl<T: ?Sized> No for W<T> {}
        #[allow(dead_code)]
        impl<T: ?Sized + $($b)+> W<T> { const V: bool = true; }
        <W<$t>>::V
    }};
}
/// Runs one generated case and prints its verdict.
pub fn case(i: usize, f: fn()) {
    reset();
    std::panic::set_hook(Box::new(|info| {
        if info.payload().downcast_ref::<Injected>().is_none() {
            eprintln!("{info}");
        }
    }));
    let r = std::panic::catch_unwind(f);
    disarm();
    let errs = errors();
    match r {
        Ok(()) if errs.is_empty() => println!("CASE {i} OK"),
        Ok(()) => println!("CASE {i} FAIL {errs:?}"),
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".into());
            println!("CASE {i} FAIL {} {errs:?}", m.replace('\n', " "));
        }
    }
}

/// Relies on pinning: once touched it keeps a pointer to itself and uses it until it is dropped. Safe API.
pub struct SelfRef {
    v: Cell<u64>,
    p: Cell<*const Cell<u64>>,
    _p: PhantomPinned,
}
impl SelfRef {
    pub fn touch(self: Pin<&Self>) {
        if self.p.get().is_null() {
            self.p.set(&self.v);
        }
        unsafe { (*self.p.get()).set((*self.p.get()).get() + 1 - 1) };
        if self.p.get() != &self.v as *const _ {
            ERR.with(|e| e.borrow_mut().push("a pinned value was moved".into()));
        }
    }
}
impl Drop for SelfRef {
    fn drop(&mut self) {
        let p = self.p.get();
        if !p.is_null() {
            unsafe { (*p).set(77) };
            if p != &self.v as *const _ {
                let _ = ERR.try_with(|e| e.borrow_mut().push("a pinned value was dropped elsewhere".into()));
            }
        }
    }
}
impl Fp for SelfRef {
    fn fp(&self) -> String {
        format!("SelfRef{}", self.v.get())
    }
}
impl Mk for SelfRef {
    fn mk(s: u64) -> Self {
        SelfRef { v: Cell::new(s), p: Cell::new(std::ptr::null()), _p: PhantomPinned }
    }
}
/// Uses two exclusive references at the same time, as function arguments.
pub fn both<A: Fp + ?Sized, B: Fp + ?Sized>(a: &mut A, b: &mut B) -> (String, String) {
    (a.fp(), b.fp())
}
