// Built and run once so that Miri's copies of the crates exist; uses no generated code, which is for the cases to judge.
use pin_project as _;
fn main() {
    let _ = vsut::addr(&0u8);
}
