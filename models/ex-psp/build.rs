include!("../modules.rs");
fn main() {
    modules("/repo/examples/psp");
}
