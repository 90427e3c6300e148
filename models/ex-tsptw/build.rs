include!("../modules.rs");
fn main() {
    modules("/repo/examples/tsptw");
}
