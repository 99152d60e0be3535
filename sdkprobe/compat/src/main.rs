include!("../../src/common.rs");
fn main() {
    common_main(|_, _, _| {});
}
