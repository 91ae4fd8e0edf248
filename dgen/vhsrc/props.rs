#[path = "../../harness/vhsrc/props/f.rs"]
pub mod f;
pub fn short(s: &str) -> String {
    s.chars().take(1500).collect()
}
