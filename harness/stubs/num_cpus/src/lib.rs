//! Stand-in for the num_cpus crate: the CPU count is a parameter of the check.
pub fn get() -> usize {
    std::env::var("HALO_CPUS").ok().and_then(|v| v.parse().ok()).unwrap_or(4)
}
pub fn get_physical() -> usize {
    get()
}
