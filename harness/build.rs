//! Parts of the harness that stand in for a user's own types. `check.py` leaves out those which a tree's traits no longer admit.

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-env-changed=MPT_PARTS");
    println!("cargo:rustc-check-cfg=cfg(ints, storages, dims)");
    let parts = std::env::var("MPT_PARTS").unwrap_or_else(|_| "ints,storages,dims".into());
    for p in parts.split(',').filter(|p| !p.is_empty()) {
        println!("cargo:rustc-cfg={}", p);
    }
}
