//! libFuzzer drives the properties: its bytes are the choices of a case. The property is named by MPT_PROP.
#![no_main]
use libfuzzer_sys::{fuzz_target, Corpus};
use mpt::engine::{install_hook, run_case, Outcome, Src};
use std::sync::OnceLock;

static PROP: OnceLock<&'static mpt::Prop> = OnceLock::new();

fuzz_target!(|data: &[u8]| -> Corpus {
    let p = PROP.get_or_init(|| {
        install_hook();
        mpt::find(&std::env::var("MPT_PROP").expect("MPT_PROP")).expect("known property")
    });
    let mut src = Src::bytes(data);
    match run_case(p.f, &mut src) {
        Outcome::Fail(m) => {
            eprintln!("FAILS: {}: {}", p.id, m);
            std::process::abort();
        }
        Outcome::HarnessError(m) => {
            eprintln!("HARNESS ERROR: {}", m);
            Corpus::Reject
        }
        Outcome::Discard(_) => Corpus::Reject,
        Outcome::Pass => Corpus::Keep,
    }
});
