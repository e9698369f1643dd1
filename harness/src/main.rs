//! mpt run --prop C01 --seed 1 --tier quick --out DIR   random + exhaustive search, one JSON report on stdout
//! mpt replay FILE                                      one recorded case: exit 1 if it fails, 0 if it passes
//! mpt case --prop C01 --small 0 --choices 1,2,3        one case given by its choices
//! mpt bytes --prop C01 --dir DIR                       cases given as fuzzer inputs, one per file: a report as for run
//! mpt choices --prop C01 --seed 1 --shard 3 --case 17  the choices of a random case

use mpt::engine::*;
use std::collections::BTreeMap;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list<T>(v: &[T], f: impl Fn(&T) -> String) -> String {
    format!("[{}]", v.iter().map(f).collect::<Vec<_>>().join(", "))
}
fn map(m: &BTreeMap<&'static str, u64>) -> String {
    format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", "))
}
fn nums(s: &str) -> Vec<u64> {
    s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}

fn main() {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let num = |k: &str, d: u64| get(k).map(|v| v.parse().expect("number")).unwrap_or(d);
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in mpt::PROPS {
                println!("{}", p.id);
            }
            0
        }
        Some("run") => run_cmd(&get, &num),
        Some("bytes") => bytes_cmd(&get),
        Some("case") => {
            let p = mpt::find(&get("--prop").unwrap()).expect("property");
            one(p, &nums(&get("--choices").unwrap_or_default()), num("--small", 0) == 1, num("--loud", 0) == 1)
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&args[2]).expect("replay file");
            let line = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).map(|s| s.trim().to_string());
            let p = mpt::find(&line("property:").expect("property line")).expect("property");
            one(p, &nums(&line("choices:").unwrap_or_default()), line("small:").as_deref() == Some("1"), true)
        }
        Some("choices") => {
            let p = mpt::find(&get("--prop").unwrap()).expect("property");
            if let Some(f) = get("--bytes") {
                let data = std::fs::read(f).expect("input");
                let mut src = Src::bytes(&data);
                src.stream = true;
                let _ = run_case(p.f, &mut src);
            } else {
                let cfg = config(p, &num, 1);
                print_choices(&cfg, p.f, num("--shard", 0) as usize, num("--case", 0));
            }
            0
        }
        _ => {
            eprintln!("usage: see src/main.rs");
            2
        }
    };
    std::process::exit(code);
}

fn config(p: &'static mpt::Prop, num: &dyn Fn(&str, u64) -> u64, cases: u64) -> Config {
    Config {
        seed: num("--seed", 1),
        prop: p.id,
        cases,
        shards: num("--shards", 32) as usize,
        threads: num("--threads", 8) as usize,
        enum_limit: num("--enum", p.enum_limit),
        trace_dir: None,
        hang_ms: num("--hang", 120_000),
        budget_ms: num("--budget", 0),
        distinct_cap: 4_000_000,
        only: Some(num("--unit", u64::MAX)).filter(|u| *u != u64::MAX).map(|u| (u as usize, num("--first", 0), num("--last", 0))),
    }
}

fn one(p: &'static mpt::Prop, choices: &[u64], small: bool, loud: bool) -> i32 {
    let mut src = Src::replay(choices).set_small(small);
    src.noting = true;
    src.loud = loud;
    let mut out = run_case(p.f, &mut src);
    for _ in 1..25 * tries(p.id) {
        if !matches!(out, Outcome::Pass) || tries(p.id) == 1 {
            break;
        }
        out = run_case(p.f, &mut Src::replay(choices).set_small(small));
    }
    if !loud {
        for n in &src.notes {
            println!("  {}", n);
        }
    }
    match out {
        Outcome::Pass => {
            println!("{}: this case holds", p.id);
            0
        }
        Outcome::Discard(d) => {
            println!("{}: case discarded: {}", p.id, d);
            0
        }
        Outcome::Fail(m) => {
            println!("{}: FAILS: {}", p.id, m);
            1
        }
        Outcome::HarnessError(m) => {
            println!("{}: harness error: {}", p.id, m);
            3
        }
    }
}

fn run_cmd(get: &dyn Fn(&str) -> Option<String>, num: &dyn Fn(&str, u64) -> u64) -> i32 {
    let p = mpt::find(&get("--prop").expect("--prop")).expect("known property");
    let thorough = get("--tier").as_deref() == Some("thorough");
    let cases = num("--cases", if thorough { p.thorough } else { p.quick });
    let mut cfg = config(p, num, cases);
    cfg.trace_dir = get("--trace");
    if thorough && get("--enum").is_none() {
        cfg.enum_limit *= 20;
    }
    let t = std::time::Instant::now();
    let (st, failure) = run(&cfg, p.f);
    report(p, &st, &failure, cfg.seed, cfg.enum_limit, t.elapsed().as_secs_f64())
}

/// The inputs a coverage-guided run kept (or the one it stopped at), judged and counted
fn bytes_cmd(get: &dyn Fn(&str) -> Option<String>) -> i32 {
    let p = mpt::find(&get("--prop").expect("--prop")).expect("known property");
    let t = std::time::Instant::now();
    let mut files: Vec<_> = std::fs::read_dir(get("--dir").expect("--dir")).expect("directory").map(|e| e.unwrap().path()).collect();
    files.sort();
    let mut st = Stats::default();
    let mut failure = None;
    for f in files {
        let data = std::fs::read(f).expect("input");
        let mut src = Src::bytes(&data);
        src.noting = st.samples.len() < 8;
        let out = run_case(p.f, &mut src);
        account(&mut st, &src, &out, 1 << 20, false);
        if src.noting && src.nontrivial {
            st.samples.push(std::mem::take(&mut src.notes));
        }
        if let Outcome::Fail(m) = out {
            failure = Some(shrink_failure(p.id, p.f, src.rec.clone(), false, m));
            break;
        }
    }
    report(p, &st, &failure, 0, 0, t.elapsed().as_secs_f64())
}

fn report(p: &'static mpt::Prop, st: &Stats, failure: &Option<Failure>, seed: u64, enum_limit: u64, wall: f64) -> i32 {
    let fail_json = match failure {
        None => "null".to_string(),
        Some(f) => format!(
            "{{\"message\": {}, \"choices\": {}, \"small\": {}, \"notes\": {}, \"original_len\": {}, \"shrink_steps\": {}, \"unit\": {}, \"case\": {}}}",
            esc(&f.message),
            list(&f.choices, |v| v.to_string()),
            f.small,
            list(&f.notes, |n| esc(n)),
            f.original_len,
            f.shrink_steps,
            f.place.map_or("null".into(), |p| p.0.to_string()),
            f.place.map_or("null".into(), |p| p.1.to_string())
        ),
    };
    println!(
        "{{\"property\": {}, \"seed\": {}, \"evaluations\": {}, \"enumerated\": {}, \"enumerated_nontrivial\": {}, \"enum_complete\": {}, \"nontrivial\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"discards\": {}, \"labels\": {}, \"samples\": {}, \"harness_error\": {}, \"slowest_ms\": {}, \"failure\": {}, \"wall_s\": {:.3}}}",
        esc(p.id),
        seed,
        st.evaluations,
        st.enumerated,
        st.distinct_enumerated,
        enum_limit > 0 && st.enum_complete && failure.is_none(),
        st.nontrivial,
        st.distinct.len() as u64 + st.distinct_enumerated,
        esc(p.rule),
        map(&st.discards),
        map(&st.labels),
        list(&st.samples, |s| esc(&s.join("; "))),
        st.harness_error.as_ref().map(|e| esc(e)).unwrap_or("null".into()),
        st.slowest_ms,
        fail_json,
        wall
    );
    if failure.is_some() {
        1
    } else if st.harness_error.is_some() {
        3
    } else {
        0
    }
}
