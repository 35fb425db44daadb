mod ctx;
mod dot;
mod elf;
mod explore;
mod model;
mod props;
mod run;
mod thumbimg;
mod world;

use ctx::{json_str, Ctx, Known, Stats};
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::time::Instant;

fn die(msg: &str) -> ! {
    eprintln!("ENGINE-ERROR: {}", msg);
    std::process::exit(3)
}

fn known_findings(verif: &Path) -> Vec<Known> {
    let s = std::fs::read_to_string(verif.join("known-findings.txt")).unwrap_or_default();
    let mut out = vec![];
    for l in s.lines() {
        // known: property=C04 key=<key> what="..."
        if let Some(r) = l.strip_prefix("known: property=") {
            let (p, r) = r.split_once(' ').unwrap_or_else(|| die("malformed known-findings.txt"));
            let r = r.strip_prefix("key=").unwrap_or_else(|| die("malformed known-findings.txt"));
            let (k, w) = r.split_once(" what=").unwrap_or_else(|| die("malformed known-findings.txt"));
            out.push(Known { property: p.into(), key: k.into(), what: w.into() });
        }
    }
    out
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: mc check ID | mc replay FILE");
        std::process::exit(2);
    }
    let verif = PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into()));
    let env = |k: &str| PathBuf::from(std::env::var(k).unwrap_or_else(|_| die(&format!("{} not set", k))));
    let tools = run::Tools { tool: env("MC_TOOL"), fake: env("MC_FAKEBIN"), shim: env("MC_SHIM") };
    for p in [&tools.tool, &tools.fake, &tools.shim] {
        if !p.exists() {
            die(&format!("missing {}", p.display()));
        }
    }
    let mut thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let (id, replay) = match &args[1][..] {
        "check" => (args[2].clone(), None),
        "replay" => {
            let s = std::fs::read_to_string(&args[2]).unwrap_or_else(|_| die("cannot read the replay file"));
            let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).unwrap_or_else(|| die("malformed replay file")).trim().to_string();
            thorough = get("tier:") == "thorough";
            let ch = get("choices:");
            let ch = if ch.is_empty() { vec![] } else { ch.split(',').map(|x| x.trim().parse().unwrap()).collect() };
            (get("property:"), Some((get("space:"), ch)))
        }
        _ => die("unknown command"),
    };
    let f = props::lookup(&id).unwrap_or_else(|| die("unknown property"));
    let base = if std::fs::create_dir_all("/dev/shm").is_ok() && std::fs::write(format!("/dev/shm/mc-probe-{}", std::process::id()), b"x").is_ok() {
        let _ = std::fs::remove_file(format!("/dev/shm/mc-probe-{}", std::process::id()));
        PathBuf::from("/dev/shm")
    } else {
        std::env::temp_dir()
    };
    let scratch = base.join(format!("mc-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap_or_else(|_| die("cannot create the scratch directory"));
    run::start_watchdog();
    let ctx = Ctx {
        property: id.clone(),
        thorough,
        seed,
        tools,
        scratch: scratch.clone(),
        workers: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16),
        replay,
        known: known_findings(&verif),
        stats: Mutex::new(Stats::default()),
        start: Instant::now(),
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&ctx)));
    if std::env::var_os("MC_KEEP").is_none() { let _ = std::fs::remove_dir_all(&scratch); }
    if r.is_err() {
        die("the checking engine panicked");
    }
    let st = ctx.stats.lock().unwrap();
    if ctx.replay.is_some() {
        std::process::exit(if st.violations.is_empty() { 0 } else { 1 });
    }
    if st.traces == 0 {
        die("nothing was explored");
    }
    // evidence
    let mut o = String::from("{\n");
    o.push_str(&format!(" \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"model_checking\",\n", json_str(&id), if thorough { "thorough" } else { "quick" }, seed));
    o.push_str(" \"coverage\": {\n");
    o.push_str(&format!("  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n", st.states, st.transitions, st.traces));
    o.push_str(&format!("  \"tool_executions\": {},\n  \"distinct_outcomes\": {},\n", st.runs, st.outcomes.len()));
    o.push_str(&format!("  \"exhaustive\": {},\n", !st.capped && st.violations.is_empty()));
    o.push_str("  \"spaces\": [\n");
    let v: Vec<String> = st
        .spaces
        .iter()
        .map(|(n, t, ms)| format!("   {{\"name\": {}, \"states\": {}, \"transitions\": {}, \"executions\": {}, \"pruned\": {}, \"wall_ms\": {}}}", json_str(n), t.states, t.transitions, t.leaves, t.pruned, ms))
        .collect();
    o.push_str(&v.join(",\n"));
    o.push_str("\n  ],\n");
    for (k, n) in &st.extra {
        o.push_str(&format!("  {}: {},\n", json_str(k), n));
    }
    o.push_str(&format!("  \"known_findings_hit\": {},\n", st.known_hits.values().map(|v| v.1).sum::<u64>()));
    let v: Vec<String> = st.samples.iter().take(8).map(|(a, b)| format!("   {{\"case\": {}, \"observed\": {}}}", json_str(a), json_str(b))).collect();
    o.push_str(&format!("  \"samples\": [\n{}\n  ]\n }},\n", v.join(",\n")));
    let v: Vec<String> = st.assumptions.iter().map(|s| json_str(s)).collect();
    o.push_str(&format!(" \"assumptions\": [{}],\n", v.join(", ")));
    o.push_str(&format!(" \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", ctx.start.elapsed().as_secs_f64(), st.violations.len()));
    let _ = std::fs::create_dir_all(verif.join("evidence"));
    std::fs::write(verif.join("evidence").join(format!("{}.json", id)), o).unwrap_or_else(|_| die("cannot write the evidence file"));

    for (_, (what, n)) in &st.known_hits {
        println!("KNOWN-FINDING: property={} {} ({} executions)", id, what, n);
    }
    println!(
        "{}: {} states, {} transitions, {} traces executed on the tool ({} runs), {} distinct outcomes, {:.1}s",
        id, st.states, st.transitions, st.traces, st.runs, st.outcomes.len(), ctx.start.elapsed().as_secs_f64()
    );
    if st.violations.is_empty() {
        std::process::exit(0);
    }
    let rd = verif.join("replays");
    let _ = std::fs::create_dir_all(&rd);
    for (i, v) in st.violations.iter().enumerate().take(5) {
        let p = rd.join(format!("{}-{}.replay", id, i));
        let text = format!(
            "property: {}\nspace: {}\ntier: {}\nchoices: {}\nkey: {}\n\n{}\n\nreplay with: /verif/check.sh replay {}\n",
            id,
            v.space,
            if thorough { "thorough" } else { "quick" },
            v.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","),
            v.key,
            v.msg,
            p.display()
        );
        std::fs::write(&p, text).unwrap_or_else(|_| die("cannot write the replay file"));
        println!("VIOLATION property={} replay={}", id, p.display());
        println!("  {} [{}]: {}", v.space, v.key, v.msg.chars().take(1500).collect::<String>());
    }
    std::process::exit(1);
}
