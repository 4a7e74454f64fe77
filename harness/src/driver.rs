//! presale-monitor: runs the real presale program under generated workloads and judges every
//! execution with an exact reference model.
//!
//!   presale-monitor check --property C01 --tier quick --seed 1 --dir /verif
//!   presale-monitor replay <file>
//!   presale-monitor explore <scenarios> <first seed> [property]

use crate::{abi, bank, gen, rng};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const HOOK_SO: &[u8] = include_bytes!("../elf/transfer_hook_counter.so");

fn env() -> bank::Env {
    bank::Env::new(HOOK_SO, abi::HOOK)
}

fn mix(a: u64, b: u64) -> u64 {
    let mut r = rng::Rng::new(a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next();
    r.next() ^ b
}
fn prop_no(p: &str) -> u64 {
    p[1..].parse().unwrap_or(0)
}

/// Three out of four scenarios are biased towards the property, the rest are general.
fn focus_of(prop: &str, i: u64) -> gen::Focus {
    if i % 4 == 3 {
        gen::focus_for("")
    } else {
        gen::focus_for(prop)
    }
}

/// Outcome of one scenario of a special runner (the whitelist library).
#[derive(Default)]
pub struct Special {
    pub evals: u64,
    pub onchain: u64,
    pub sigs: Vec<u64>,
    pub samples: Vec<String>,
    pub bad: Vec<(String, String)>,
}
pub type Runner = fn(&bank::Env, u64, u64, &Path, &mut Special);

#[derive(Default)]
pub struct Total {
    scenarios: u64,
    steps: u64,
    accepted: u64,
    rejected: u64,
    hostile: u64,
    events: u64,
    cpis: u64,
    audits: u64,
    evals: u64,
    onchain: u64,
    sigs: HashSet<u64>,
    samples: Vec<String>,
    kinds: BTreeMap<String, u64>,
    viols: Vec<Viol>,
    other: u64,
    broken: Vec<String>,
}
struct Viol {
    index: u64,
    seed: u64,
    class: String,
    msg: String,
    log: Vec<String>,
}

/// Listed findings: lines `known: property=<id> class=<class> contains=<text>`.
fn known(dir: &Path, prop: &str) -> Vec<(String, String)> {
    let txt = std::fs::read_to_string(dir.join("known_findings.txt")).unwrap_or_default();
    txt.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| {
            let l = l.strip_prefix(&format!("property={prop} class="))?;
            let (c, t) = l.split_once(" contains=")?;
            Some((c.to_string(), t.to_string()))
        })
        .collect()
}

pub struct Scenario {
    divs: Vec<(String, String)>,
    log: Vec<String>,
    broken: Option<String>,
}

fn run_one(env: &bank::Env, prop: &str, i: u64, seed: u64, t: &mut Total, keep_log: bool) -> Scenario {
    let mut f = focus_of(prop, i);
    // a few scenarios with hundreds of participants
    let crowd = i % 1000 == 500;
    if crowd {
        f.config_storm = 0;
        f.bad_config = 0;
        f.hostile = (1, 40);
        f.fuzz = (1, 200);
    }
    let mut s = gen::Scn::new(env, seed, &f);
    let r = catch_unwind(AssertUnwindSafe(|| if crowd { s.crowd() } else { s.random() }));
    let st = &s.sim.stats;
    t.scenarios += 1;
    t.steps += st.steps;
    t.accepted += st.accepted;
    t.rejected += st.rejected;
    t.hostile += st.hostile;
    t.events += st.events;
    t.cpis += st.cpis;
    t.audits += st.audits;
    t.evals += st.evals.get(prop).copied().unwrap_or(0);
    if let Some(x) = st.sigs.get(prop) {
        t.sigs.extend(x.iter());
    }
    if t.samples.len() < 8 {
        if let Some(x) = st.samples.get(prop) {
            for y in x.iter().take(2) {
                t.samples.push(y.chars().take(300).collect());
            }
        }
    }
    for (k, v) in &st.kinds {
        *t.kinds.entry(k.clone()).or_default() += v;
    }
    let divs: Vec<(String, String)> = s
        .sim
        .divs
        .iter()
        .filter(|d| d.props.contains(&prop))
        .map(|d| (d.class.clone(), format!("[step {}] {}", d.step, d.msg)))
        .collect();
    t.other += (s.sim.divs.len() - divs.len()) as u64;
    let broken = match r {
        Ok(()) => None,
        // After a divergence the harness's own bookkeeping may be off; only a panic without one counts.
        Err(_) if !s.sim.divs.is_empty() => None,
        Err(_) => Some(format!("scenario {i} seed {seed}: harness panic {}", bank::last_panic())),
    };
    let log = if keep_log || !divs.is_empty() { s.sim.log.clone() } else { vec![] };
    Scenario { divs, log, broken }
}

fn run_special(run: Runner, env: &bank::Env, i: u64, seed: u64, dir: &Path, t: &mut Total) -> Scenario {
    let mut o = Special::default();
    let r = catch_unwind(AssertUnwindSafe(|| run(env, i, seed, dir, &mut o)));
    t.scenarios += 1;
    t.evals += o.evals;
    t.onchain += o.onchain;
    t.sigs.extend(o.sigs.iter());
    if t.samples.len() < 6 {
        t.samples.extend(o.samples);
    }
    let broken = match r {
        Ok(()) => None,
        Err(_) if !o.bad.is_empty() => None,
        // the whitelist library itself gave up on a whitelist it has to handle
        Err(_) if bank::last_panic().contains("merkle-tree/src/") => {
            o.bad.push(("library-panic".into(), format!("the library aborted: {}", bank::last_panic().replace('\n', " "))));
            None
        }
        Err(_) => Some(format!("scenario {i} seed {seed}: panic {}", bank::last_panic())),
    };
    Scenario { divs: o.bad, log: vec![], broken }
}

fn rule(prop: &str) -> &'static str {
    if prop == "C16" {
        return "evaluation = one whitelist built by the library and compared with an independent tree (all or up to 29 of its proofs replayed, forged entries/proofs tried, file round trip), or one on-chain escrow creation with a library proof; distinct = different (number of distinct wallets, duplicates present, version class, on-chain registry count)";
    }
    "evaluation = one executed instruction (or audit/hostile variant) whose observed outcome was judged by a monitor of this property; distinct_nontrivial = number of different signatures (instruction, accept/refusal reason, presale mode, lifecycle phase and boundary proximity, whitelist mode, registry count and index, token kinds, magnitude bucket and instruction specific facts such as partial/full, capped, first/last, fee present) among them"
}

fn check(prop: &str, tier: &str, seed: u64, dir: &Path, special: Option<Runner>) -> i32 {
    let t0 = Instant::now();
    let c16 = special.is_some();
    let (count, cap) = match tier {
        "thorough" => (if c16 { 300_000 } else { 1_600_000u64 }, 780),
        // a C17 or C26 scenario holds about twice the instructions of any other
        _ => (if c16 { 16_000 } else if prop == "C17" { 30_000 } else if prop == "C26" { 28_000 } else { 50_000u64 }, 150),
    };
    let count = std::env::var("MONITOR_SCENARIOS").ok().and_then(|x| x.parse().ok()).unwrap_or(count);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16);
    let base = mix(seed, prop_no(prop) + 1000);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let total = Mutex::new(Total::default());
    let kn = known(dir, prop);
    let kn_seen = Mutex::new(BTreeMap::<String, u64>::new());
    let scratch = std::env::temp_dir().join(format!("presale-monitor-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&scratch);
    // program logs and the whitelist library print to stdout
    let saved = mute_stdout();
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, || {
                    let env = env();
                    let mut t = Total::default();
                    while !stop.load(Ordering::Relaxed) && t0.elapsed() < Duration::from_secs(cap) {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= count {
                            break;
                        }
                        let s = mix(base, i);
                        let r = match special {
                            Some(f) => run_special(f, &env, i, s, &scratch, &mut t),
                            None => run_one(&env, prop, i, s, &mut t, false),
                        };
                        if let Some(b) = r.broken {
                            t.broken.push(b);
                            stop.store(true, Ordering::Relaxed);
                        }
                        for (class, msg) in r.divs {
                            if let Some(k) = kn.iter().find(|k| k.0 == class && msg.contains(&k.1)) {
                                *kn_seen.lock().unwrap().entry(format!("{} {}", k.0, k.1)).or_default() += 1;
                                continue;
                            }
                            t.viols.push(Viol { index: i, seed: s, class, msg, log: r.log.clone() });
                            stop.store(true, Ordering::Relaxed);
                            break;
                        }
                    }
                    let mut g = total.lock().unwrap();
                    g.scenarios += t.scenarios;
                    g.steps += t.steps;
                    g.accepted += t.accepted;
                    g.rejected += t.rejected;
                    g.hostile += t.hostile;
                    g.events += t.events;
                    g.cpis += t.cpis;
                    g.audits += t.audits;
                    g.evals += t.evals;
                    g.onchain += t.onchain;
                    g.other += t.other;
                    g.sigs.extend(t.sigs);
                    if g.samples.len() < 8 {
                        g.samples.extend(t.samples.into_iter().take(3));
                    }
                    for (k, v) in t.kinds {
                        *g.kinds.entry(k).or_default() += v;
                    }
                    g.viols.extend(t.viols);
                    g.broken.extend(t.broken);
                })
                .unwrap();
        }
    });
    let _ = std::fs::remove_dir_all(&scratch);
    unmute_stdout(saved);
    let mut t = total.into_inner().unwrap();
    t.viols.sort_by_key(|v| v.index);
    let mut cov = json!({
        "evaluations": t.evals,
        "distinct_nontrivial": t.sigs.len(),
        "rule": rule(prop),
        "samples": t.samples,
        "scenarios": t.scenarios,
        "scenarios_planned": count,
    });
    if c16 {
        cov["onchain_proofs_replayed"] = json!(t.onchain);
    } else {
        let accepted: BTreeMap<&String, &u64> = t.kinds.iter().filter(|(k, _)| !k.starts_with("hostile/")).collect();
        cov["instructions_executed"] = json!(t.steps);
        cov["instructions_accepted"] = json!(t.accepted);
        cov["instructions_refused"] = json!(t.rejected);
        cov["hostile_variants_tried"] = json!(t.hostile);
        cov["events_compared"] = json!(t.events);
        cov["inner_instructions_observed"] = json!(t.cpis);
        cov["state_audits"] = json!(t.audits);
        cov["outcomes_by_instruction"] = json!(accepted);
        cov["divergences_of_other_properties"] = json!(t.other);
    }
    let ev = json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": [
            "the program runs natively from /repo's working tree inside agave's InvokeContext (one instruction per transaction, abort = rollback); SPL Token, Token-2022, memo and the transfer hook run as their real SBF images",
            "the reference model in harness/src/model.rs states the intended arithmetic"
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": t.viols.len(),
    });
    let _ = std::fs::create_dir_all(dir.join("evidence"));
    if let Err(e) = std::fs::write(dir.join(format!("evidence/{prop}.json")), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("cannot write evidence: {e}");
        return 2;
    }
    for (k, n) in kn_seen.into_inner().unwrap() {
        println!("KNOWN-FINDING: property={prop} {k} ({n} times)");
    }
    println!(
        "{prop} {tier} seed={seed}: {} scenarios, {} instructions ({} accepted, {} refused), {} hostile, {} evaluations of the property, {} distinct, {:.1}s",
        t.scenarios, t.steps, t.accepted, t.rejected, t.hostile, t.evals, t.sigs.len(), t0.elapsed().as_secs_f64()
    );
    if let Some(v) = t.viols.first() {
        let _ = std::fs::create_dir_all(dir.join("replays"));
        let path: PathBuf = dir.join(format!("replays/{prop}.json"));
        let doc = json!({
            "property": prop, "scenario": v.index, "scenario_seed": v.seed.to_string(), "class": v.class,
            "message": v.msg, "history": v.log,
            "other_violating_scenarios": t.viols.iter().skip(1).map(|x| x.index).collect::<Vec<_>>(),
            "how": format!("presale-monitor replay {}", path.display()),
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
        println!("{}: {}", v.class, v.msg);
        println!("VIOLATION property={prop} replay={}", path.display());
        return 1;
    }
    if let Some(b) = t.broken.first() {
        eprintln!("INCONCLUSIVE: {b}");
        return 3;
    }
    if t.evals == 0 {
        eprintln!("INCONCLUSIVE: no execution exercised the property");
        return 3;
    }
    0
}

fn mute_stdout() -> i32 {
    unsafe {
        let s = libc::dup(1);
        let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(n, 1);
        libc::close(n);
        s
    }
}
fn unmute_stdout(s: i32) {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe {
        libc::dup2(s, 1);
        libc::close(s);
    }
}

fn replay(file: &str, special: Option<Runner>) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let prop = v["property"].as_str().unwrap().to_string();
    let (i, seed) = (v["scenario"].as_u64().unwrap(), v["scenario_seed"].as_str().unwrap().parse().unwrap());
    let env = env();
    let mut t = Total::default();
    let r = match special {
        Some(f) => run_special(f, &env, i, seed, &std::env::temp_dir(), &mut t),
        None => run_one(&env, &prop, i, seed, &mut t, true),
    };
    for l in &r.log {
        println!("  {l}");
    }
    for (c, m) in &r.divs {
        println!("{c}: {m}");
    }
    if r.divs.is_empty() {
        println!("no violation of {prop} in this scenario");
        0
    } else {
        println!("VIOLATION property={prop} replay={file}");
        1
    }
}

fn explore(a: &[String]) {
    let env = env();
    let n: u64 = a[0].parse().unwrap();
    let s0: u64 = a.get(1).map(|x| x.parse().unwrap()).unwrap_or(1);
    let f = gen::focus_for(a.get(2).map(|x| x.as_str()).unwrap_or(""));
    let t = Instant::now();
    let mut kinds = BTreeMap::<String, u64>::new();
    let (mut steps, mut bad) = (0, 0);
    for i in 0..n {
        let mut s = gen::Scn::new(&env, s0 + i, &f);
        s.random();
        steps += s.sim.stats.steps;
        for (k, v) in &s.sim.stats.kinds {
            *kinds.entry(k.clone()).or_default() += v;
        }
        if let Some(d) = s.sim.divs.first() {
            bad += 1;
            if bad <= 8 {
                println!("seed {}: step {} {:?} [{}] {}", s0 + i, d.step, d.props, d.class, d.msg);
                if n == 1 {
                    for l in &s.sim.log {
                        println!("   {l}");
                    }
                }
            }
        }
    }
    println!("{n} scenarios {steps} steps {bad} bad in {:?}", t.elapsed());
    for (k, v) in kinds {
        println!("{v:8} {k}");
    }
}

/// Which properties notice a change: general survey over all foci, for trial mutants.
fn survey(n: u64, seed: u64) {
    let next = AtomicU64::new(0);
    let found = Mutex::new((BTreeMap::<String, u64>::new(), 0u64, String::new()));
    let saved = mute_stdout();
    std::thread::scope(|sc| {
        for _ in 0..std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4) {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, || {
                    let env = env();
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n || found.lock().unwrap().1 >= 60 {
                            break;
                        }
                        let p = format!("C{:02}", i % 27 + 1);
                        let f = gen::focus_for(&p);
                        let mut s = gen::Scn::new(&env, mix(seed, i), &f);
                        let r = catch_unwind(AssertUnwindSafe(|| s.random()));
                        let mut g = found.lock().unwrap();
                        if !s.sim.divs.is_empty() {
                            g.1 += 1;
                        }
                        for d in &s.sim.divs {
                            for p in &d.props {
                                *g.0.entry(p.to_string()).or_default() += 1;
                            }
                            if g.2.is_empty() {
                                g.2 = format!("{}: {}", d.class, d.msg);
                            }
                        }
                        if r.is_err() && s.sim.divs.is_empty() {
                            *g.0.entry("BROKEN".into()).or_default() += 1;
                        }
                    }
                })
                .unwrap();
        }
    });
    unmute_stdout(saved);
    let g = found.into_inner().unwrap();
    println!("{} divergent of {} scenarios; {:?}; {}", g.1, next.load(Ordering::Relaxed).min(n), g.0, g.2.chars().take(200).collect::<String>());
}

pub fn main_with(special: Option<Runner>) {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let opt = |name: &str| a.iter().position(|x| x == name).and_then(|i| a.get(i + 1)).cloned();
    let code = match a.first().map(|x| x.as_str()) {
        Some("check") => check(
            &opt("--property").expect("--property"),
            &opt("--tier").unwrap_or("quick".into()),
            opt("--seed").and_then(|x| x.parse().ok()).unwrap_or(1),
            Path::new(&opt("--dir").unwrap_or("/verif".into())),
            special,
        ),
        Some("replay") => replay(&a[1], special),
        Some("explore") => {
            explore(&a[1..]);
            0
        }
        Some("survey") => {
            survey(a[1].parse().unwrap(), a.get(2).and_then(|x| x.parse().ok()).unwrap_or(1));
            0
        }
        _ => {
            eprintln!("usage: presale-monitor check|replay|explore");
            2
        }
    };
    std::process::exit(code);
}
