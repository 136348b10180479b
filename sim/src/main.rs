//! orsim: deterministic simulation of libopenraw under injected faults.
mod capi;
mod interpose;
mod minim;
mod obs;
mod props;
mod scen;
mod synth;
#[cfg(feature = "tools")]
mod tool;
#[cfg(not(feature = "tools"))]
mod tool {
    pub fn make_room() {}
    pub fn run(_: &str, _: &[String]) -> Result<(), String> {
        unreachable!()
    }
}
mod worker;

use scen::{Op, Scen};
use serde_json::{json, Value};
use simrt::rng::mix;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::Instant;
use worker::Out;

#[global_allocator]
static A: simrt::alloc::SimAlloc = simrt::alloc::SimAlloc;

static LOG: scen::NullLog = scen::NullLog;

fn verif() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn seed_of(master: u64, prop: &str, idx: u64) -> u64 {
    mix(mix(master ^ obs::hash(prop.as_bytes())) ^ idx) & 0x7fff_ffff_ffff
}

/// Scenarios of a tier.
fn plan(prop: &str, thorough: bool) -> (u64, f64) {
    let n = match prop {
        "C01" => 7500,
        "C02" => 9000,
        "C03" => 9000,
        "C04" => 18000,
        "C05" => 9000,
        "C06" => 4500,
        "C07" => 4500,
        "C08" => 3000,
        "C09" => 4500,
        "C10" => 12000,
        "C11" => 4000,
        "C12" => 4500,
        "C13" => 16000,
        "C14" => 18000,
        "C15" => 24000,
        "C16" => 18000,
        "C17" => 4500,
        "C18" => 12000,
        "C19" => 12000,
        _ => 9000,
    };
    if thorough {
        (n * 250, 3600.0 * 3.0)
    } else {
        (n * 8, 300.0)
    }
}

struct Known {
    property: String,
    class: String,
    text: String,
}
fn known() -> Vec<Known> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{}/known-findings.txt", verif())) {
        for l in s.lines() {
            let Some(r) = l.strip_prefix("known: property=") else { continue };
            let mut it = r.splitn(3, '\t');
            if let (Some(p), Some(c), Some(t)) = (it.next(), it.next(), it.next()) {
                v.push(Known { property: p.trim().into(), class: c.trim().trim_start_matches("class=").into(), text: t.into() });
            }
        }
    }
    v
}

#[derive(Default, serde::Serialize, serde::Deserialize)]
struct Stats {
    runs: u64,
    nontrivial: u64,
    steps: u64,
    edges_max: u64,
    counts: BTreeMap<String, u64>,
    sigs: BTreeSet<u64>,
    skipped: BTreeMap<String, u64>,
    samples: Vec<Value>,
    viol: Option<(u64, worker::Viol)>,
    known: BTreeMap<String, u64>,
    classes: BTreeMap<String, (u64, u64, String)>,
}

fn brief(s: &Scen) -> Value {
    let ops: Vec<String> = s
        .ops
        .iter()
        .map(|o| match o {
            Op::Q(h, q) => format!("{h}:{q:?}"),
            o => format!("{o:?}"),
        })
        .collect();
    json!({
        "seed": s.seed,
        "files": s.files.iter().map(|f| format!("{}#{}{}", f.fmt, f.seed, if f.muts.is_empty() { String::new() } else { format!(" damaged {}", obs::clip(&format!("{:?}", f.muts))) })).collect::<Vec<_>>(),
        "ops": if ops.len() > 12 { let mut v = ops[..12].to_vec(); v.push(format!("... {} more", ops.len() - 12)); v } else { ops },
        "faults": s.faults.iter().map(|f| format!("{} {} {} {}", f.kind, f.a, f.b, f.c)).collect::<Vec<_>>(),
        "width": s.width,
        "x": s.x,
    })
}

fn work(prop: &str, master: u64, n: u64, next: &AtomicU64, minv: &AtomicU64, deadline: Instant, kn: &[Known], all: bool) -> Stats {
    let mut st = Stats::default();
    loop {
        let idx = next.fetch_add(1, SeqCst);
        if idx >= n || Instant::now() > deadline || (!all && idx > minv.load(SeqCst)) {
            return st;
        }
        let s = props::gen(prop, seed_of(master, prop, idx));
        let o = worker::run(&s);
        st.runs += 1;
        st.steps += o.steps;
        st.edges_max = st.edges_max.max(o.edges);
        for (k, v) in &o.counts {
            *st.counts.entry(k.clone()).or_default() += v;
        }
        if let Some(k) = &o.skipped {
            *st.skipped.entry(worker::stable(&obs::clip(k))).or_default() += 1;
            if all {
                let e = st.classes.entry(format!("SKIP {}", worker::stable(&obs::clip(k)))).or_insert((0, idx, k.clone()));
                e.0 += 1;
            }
        }
        if o.nontrivial && o.skipped.is_none() {
            st.nontrivial += 1;
            st.sigs.insert(o.sig);
        }
        if idx < 3 {
            st.samples.push(brief(&s));
        }
        if let Some(v) = o.viol {
            if all {
                let e = st.classes.entry(v.class.clone()).or_insert((0, idx, v.detail.clone()));
                e.0 += 1;
                continue;
            }
            if let Some(k) = kn.iter().find(|k| k.property == prop && v.class.starts_with(&k.class)) {
                *st.known.entry(k.text.clone()).or_default() += 1;
                continue;
            }
            if st.viol.as_ref().map(|x| idx < x.0).unwrap_or(true) {
                st.viol = Some((idx, v));
            }
            minv.fetch_min(idx, SeqCst);
        }
    }
}

fn parallel(prop: &str, master: u64, n: u64, secs: f64, jobs: usize, kn: &[Known], all: bool) -> Stats {
    let shm = worker::map_shared(64) as *const AtomicU64;
    let (next, minv) = unsafe { (&*shm, &*shm.add(1)) };
    minv.store(u64::MAX, SeqCst);
    let deadline = Instant::now() + std::time::Duration::from_secs_f64(secs);
    let mut kids = vec![];
    for _ in 0..jobs {
        let mut fds = [0i32; 2];
        unsafe { assert!(libc::pipe(fds.as_mut_ptr()) == 0) };
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            unsafe { libc::close(fds[0]) };
            worker::init_shm();
            let st = work(prop, master, n, next, minv, deadline, kn, all);
            simrt::sys::write_all(fds[1], &serde_json::to_vec(&st).unwrap());
            unsafe { libc::_exit(0) }
        }
        unsafe { libc::close(fds[1]) };
        kids.push((pid, fds[0]));
    }
    let mut t = Stats::default();
    for (pid, fd) in kids {
        let b = worker::read_all(fd);
        let mut st = 0;
        unsafe {
            libc::close(fd);
            while libc::waitpid(pid, &mut st, 0) < 0 {}
        }
        let s: Stats = serde_json::from_slice(&b).expect("a worker died");
        t.runs += s.runs;
        t.nontrivial += s.nontrivial;
        t.steps += s.steps;
        t.edges_max = t.edges_max.max(s.edges_max);
        for (k, v) in s.counts {
            *t.counts.entry(k).or_default() += v;
        }
        for (k, v) in s.skipped {
            *t.skipped.entry(k).or_default() += v;
        }
        for (k, v) in s.known {
            *t.known.entry(k).or_default() += v;
        }
        for (k, v) in s.classes {
            let e = t.classes.entry(k).or_insert((0, v.1, v.2.clone()));
            e.0 += v.0;
            if v.1 < e.1 {
                e.1 = v.1;
                e.2 = v.2;
            }
        }
        t.sigs.extend(s.sigs);
        t.samples.extend(s.samples);
        if let Some(v) = s.viol {
            if t.viol.as_ref().map(|x| v.0 < x.0).unwrap_or(true) {
                t.viol = Some(v);
            }
        }
    }
    t
}

fn replay_json(s: &Scen, o: &Out) -> Value {
    json!({"property": s.prop, "seed": s.seed, "violation": o.viol, "scenario": s})
}

fn check(prop: &str, thorough: bool, n: Option<u64>, secs: Option<f64>, jobs: usize) -> i32 {
    let t0 = Instant::now();
    let master: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let (pn, ps) = plan(prop, thorough);
    let n = n.unwrap_or(pn);
    let kn = known();
    let st = parallel(prop, master, n, secs.unwrap_or(ps), jobs, &kn, false);
    let sim_s = t0.elapsed().as_secs_f64();
    let mut rc = 0;
    if let Some((idx, v)) = &st.viol {
        rc = 1;
        worker::init_shm();
        let s = props::gen(prop, seed_of(master, prop, *idx));
        let (s, o) = minim::minimise(s, &v.class);
        let dir = format!("{}/replays", verif());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{prop}-{:x}.json", s.seed);
        std::fs::write(&path, serde_json::to_vec_pretty(&replay_json(&s, &o)).unwrap()).unwrap();
        let again = (0..2).filter(|_| worker::run(&s).viol == o.viol).count();
        println!("scenario {idx} of {prop}: {}", v.detail);
        if let Some(v) = &o.viol {
            println!("minimised: {} ({} files, {} damages, {} operations, {} faults, width {}); reproduced {again} of 2", v.detail, s.files.len(), s.files.iter().map(|f| f.muts.len()).sum::<usize>(), s.ops.len(), s.faults.len(), s.width);
        }
        println!("replay with: {}/tools/orsim replay {path}", verif());
        println!("VIOLATION property={prop} replay={path}");
    }
    for (k, c) in &st.known {
        println!("KNOWN-FINDING: property={prop} {k} ({c} scenarios)");
    }
    let faults: BTreeMap<&str, u64> = st.counts.iter().filter_map(|(k, v)| k.strip_prefix("fault:").map(|k| (k, *v))).collect();
    let files: BTreeMap<&str, u64> = st.counts.iter().filter_map(|(k, v)| k.strip_prefix("file:").map(|k| (k, *v))).collect();
    let other: BTreeMap<&str, u64> = st.counts.iter().filter(|(k, _)| !k.starts_with("fault:") && !k.starts_with("file:")).map(|(k, v)| (k.as_str(), *v)).collect();
    let mut samples = st.samples.clone();
    samples.sort_by_key(|v| v["seed"].as_u64());
    let ev = json!({
        "property": prop,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": master,
        "level": "exploration",
        "coverage": {
            "evaluations": st.runs,
            "distinct_nontrivial": st.sigs.len(),
            "rule": props::rule(prop),
            "samples": samples,
            "nontrivial_runs": st.nontrivial,
            "runs_per_hour": (st.runs as f64 / sim_s * 3600.0) as u64,
            "seeds_per_hour": (st.runs as f64 / sim_s * 3600.0) as u64,
            "simulated_time_steps": st.steps,
            "simulated_time_note": "the simulated clock advances one step per basic-block edge of libopenraw executed",
            "faults_injected": faults,
            "files_by_format": files,
            "other_counts": other,
            "library_edges_reached": simrt::clock::ever_edges(),
            "library_edges_total": simrt::clock::guards(),
            "library_edges_max_in_one_run": st.edges_max,
            "distinct_measure": "hash of the set of library edges executed together with the answers observed",
            "runs_not_judged": st.skipped,
            "known_findings_seen": st.known,
            "real_components": ["libopenraw (all of it, C interface included)", "libopenraw-mp4/nom/log and the other dependencies", "std::fs::File, std::io"],
            "simulated_components": ["files under /simfs (open/read/lseek/fstat/close)", "rayon-core (seeded scheduler)", "thread interleaving, futexes", "allocator (accounting, poisoned memory, guards)", "hash seeds, clock, random source", "log sink"],
            "stopped_by_time_cap": st.runs < n && st.viol.is_none(),
        },
        "assumptions": ["files are made by the generator of /verif/sim/src/synth or damaged versions of them", "memory exhaustion is not injected: Rust aborts on it by design"],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": if rc == 0 { 0 } else { 1 },
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif()));
    std::fs::write(format!("{}/evidence/{prop}.json", verif()), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    println!(
        "{prop}: {} runs in {:.1} s, {} nontrivial, {} distinct, {} edges of {}, {} not judged{}",
        st.runs,
        sim_s,
        st.nontrivial,
        st.sigs.len(),
        simrt::clock::ever_edges(),
        simrt::clock::guards(),
        st.skipped.values().sum::<u64>(),
        if rc == 0 { ": held" } else { "" }
    );
    if std::env::var_os("SIM_SKIPS").is_some() {
        for (k, v) in &st.skipped {
            println!("  {v} {k}");
        }
    }
    rc
}

fn main() {
    tool::make_room();
    // allocations of the harness must not depend on the scenario
    obs::install_panic_hook();
    let _ = log::set_logger(&LOG);
    log::set_max_level(log::LevelFilter::Off);
    unsafe {
        let r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &r);
    }
    if let Some(n) = std::env::var("SIM_BIG").ok().and_then(|s| s.parse().ok()) {
        simrt::alloc::BIG.store(n, SeqCst);
    }
    simrt::clock::share_ever(worker::map_shared(simrt::clock::MAXG));
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let rc = match a.get(1).map(|s| s.as_str()) {
        Some("check") | Some("survey") => {
            let thorough = opt("--tier").or(std::env::var("VERIF_TIER").ok()).map(|t| t == "thorough").unwrap_or(false);
            let n = opt("--n").and_then(|s| s.parse().ok());
            let secs = opt("--secs").and_then(|s| s.parse().ok());
            let jobs = opt("--jobs").and_then(|s| s.parse().ok()).unwrap_or(8);
            if a[1] == "check" {
                check(&a[2], thorough, n, secs, jobs)
            } else {
                // every class of violation, for development
                let master: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
                let (pn, ps) = plan(&a[2], thorough);
                let t0 = Instant::now();
                let st = parallel(&a[2], master, n.unwrap_or(pn), secs.unwrap_or(ps), jobs, &[], true);
                for (c, (k, idx, d)) in &st.classes {
                    println!("{k:6} {c}\n        idx {idx} seed {} {}", seed_of(master, &a[2], *idx), obs::clip(d));
                }
                println!("{}: {} runs {:.1} s, {} nontrivial, {} distinct, edges {} of {}", a[2], st.runs, t0.elapsed().as_secs_f64(), st.nontrivial, st.sigs.len(), simrt::clock::ever_edges(), simrt::clock::guards());
                if opt("--counts").is_some() {
                    println!("{:#?}", st.counts);
                }
                0
            }
        }
        Some("one") => {
            worker::init_shm();
            let s = props::gen(&a[2], a[3].parse().unwrap());
            println!("{}", serde_json::to_string_pretty(&brief(&s)).unwrap());
            let o = worker::run(&s);
            println!("{o:#?}");
            o.viol.is_some() as i32
        }
        Some("show") => {
            let s = props::gen(&a[2], a[3].parse().unwrap());
            println!("{}", serde_json::to_string_pretty(&s).unwrap());
            0
        }
        Some("replay") => {
            worker::init_shm();
            let v: Value = serde_json::from_slice(&std::fs::read(&a[2]).unwrap()).unwrap();
            let s: Scen = serde_json::from_value(v["scenario"].clone()).unwrap();
            let o = worker::run(&s);
            match &o.viol {
                Some(x) => {
                    println!("{}: {}", x.class, x.detail);
                    println!("same as recorded: {}", serde_json::to_value(x).unwrap() == v["violation"]);
                    println!("VIOLATION property={} replay={}", s.prop, a[2]);
                    1
                }
                None => {
                    println!("held {:?}", o.skipped);
                    0
                }
            }
        }
        Some("digest") => {
            // determinism: everything a range of scenarios observed, as one hash
            worker::init_shm();
            let (from, to): (u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap());
            let mut h = 0;
            for i in from..to {
                let o = worker::run(&props::gen(&a[2], seed_of(1, &a[2], i)));
                let x = (o.digest, o.sig, o.steps, o.edges, format!("{:?} {:?} {:?} {:?}", o.viol, o.skipped, o.counts, o.tape));
                let d = obs::hash(format!("{x:?}").as_bytes());
                if opt("-v").is_some() || a.iter().any(|x| x == "-v") {
                    println!("{i} {d:016x} {:x} {:x} {} {}", o.digest, o.sig, o.steps, o.edges);
                }
                h = mix(h ^ d);
            }
            println!("{} {from}..{to} {h:016x}", a[2]);
            0
        }
        Some("synth") => {
            let f = synth::gen(&a[2], a[3].parse().unwrap());
            std::fs::write(&a[4], &f.bytes).unwrap();
            println!("{} bytes {:#?}", f.bytes.len(), f.exp);
            0
        }
        _ => {
            eprintln!("orsim check ID [--tier T] [--n N] | replay FILE | one ID SEED | show ID SEED | survey ID | digest ID A B | synth FMT SEED OUT");
            2
        }
    };
    std::process::exit(rc);
}
