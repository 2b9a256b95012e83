//! Campaign driver: shards, watchdog, minimiser, replay, evidence.

use crate::heap;
use crate::plan::{Op, Plan};
use crate::rng::{Rng, mix2};
use crate::sim::{self, FNAMES, KNAMES, NK, Viol, sim};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Default)]
pub struct RunOut {
    pub viol: Option<Viol>,
    /// Key of the violation for the known-findings file.
    pub key: String,
    pub op_index: usize,
    /// Callbacks and allocation requests per operation.
    pub counts: Vec<(u64, u64)>,
    pub hash: u64,
    /// By the world's rule: the run exercised the property.
    pub nontrivial: bool,
    pub steps: u64,
    pub sched: Vec<u32>,
    pub probes: Vec<(&'static str, u64)>,
}

pub struct World {
    pub name: &'static str,
    pub props: &'static [&'static str],
    pub op_name: fn(u16) -> &'static str,
    pub generate: fn(&str, &mut Rng) -> Plan,
    /// Places faults, given the callback and allocation counts of the run without them.
    pub place: Option<fn(&str, &Plan, &[(u64, u64)], &mut Rng) -> Plan>,
    pub run: fn(&Plan) -> RunOut,
    /// Number of base plans for (property, thorough).
    pub budget: fn(&str, bool) -> u64,
    pub variants: fn(&str) -> u64,
    /// Whether this violation class counts against the property.
    pub relevant: fn(&str, &Viol) -> bool,
    pub rule: fn(&str) -> &'static str,
    pub level: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
}

#[derive(Default, Clone)]
struct Stats {
    runs: u64,
    steps: u64,
    events: u64,
    callbacks: u64,
    nontrivial: u64,
    distinct: u64,
    ops: BTreeMap<String, u64>,
    faults: [u64; 8],
    kinds: [u64; NK],
    probes: BTreeMap<String, u64>,
    blocks: u64,
    rechecked: u64,
    mismatches: u64,
    foreign: u64,
    known: BTreeMap<String, u64>,
    switches: u64,
}

fn prop_seed(prop: &str, seed: u64) -> u64 {
    prop.bytes().fold(mix2(seed, 0x0d05), |h, b| mix2(h, b as u64))
}

fn run_rng(prop: &str, seed: u64, idx: u64, variant: u64) -> Rng {
    Rng::new(mix2(mix2(prop_seed(prop, seed), idx), variant))
}

/// The plan of (index, variant); variant 0 is the run the fault positions are taken from.
fn plan_for(w: &World, prop: &str, seed: u64, idx: u64, variant: u64) -> Plan {
    let mut base = (w.generate)(prop, &mut run_rng(prop, seed, idx, 0));
    base.prop = prop.into();
    base.heap = crate::rng::mix2(seed, idx) % 3;
    heap::set_policy(base.heap);
    if variant == 0 {
        return base;
    }
    let counts = (w.run)(&base).counts;
    let place = w.place.expect("no fault placement");
    let mut p = place(prop, &base, &counts, &mut run_rng(prop, seed, idx, variant));
    p.prop = prop.into();
    p
}

fn argval(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}

fn num(a: &[String], k: &str, d: u64) -> u64 {
    argval(a, k).and_then(|x| x.parse().ok()).unwrap_or(d)
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

/// Known findings: `known: property=<id> key=<key> <text>`.
fn known_findings(prop: &str) -> Vec<(String, String)> {
    let path = verif_dir().join("known_findings.txt");
    let t = std::fs::read_to_string(path).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: ")?;
            let mut it = l.splitn(3, ' ');
            let p = it.next()?.strip_prefix("property=")?;
            let k = it.next()?.strip_prefix("key=")?;
            (p == prop).then(|| (k.to_string(), it.next().unwrap_or("").to_string()))
        })
        .collect()
}

fn verif_dir() -> PathBuf {
    std::env::var_os("MDSIM_VERIF").map(PathBuf::from).unwrap_or_else(|| std::env::current_dir().unwrap())
}

pub fn main(w: &'static World) -> ! {
    sim::install_hooks();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(w, &a),
        Some("child") => child(w, &a),
        Some("exec") => exec(w, &a),
        Some("genplan") => {
            let p = plan_for(w, &argval(&a, "--prop").unwrap(), num(&a, "--seed", 1), num(&a, "--index", 0), num(&a, "--variant", 0));
            print!("{}", p.to_text(w.name, &|c| (w.op_name)(c)));
            0
        }
        _ => {
            eprintln!("usage: check|child|exec|genplan");
            2
        }
    };
    std::process::exit(code)
}

fn execute(w: &World, p: &Plan) -> RunOut {
    heap::set_policy(p.heap);
    let out = (w.run)(p);
    heap::disarm();
    out
}

fn exec(w: &World, a: &[String]) -> i32 {
    let t = std::fs::read_to_string(&a[2]).expect("plan file");
    if let Some(l) = t.lines().find(|l| l.starts_with("batch ")) {
        // batch <prop> <seed> <start> <stride> <last index>
        let f: Vec<&str> = l.split_whitespace().collect();
        let args: Vec<String> = [
            "x", "child", "--prop", f[1], "--seed", f[2], "--start", f[3], "--stride", f[4], "--end",
        ]
        .iter()
        .map(|s| s.to_string())
        .chain([format!("{}", f[5].parse::<u64>().unwrap() + 1), "--stdout".into()])
        .collect();
        return child(w, &args);
    }
    let (_, p) = Plan::from_text(&t).expect("replay file");
    if a.iter().any(|x| x == "--trace") {
        sim().trace = Some(vec![]);
    }
    let out = execute(w, &p);
    if let Some(t) = &sim().trace {
        for l in t {
            println!("TRACE {l}");
        }
    }
    let sched: Vec<String> = out.sched.iter().map(|x| x.to_string()).collect();
    println!("SCHED {}", sched.join(" "));
    match out.viol {
        None => println!("RESULT ok {:016x}", out.hash),
        Some(v) => println!("RESULT viol {} {:016x} {} {} | {}", v.class, out.hash, out.op_index, out.key, v.detail),
    }
    0
}

fn child(w: &World, a: &[String]) -> i32 {
    let prop = argval(a, "--prop").unwrap();
    let seed = num(a, "--seed", 1);
    let start = num(a, "--start", 0);
    let stride = num(a, "--stride", 1);
    let end = num(a, "--end", 1);
    let secs = num(a, "--secs", 3600);
    let stdout = a.iter().any(|x| x == "--stdout");
    let progress = argval(a, "--progress").map(|p| std::fs::OpenOptions::new().create(true).truncate(false).write(true).open(p).unwrap());
    let known = known_findings(&prop);
    let t0 = Instant::now();
    let mut st = Stats::default();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut redo: Vec<(u64, u64, u64)> = vec![];
    let mut found: Option<(u64, u64, RunOut)> = None;
    let mut samples: Vec<String> = vec![];
    let variants = if w.place.is_some() { (w.variants)(&prop) } else { 0 };
    let mut idx = start;
    'outer: while idx < end {
        if t0.elapsed() > Duration::from_secs(secs) {
            break;
        }
        let mut base: Option<Plan> = None;
        let mut counts = vec![];
        for v in 0..=variants {
            if let Some(f) = &progress {
                let mut b = [0u8; 16];
                b[..8].copy_from_slice(&(idx + 1).to_le_bytes());
                b[8..].copy_from_slice(&v.to_le_bytes());
                let _ = f.write_all_at(&b, 0);
            }
            let plan = if v == 0 {
                let mut p = (w.generate)(&prop, &mut run_rng(&prop, seed, idx, 0));
                p.prop = prop.clone();
                p.heap = crate::rng::mix2(seed, idx) % 3;
                base = Some(p.clone());
                p
            } else {
                let mut p = (w.place.unwrap())(&prop, base.as_ref().unwrap(), &counts, &mut run_rng(&prop, seed, idx, v));
                p.prop = prop.clone();
                p
            };
            let cb0 = sim().total_cb;
            let f0 = sim().fired_kinds;
            let mut out = execute(w, &plan);
            st.runs += 1;
            st.steps += out.steps;
            st.events += sim().events;
            st.callbacks += sim().total_cb - cb0;
            st.switches += out.probes.iter().filter(|p| p.0 == "context_switches").map(|p| p.1).sum::<u64>();
            for i in 0..8 {
                st.faults[i] += sim().fired_kinds[i] - f0[i];
            }
            for o in &plan.ops {
                *st.ops.entry((w.op_name)(o.code).to_string()).or_default() += 1;
            }
            for (k, n) in &out.probes {
                *st.probes.entry(k.to_string()).or_default() += n;
            }
            if out.nontrivial {
                st.nontrivial += 1;
                if seen.insert(out.hash) && samples.len() < 3 && st.runs > 40 && out.viol.is_none() {
                    samples.push(plan.to_text(w.name, &|c| (w.op_name)(c)));
                }
            }
            if v == 0 {
                counts = std::mem::take(&mut out.counts);
            }
            if redo.len() < 24 {
                redo.push((idx, v, out.hash));
            }
            if let Some(viol) = &out.viol {
                if let Some(k) = known.iter().find(|k| k.0 == out.key) {
                    *st.known.entry(k.0.clone()).or_default() += 1;
                } else if !(w.relevant)(&prop, viol) {
                    st.foreign += 1;
                } else {
                    found = Some((idx, v, out));
                    break 'outer;
                }
                if v == 0 {
                    // The base run ended early: faults cannot be placed.
                    break;
                }
            }
        }
        idx += stride;
    }
    st.distinct = seen.len() as u64;
    st.blocks = heap::total_tracked();
    *st.probes.entry("blocks_resized_in_place".into()).or_default() += heap::in_place();
    if found.is_none() && !stdout {
        for (i, v, h) in redo {
            let p = plan_for(w, &prop, seed, i, v);
            let out = execute(w, &p);
            st.rechecked += 1;
            if out.hash != h {
                st.mismatches += 1;
                eprintln!("determinism: run {i}/{v} of {prop} gave {:x}, then {:x}", h, out.hash);
            }
        }
    }
    if stdout {
        match &found {
            None => println!("RESULT ok 0"),
            Some((i, v, o)) => {
                let x = o.viol.as_ref().unwrap();
                println!("RESULT viol {} {:016x} {} {} | run {i}/{v}: {}", x.class, o.hash, o.op_index, o.key, x.detail)
            }
        }
        return 0;
    }
    let mut s = String::new();
    let _ = writeln!(s, "runs {}\nsteps {}\nevents {}\ncallbacks {}\nnontrivial {}\nblocks {}\nrechecked {}\nmismatches {}\nforeign {}\nswitches {}",
        st.runs, st.steps, st.events, st.callbacks, st.nontrivial, st.blocks, st.rechecked, st.mismatches, st.foreign, st.switches);
    for i in 0..8 {
        let _ = writeln!(s, "fault {} {}", i, st.faults[i]);
    }
    for (k, n) in &st.ops {
        let _ = writeln!(s, "opc {k} {n}");
    }
    for (k, n) in &st.probes {
        let _ = writeln!(s, "probe {k} {n}");
    }
    for (k, n) in &st.known {
        let _ = writeln!(s, "knownhit {k} {n}");
    }
    if let Some((i, v, o)) = &found {
        let x = o.viol.as_ref().unwrap();
        let _ = writeln!(s, "found {i} {v} {} | {}", x.class, x.detail.replace('\n', " "));
    }
    for x in samples {
        let _ = writeln!(s, "sample {}", x.replace('\n', ";"));
    }
    let out = argval(a, "--out").unwrap();
    let mut hs: Vec<u8> = Vec::with_capacity(seen.len() * 8);
    for h in &seen {
        hs.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(format!("{out}.hashes"), hs).unwrap();
    std::fs::write(&out, s).unwrap();
    0
}

#[derive(Clone, Debug, PartialEq)]
enum Res {
    Ok(u64),
    Viol { class: String, hash: u64, op: usize, key: String, detail: String },
}

fn spawn_exec(file: &Path, timeout: u64, trace: bool) -> (Res, Vec<u32>, Vec<String>) {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe);
    c.arg("exec").arg(file).stdout(Stdio::piped()).stderr(Stdio::null());
    if trace {
        c.arg("--trace");
    }
    let mut ch = c.spawn().expect("spawn");
    let mut so = ch.stdout.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = so.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let t0 = Instant::now();
    let status = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break Some(s);
        }
        if t0.elapsed() > Duration::from_secs(timeout) {
            let _ = ch.kill();
            let _ = ch.wait();
            break None;
        }
        std::thread::sleep(Duration::from_micros(500));
    };
    let text = reader.join().unwrap();
    let mut sched = vec![];
    let mut trace = vec![];
    let crash = |class: String, detail: &str| Res::Viol { key: class.clone(), class, hash: 0, op: 0, detail: detail.into() };
    let Some(status) = status else {
        return (crash("hang".into(), "the run does not end"), sched, trace);
    };
    if let Some(sig) = status.signal() {
        return (crash(format!("crash-signal-{sig}"), "the process was killed by a signal (memory error or abort)"), sched, trace);
    }
    let mut res = None;
    for l in text.lines() {
        if let Some(r) = l.strip_prefix("SCHED ") {
            sched = r.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        } else if let Some(r) = l.strip_prefix("TRACE ") {
            trace.push(r.to_string());
        } else if let Some(r) = l.strip_prefix("RESULT ") {
            let f: Vec<&str> = r.splitn(6, ' ').collect();
            res = Some(if f[0] == "ok" {
                Res::Ok(u64::from_str_radix(f[1], 16).unwrap_or(0))
            } else {
                Res::Viol {
                    class: f[1].into(),
                    hash: u64::from_str_radix(f[2], 16).unwrap_or(0),
                    op: f[3].parse().unwrap_or(0),
                    key: f[4].into(),
                    detail: f.get(5).unwrap_or(&"").trim_start_matches("| ").into(),
                }
            });
        }
    }
    let res = res.unwrap_or_else(|| crash(format!("crash-exit-{}", status.code().unwrap_or(-1)), "the process ended without a result"));
    (res, sched, trace)
}

fn class_of(r: &Res) -> Option<&str> {
    match r {
        Res::Ok(_) => None,
        Res::Viol { class, .. } => Some(class),
    }
}

struct Tmp(PathBuf);
impl Drop for Tmp {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn check(w: &'static World, a: &[String]) -> i32 {
    let prop = argval(a, "--prop").expect("--prop");
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let seed = num(a, "--seed", seed);
    let thorough = argval(a, "--tier").or(std::env::var("VERIF_TIER").ok()).as_deref() == Some("thorough");
    let jobs = num(a, "--jobs", std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(4).clamp(2, 8));
    let total = num(a, "--runs", (w.budget)(&prop, thorough) / num(a, "--share", 1).max(1));
    let secs = num(a, "--secs", if thorough { 600 } else { 70 });
    let profile = argval(a, "--profile").unwrap_or("sim".into());
    let verif = verif_dir();
    let t0 = Instant::now();
    eprintln!("mdsim {}: property {prop}, VERIF_SEED={seed}, tier {}, profile {profile}, {total} plans on {jobs} processes", w.name, if thorough { "thorough" } else { "quick" });
    let tmp = std::env::temp_dir().join(format!("mdsim.{}.{}.{}", w.name, prop, std::process::id()));
    std::fs::create_dir_all(&tmp).expect("scratch directory");
    let tmp = Tmp(tmp);
    let exe = std::env::current_exe().unwrap();
    struct Shard {
        ch: std::process::Child,
        done: Option<std::process::ExitStatus>,
        last: (Vec<u8>, Instant),
        hung: bool,
    }
    let prog = |j: u64| tmp.0.join(format!("p{j}"));
    let outf = |j: u64| tmp.0.join(format!("o{j}"));
    let mut shards: Vec<Shard> = (0..jobs)
        .map(|j| Shard {
            ch: Command::new(&exe)
                .args(["child", "--prop", &prop, "--seed", &seed.to_string(), "--start", &j.to_string(), "--stride", &jobs.to_string(), "--end", &total.to_string(), "--secs", &secs.to_string()])
                .arg("--progress")
                .arg(prog(j))
                .arg("--out")
                .arg(outf(j))
                .stdout(Stdio::null())
                .spawn()
                .expect("spawn"),
            done: None,
            last: (vec![], Instant::now()),
            hung: false,
        })
        .collect();
    let mut first_bad: Option<Instant> = None;
    loop {
        let mut all = true;
        for (j, s) in shards.iter_mut().enumerate() {
            if s.done.is_some() {
                continue;
            }
            if let Some(st) = s.ch.try_wait().unwrap() {
                s.done = Some(st);
                let t = std::fs::read_to_string(outf(j as u64)).unwrap_or_default();
                if !st.success() || t.lines().any(|l| l.starts_with("found ")) {
                    first_bad.get_or_insert(Instant::now());
                }
                continue;
            }
            all = false;
            let p = std::fs::read(prog(j as u64)).unwrap_or_default();
            if p != s.last.0 {
                s.last = (p, Instant::now());
            } else if s.last.1.elapsed() > Duration::from_secs(30) || first_bad.is_some_and(|t| t.elapsed() > Duration::from_secs(3)) {
                s.hung = s.last.1.elapsed() > Duration::from_secs(30);
                let _ = s.ch.kill();
            } else if first_bad.is_some_and(|t| t.elapsed() > Duration::from_secs(3)) {
                let _ = s.ch.kill();
            }
            if first_bad.is_some_and(|t| t.elapsed() > Duration::from_secs(3)) {
                let _ = s.ch.kill();
                s.hung = false;
            }
        }
        if all {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    // Merge.
    let mut st = Stats::default();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut cands: Vec<(u64, u64, u64, String)> = vec![]; // index, variant, shard, what
    for (j, s) in shards.iter().enumerate() {
        let j = j as u64;
        let t = std::fs::read_to_string(outf(j)).unwrap_or_default();
        if t.is_empty() {
            let p = std::fs::read(prog(j)).unwrap_or_default();
            let sig = s.done.and_then(|d| d.signal());
            if p.len() == 16 && (s.hung || (sig.is_some() && sig != Some(9)) || (sig.is_none() && s.done.is_some_and(|d| !d.success()))) {
                let i = u64::from_le_bytes(p[..8].try_into().unwrap());
                let v = u64::from_le_bytes(p[8..].try_into().unwrap());
                cands.push((i - 1, v, j, if s.hung { "hang".into() } else { format!("crash (signal {sig:?})") }));
            }
            continue;
        }
        for l in t.lines() {
            let f: Vec<&str> = l.split_whitespace().collect();
            let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
            match f[0] {
                "runs" => st.runs += n(1),
                "steps" => st.steps += n(1),
                "events" => st.events += n(1),
                "callbacks" => st.callbacks += n(1),
                "nontrivial" => st.nontrivial += n(1),
                "blocks" => st.blocks += n(1),
                "rechecked" => st.rechecked += n(1),
                "mismatches" => st.mismatches += n(1),
                "foreign" => st.foreign += n(1),
                "switches" => st.switches += n(1),
                "fault" => st.faults[n(1) as usize] += n(2),
                "opc" => *st.ops.entry(f[1].into()).or_default() += n(2),
                "probe" => *st.probes.entry(f[1].into()).or_default() += n(2),
                "knownhit" => *st.known.entry(f[1].into()).or_default() += n(2),
                "found" => cands.push((n(1), n(2), j, l.to_string())),
                "sample" => {
                    if samples.len() < 3 {
                        samples.push(l[7..].to_string())
                    }
                }
                _ => {}
            }
        }
        if let Ok(h) = std::fs::read(format!("{}.hashes", outf(j).display())) {
            for c in h.chunks_exact(8) {
                seen.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    st.distinct = seen.len() as u64;
    let explored = t0.elapsed().as_secs_f64();
    cands.sort();
    let replays = verif.join("replays");
    let known = known_findings(&prop);
    let mut verdict = None;
    let mut error = false;
    for (i, v, j, what) in &cands {
        eprintln!("candidate: run {i}/{v} (process {j}): {what}");
        match confirm(w, &prop, seed, *i, *v, *j, jobs, &tmp.0, &replays) {
            Some((path, r)) => {
                if known.iter().any(|k| matches!(&r, Res::Viol { key, .. } if *key == k.0)) {
                    continue;
                }
                verdict = Some((path, r));
                break;
            }
            None => {
                eprintln!("candidate run {i}/{v} did not reproduce");
                error = true;
            }
        }
    }
    // Determinism across processes: sampled runs again in a fresh process.
    if verdict.is_none() {
        for k in 0..(if thorough { 64 } else { 16 }) {
            let i = mix2(seed, k) % total.max(1);
            let v = if w.place.is_some() { 1 } else { 0 };
            let p = plan_for(w, &prop, seed, i, v);
            let here = execute(w, &p);
            let f = tmp.0.join("d.plan");
            std::fs::write(&f, p.to_text(w.name, &|c| (w.op_name)(c))).unwrap();
            let (r, _, _) = spawn_exec(&f, 60, false);
            let h = match &r {
                Res::Ok(h) => *h,
                Res::Viol { hash, .. } => *hash,
            };
            st.rechecked += 1;
            if h != here.hash {
                st.mismatches += 1;
                eprintln!("determinism: run {i}/{v} differs between processes ({:x}, {:x})", h, here.hash);
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut ev = String::new();
    let _ = write!(ev, "{{\n \"property\": \"{prop}\",\n \"tier\": \"{}\",\n \"seed\": {seed},\n \"level\": \"{}\",\n \"violations\": {},\n \"wall_s\": {wall:.2},\n", if thorough { "thorough" } else { "quick" }, w.level, verdict.is_some() as u8);
    let _ = write!(ev, " \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": \"{}\",\n", st.runs, st.distinct, esc((w.rule)(&prop)));
    let _ = write!(ev, "  \"distinct_measure\": \"64-bit hash over the ordered trace of operations, outcomes, user-code calls with their values, fault firings and context switches\",\n");
    let _ = write!(ev, "  \"nontrivial_runs\": {},\n  \"simulated_runs_per_hour\": {:.0},\n  \"seeds\": \"run seed = mix(VERIF_SEED={seed}, property, 0..{total}, variant)\",\n", st.nontrivial, st.runs as f64 / explored.max(0.001) * 3600.0);
    let _ = write!(ev, "  \"simulated_time\": \"the library has no clock; covered time is counted in steps: {} operations, {} user-code callbacks, {} trace events\",\n", st.steps, st.callbacks, st.events);
    ev += "  \"faults_injected\": {";
    let mut first = true;
    for i in 1..8 {
        if st.faults[i] > 0 {
            let _ = write!(ev, "{}\"{}\": {}", if first { "" } else { ", " }, FNAMES[i], st.faults[i]);
            first = false;
        }
    }
    ev += "},\n";
    let js = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("\"{}\": {v}", esc(k))).collect::<Vec<_>>().join(", ");
    let _ = write!(ev, "  \"operations\": {{{}}},\n  \"probes\": {{{}}},\n  \"context_switches\": {},\n  \"tracked_memory_blocks\": {},\n", js(&st.ops), js(&st.probes), st.switches, st.blocks);
    let _ = write!(ev, "  \"determinism_rechecks\": {},\n  \"determinism_mismatches\": {},\n  \"runs_ended_by_other_property\": {},\n  \"known_finding_hits\": {{{}}},\n  \"build_profile\": \"{profile}\",\n  \"also_run\": \"{}\",\n", st.rechecked, st.mismatches, st.foreign, js(&st.known), esc(&argval(a, "--note").unwrap_or_default()));
    let l = |x: &[&str]| x.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(", ");
    let _ = write!(ev, "  \"real_components\": [{}],\n  \"stub_components\": [{}],\n", l(w.real), l(w.stub));
    let _ = write!(ev, "  \"samples\": [{}]\n }},\n", samples.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(", "));
    ev += " \"assumptions\": [\"sampling: a clean batch is evidence, not proof\", \"user panics are never raised while already unwinding\", \"allocation failure unwinds (alloc error hook) instead of aborting\"]\n}\n";
    let _ = std::fs::create_dir_all(verif.join("evidence"));
    std::fs::write(verif.join("evidence").join(format!("{prop}.json")), &ev).expect("evidence");
    eprintln!("{} runs, {} distinct non-trivial, {} callbacks, faults {:?}, {:.1} s", st.runs, st.distinct, st.callbacks, st.faults, wall);
    let _ = KNAMES;
    for k in &known {
        println!("KNOWN-FINDING: property={prop} {} ({})", k.1, k.0);
    }
    if let Some((path, r)) = verdict {
        if let Res::Viol { class, detail, .. } = &r {
            println!("{class}: {detail}");
        }
        println!("VIOLATION property={prop} replay={}", path.display());
        return 1;
    }
    if error || st.mismatches > 0 {
        eprintln!("error of the check: {} (no verdict)", if error { "unreproducible candidate" } else { "nondeterminism" });
        return 2;
    }
    if st.runs == 0 {
        eprintln!("error of the check: nothing ran");
        return 2;
    }
    println!("OK property={prop} runs={} distinct={}", st.runs, st.distinct);
    0
}

/// Reproduces a candidate in fresh processes, minimises it and writes the replay file.
#[allow(clippy::too_many_arguments)]
fn confirm(w: &World, prop: &str, seed: u64, idx: u64, variant: u64, shard: u64, jobs: u64, tmp: &Path, replays: &Path) -> Option<(PathBuf, Res)> {
    let names = |c: u16| (w.op_name)(c);
    let exe = std::env::current_exe().unwrap();
    let o = Command::new(exe)
        .args(["genplan", "--prop", prop, "--seed", &seed.to_string(), "--index", &idx.to_string(), "--variant", &variant.to_string()])
        .stderr(Stdio::null())
        .output()
        .ok()?;
    let _ = std::fs::create_dir_all(replays);
    let path = replays.join(format!("{prop}-{seed}-{idx}-{variant}.replay"));
    let file = tmp.join("m.plan");
    let try_plan = |p: &Plan| -> (Res, Vec<u32>, Vec<String>) {
        std::fs::write(&file, p.to_text(w.name, &names)).unwrap();
        spawn_exec(&file, 60, false)
    };
    let plan = Plan::from_text(&String::from_utf8_lossy(&o.stdout)).filter(|p| !p.1.prop.is_empty()).map(|x| x.1);
    let relevant = |r: &Res| match r {
        Res::Ok(_) => false,
        Res::Viol { class, detail, .. } => (w.relevant)(prop, &Viol { class: class.clone(), detail: detail.clone() }),
    };
    let mut best = None;
    if let Some(p) = plan {
        for _ in 0..2 {
            let r = try_plan(&p);
            if relevant(&r.0) {
                best = Some((p.clone(), r.0, r.1));
                break;
            }
        }
    }
    let Some((mut plan, mut res, sched)) = best else {
        // The state of earlier runs in the same process matters: replay the whole sequence.
        let text = format!("mdsim-replay 1\nworld {}\nbatch {prop} {seed} {shard} {jobs} {idx}\n", w.name);
        std::fs::write(&path, text).unwrap();
        let (a, _, _) = spawn_exec(&path, 600, false);
        return relevant(&a).then_some((path, a));
    };
    let class = class_of(&res).unwrap().to_string();
    // Explicit schedule: every choice written out.
    if plan.tail_seed != 0 && !sched.is_empty() {
        let mut p = plan.clone();
        p.sched = sched;
        p.tail_seed = 0;
        let r = try_plan(&p);
        if class_of(&r.0) == Some(&class) {
            plan = p;
            res = r.0;
        }
    }
    let t0 = Instant::now();
    let budget = std::cell::Cell::new(500u32);
    let attempt = |plan: &mut Plan, res: &mut Res, cand: Plan| -> bool {
        if budget.get() == 0 || t0.elapsed() > Duration::from_secs(40) || cand == *plan {
            return false;
        }
        budget.set(budget.get() - 1);
        let (r, s, _) = try_plan(&cand);
        if class_of(&r) == Some(&class) {
            *plan = cand;
            if plan.tail_seed == 0 && s.len() < plan.sched.len() {
                plan.sched.truncate(s.len());
            }
            *res = r;
            true
        } else {
            false
        }
    };
    loop {
        let before = plan.clone();
        // Nothing after the violating operation matters.
        if let Res::Viol { op, .. } = &res {
            if *op + 1 < plan.ops.len() {
                let mut c = plan.clone();
                c.ops.truncate(*op + 1);
                attempt(&mut plan, &mut res, c);
            }
        }
        let mut chunk = plan.ops.len() / 2;
        while chunk >= 1 {
            let mut i = 0;
            while i < plan.ops.len() {
                let mut c = plan.clone();
                let e = (i + chunk).min(c.ops.len());
                c.ops.drain(i..e);
                if !attempt(&mut plan, &mut res, c) {
                    i += chunk;
                }
            }
            chunk /= 2;
        }
        for i in 0..plan.ops.len() {
            if plan.ops[i].fault.is_some() {
                let mut c = plan.clone();
                c.ops[i].fault = None;
                attempt(&mut plan, &mut res, c);
            }
        }
        let mut chunk = plan.sched.len();
        while chunk >= 1 {
            let mut i = 0;
            while i < plan.sched.len() {
                let mut c = plan.clone();
                let e = (i + chunk).min(c.sched.len());
                if c.sched[i..e].iter().all(|&x| x == 0) {
                    i += chunk;
                    continue;
                }
                c.sched[i..e].iter_mut().for_each(|x| *x = 0);
                attempt(&mut plan, &mut res, c);
                i += chunk;
            }
            chunk /= 2;
        }
        if plan.heap > 0 {
            let mut c = plan.clone();
            c.heap = 0;
            attempt(&mut plan, &mut res, c);
        }
        for i in 0..plan.cfg.len() {
            for v in [0, 1, 2] {
                if plan.cfg[i] > v {
                    let mut c = plan.clone();
                    c.cfg[i] = v;
                    if attempt(&mut plan, &mut res, c) {
                        break;
                    }
                }
            }
        }
        for i in 0..plan.ops.len() {
            for k in 0..6 {
                for v in [0, 1] {
                    if plan.ops[i].a[k] > v {
                        let mut c = plan.clone();
                        c.ops[i].a[k] = v;
                        if attempt(&mut plan, &mut res, c) {
                            break;
                        }
                    }
                }
            }
            if let Some((k, n)) = plan.ops[i].fault {
                for v in [0, n / 2, n.saturating_sub(1)] {
                    if v < n {
                        let mut c = plan.clone();
                        c.ops[i].fault = Some((k, v));
                        if attempt(&mut plan, &mut res, c) {
                            break;
                        }
                    }
                }
            }
        }
        while plan.sched.last() == Some(&0) {
            plan.sched.pop();
        }
        if plan == before || budget.get() == 0 {
            break;
        }
    }
    let text = plan.to_text(w.name, &names);
    std::fs::write(&path, &text).unwrap();
    let (a, _, _) = spawn_exec(&path, 60, false);
    let (b, _, trace) = spawn_exec(&path, 60, true);
    if class_of(&a) != Some(&class) || a != b {
        eprintln!("replay is not exact: {a:?} / {b:?}");
        if class_of(&a) != Some(&class) {
            return None;
        }
    }
    let mut full = text;
    let _ = writeln!(full, "# seed VERIF_SEED={seed} run {idx} variant {variant}");
    if let Res::Viol { class, detail, hash, .. } = &a {
        let _ = writeln!(full, "# violation {class}: {detail}\n# event hash {hash:016x}");
    }
    let profile = argval(&std::env::args().collect::<Vec<_>>(), "--profile").unwrap_or("sim".into());
    let _ = writeln!(full, "# profile {profile}");
    let _ = writeln!(full, "# replay: cd /verif && ./check.sh replay {}", path.display());
    for l in trace {
        let _ = writeln!(full, "# trace {l}");
    }
    std::fs::write(&path, full).unwrap();
    let _ = std::io::stderr().flush();
    Some((path, a))
}

/// Helper for `place`: puts `n` faults of the given kinds into the plan.
pub fn place_faults(base: &Plan, counts: &[(u64, u64)], r: &mut Rng, kinds: &[u8], n: u64, ok: &dyn Fn(&Op) -> bool) -> Plan {
    let mut p = base.clone();
    for _ in 0..n {
        // Prefer operations with something to interrupt.
        for _ in 0..8 {
            let kind = *r.pick(kinds);
            let i = r.below(p.ops.len() as u64) as usize;
            let (cb, al) = counts.get(i).copied().unwrap_or((0, 0));
            let m = match kind {
                sim::F_OOM | sim::F_OOM_ALL => al,
                sim::F_BLACKOUT => 1,
                _ => cb,
            };
            if m == 0 || p.ops[i].fault.is_some() || !ok(&p.ops[i]) {
                continue;
            }
            // First and last positions are favoured: that is where bookkeeping changes.
            let at = match r.below(5) {
                0 => 0,
                1 => m - 1,
                _ => r.below(m),
            };
            p.ops[i].fault = Some((kind, at));
            break;
        }
    }
    p
}
