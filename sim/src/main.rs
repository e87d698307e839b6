//! simchain: deterministic simulation of a phoenix-v1 deployment.
//!   simchain check  <P01..P27> <quick|thorough> <evidence.json> <replay dir> <known findings>
//!   simchain replay <file>
mod chain;
mod exec;
mod model;
mod parse;
mod props;
mod situ;
mod replay;
mod client;
mod idl;
mod views;
mod wire;
mod world;
use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

static BEAT: AtomicU64 = AtomicU64::new(0);
const HANG_S: u64 = 60;

fn run_seed(seed: u64, p: u32, i: u64) -> u64 { fnv(fnv(fnv(0xd5, seed), p as u64), i) }

struct Known {
    prop: String,
    cat: String,
    tag: String,
    text: String,
}
/// `finding: property=P05 cat=book tag=Swap text=...`; lines starting with `fixed:` suppress nothing
fn known(path: &Path) -> Vec<Known> {
    let mut v = vec![];
    for l in fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(r) = l.trim().strip_prefix("finding: ") {
            let f = |k: &str| {
                r.split_whitespace().find_map(|w| w.strip_prefix(k)).unwrap_or("").to_string()
            };
            let text = r.split_once("text=").map(|x| x.1.to_string()).unwrap_or_default();
            v.push(Known { prop: f("property="), cat: f("cat="), tag: f("tag="), text });
        }
    }
    v
}
fn is_known(k: &[Known], p: u32, v: &Viol) -> bool {
    k.iter().any(|x| {
        x.prop == props::id(p) && x.cat == v.cat && x.tag == wire::tag_name(v.tag) && v.detail.contains(&x.text)
    })
}

fn one_run(p: u32, seed: u64, i: u64, stop: &dyn Fn(&Viol) -> bool, dump: Option<&Path>) -> (Stats, Option<Viol>, Vec<Step>, BTreeMap<String, u64>) {
    let mut ex = Exec::new(props::mode(p), props::relevant);
    let mut w = world::World::new(run_seed(seed, p, i), props::profile(p, i), &mut ex, stop);
    if let Some(d) = dump {
        w.dump = Some(fs::OpenOptions::new().create(true).append(true).open(d).unwrap());
    }
    w.run();
    let (f, t, o) = (w.found.take(), std::mem::take(&mut w.trace), std::mem::take(&mut w.others));
    (ex.stats, f, t, o)
}

fn header(p: u32, seed: u64, i: u64) -> String {
    format!("property {}\nviews {}\nseed {seed} run {i}\n", props::id(p), props::mode(p))
}
fn write_replay(path: &Path, p: u32, seed: u64, i: u64, v: &Viol, steps: &[Step], note: &str) {
    let mut o = header(p, seed, i);
    o.push_str(&format!(
        "expect step={} category={} instruction={} reasons={:?}\ndetail {}\n",
        v.step,
        v.cat,
        wire::tag_name(v.tag),
        v.reasons,
        v.detail.replace('\n', " ")
    ));
    o.push_str(&format!("note {note}\n"));
    for s in steps {
        o.push_str(&replay::step_text(s));
        o.push('\n');
    }
    fs::write(path, o).unwrap();
}

// ---------------------------------------------------------------------- worker
/// A step that makes no progress for so long ends the process.
fn watch(secs: u64, f: impl Fn() -> i32 + Send + 'static) {
    std::thread::spawn(move || {
        let mut last = (BEAT.load(Ordering::Relaxed), Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let b = BEAT.load(Ordering::Relaxed);
            if b != last.0 {
                last = (b, Instant::now());
            } else if last.1.elapsed() > Duration::from_secs(secs) {
                std::process::exit(f());
            }
        }
    });
}
extern "C" {
    fn setrlimit(what: i32, limit: *const [u64; 2]) -> i32;
}
/// A loop that only ever allocates has to end this process and no other.
fn confine() {
    const RLIMIT_AS: i32 = 9;
    let l = [3u64 << 30; 2];
    unsafe { setrlimit(RLIMIT_AS, &l) };
}
/// The properties an execution that hangs or dies contradicts, from what it was doing.
fn died(kind: &'static str, doing: u64) -> u32 {
    if doing & exec::D_VIEW != 0 {
        return props::props_of(&viol("views", 255, 0, String::new()));
    }
    if doing & exec::D_IX == 0 {
        return props::props_of(&viol(kind, 255, 0, String::new()));
    }
    let (tag, ctx) = ((doing >> 32) as u8, doing as u32);
    let mut p = props::props_of(&viol(kind, tag, ctx, String::new()));
    if doing & exec::D_DUE != 0 {
        p |= props::props_of(&viol("refused", tag, ctx, String::new()));
    }
    p
}

fn worker(a: &[String]) {
    let p: u32 = a[0].parse().unwrap();
    let seed: u64 = a[1].parse().unwrap();
    let (w, n, total): (u64, u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
    let secs: u64 = a[5].parse().unwrap();
    let dir = PathBuf::from(&a[6]);
    let kn = known(Path::new(&a[7]));
    props::PROP.store(p, Ordering::Relaxed);
    let cur = dir.join(format!("cur-{w}"));
    confine();
    watch(HANG_S, || 97);
    let t0 = Instant::now();
    let mut agg = Stats::default();
    let mut runs = 0;
    let mut others: BTreeMap<String, u64> = BTreeMap::new();
    let mut knowns: BTreeSet<String> = BTreeSet::new();
    let stopf = dir.join("stop");
    let lowest = |f: &Path| -> u64 { fs::read_to_string(f).ok().and_then(|x| x.trim().parse().ok()).unwrap_or(u64::MAX) };
    let mut i = w;
    while i < total && t0.elapsed().as_secs() < secs && lowest(&stopf) > i {
        fs::write(&cur, format!("{i}")).unwrap();
        let stop = |v: &Viol| props::props_of(v) & (1 << p) != 0 && !is_known(&kn, p, v);
        // a panic of the simulator itself: this run says nothing, the others still count
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| one_run(p, seed, i, &stop, None)));
        let Ok((st, found, trace, oth)) = r else {
            fs::write(dir.join(format!("broken-{i}")), "").unwrap();
            i += n;
            continue;
        };
        if i == w && found.is_none() {
            // the same seed must give the same execution
            let (s2, _, t2, _) = one_run(p, seed, i, &stop, None);
            let same = s2.hash == st.hash && t2.len() == trace.len()
                && t2.iter().zip(trace.iter()).all(|(a, b)| replay::step_text(a) == replay::step_text(b));
            if !same {
                fs::write(dir.join(format!("nondet-{w}")), format!("{i}")).unwrap();
                std::process::exit(96);
            }
        }
        runs += 1;
        for (k, v) in oth {
            if kn.iter().any(|x| x.prop == props::id(p) && k.starts_with(&format!("{} {}", x.cat, x.tag)) && k.contains(&x.text)) {
                knowns.insert(k.clone());
            }
            let short: String = k.split(' ').take(2).collect::<Vec<_>>().join(" ");
            *others.entry(short).or_default() += v;
        }
        merge(&mut agg, &st, i);
        if let Some(v) = found {
            write_replay(&dir.join(format!("raw-{i}")), p, seed, i, &v, &trace, "not minimised");
            if lowest(&stopf) > i {
                let tmp = dir.join(format!("stop-{w}"));
                fs::write(&tmp, format!("{i}")).unwrap();
                let _ = fs::rename(&tmp, &stopf);
            }
            break;
        }
        i += n;
    }
    let mut o = String::new();
    let mut kv = |k: &str, v: u64| o.push_str(&format!("n {k} {v}\n"));
    kv("runs", runs);
    for (k, v) in counters(&agg) {
        kv(k, v);
    }
    for (g, m) in [("by", &agg.by)] {
        for (k, v) in m {
            o.push_str(&format!("{g} {k} {v}\n"));
        }
    }
    for (g, m) in [("ctx", &agg.ctx), ("why", &agg.reasons), ("ev", &agg.evs), ("net", &agg.net), ("cli", &agg.cli), ("situ", &agg.situ)] {
        for (k, v) in m {
            o.push_str(&format!("{g} {k} {v}\n"));
        }
    }
    for h in &agg.rel {
        o.push_str(&format!("rel {h} 1\n"));
    }
    for h in &agg.behaviours {
        o.push_str(&format!("beh {h} 1\n"));
    }
    for (name, b) in [("pairs", &agg.pairs), ("states", &agg.states)] {
        o.push_str(&format!("bits {name} "));
        for x in &b.0 {
            o.push_str(&format!("{x:x},"));
        }
        o.push('\n');
    }
    for s in &agg.samples {
        o.push_str(&format!("sample {s}\n"));
    }
    for (k, v) in &others {
        o.push_str(&format!("oth {} {v}\n", k.replace(' ', "/")));
    }
    for k in &knowns {
        o.push_str(&format!("known {}\n", k.replace('\n', " ")));
    }
    fs::write(dir.join(format!("out-{w}")), o).unwrap();
    let _ = fs::remove_file(&cur);
}
fn counters(s: &Stats) -> Vec<(&'static str, u64)> {
    vec![
        ("transactions", s.txs),
        ("instructions", s.ixs),
        ("accepted", s.ok),
        ("refused", s.refused),
        ("faults_error", s.faults_error),
        ("faults_kill", s.faults_kill),
        ("rolled_back_txs", s.rolled_back_txs),
        ("forks", s.forks),
        ("clock_steps", s.clock_steps),
        ("slots", s.slots),
        ("secs", s.secs),
        ("account_writes", s.puts),
        ("relevant", s.relevant),
        ("views", s.views),
        ("syncs", s.syncs),
    ]
}
fn merge(a: &mut Stats, s: &Stats, run: u64) {
    a.txs += s.txs;
    a.ixs += s.ixs;
    a.ok += s.ok;
    a.refused += s.refused;
    a.faults_error += s.faults_error;
    a.faults_kill += s.faults_kill;
    a.rolled_back_txs += s.rolled_back_txs;
    a.forks += s.forks;
    a.clock_steps += s.clock_steps;
    a.slots = a.slots.saturating_add(s.slots.min(1 << 40));
    a.secs = a.secs.saturating_add(s.secs.min(1 << 40));
    a.puts += s.puts;
    a.relevant += s.relevant;
    a.views += s.views;
    a.syncs += s.syncs;
    for (k, v) in &s.by {
        *a.by.entry(k.clone()).or_default() += v
    }
    for (x, y) in [(&mut a.ctx, &s.ctx), (&mut a.reasons, &s.reasons), (&mut a.evs, &s.evs), (&mut a.net, &s.net), (&mut a.cli, &s.cli), (&mut a.situ, &s.situ)] {
        for (k, v) in y {
            *x.entry(k).or_default() += v
        }
    }
    a.rel.extend(s.rel.iter());
    a.behaviours.extend(s.behaviours.iter());
    a.pairs.merge(&s.pairs);
    a.states.merge(&s.states);
    if a.samples.len() < 8 {
        if let Some(x) = s.samples.get((run % 5) as usize).or(s.samples.first()) {
            a.samples.push(format!("run {run} {x}"));
        }
    }
}

// ---------------------------------------------------------------------- driver
struct Out {
    n: BTreeMap<String, u64>,
    groups: BTreeMap<String, BTreeMap<String, u64>>,
    samples: Vec<String>,
    known: BTreeSet<String>,
    bits: BTreeMap<String, Bits>,
}
fn gather(dir: &Path, w: u64, o: &mut Out) {
    let t = fs::read_to_string(dir.join(format!("out-{w}"))).unwrap_or_default();
    for l in t.lines() {
        let (g, r) = l.split_once(' ').unwrap_or((l, ""));
        match g {
            "sample" => o.samples.push(r.into()),
            "known" => {
                o.known.insert(r.into());
            }
            "bits" => {
                let (k, v) = r.split_once(' ').unwrap();
                let b = Bits(v.split(',').filter(|x| !x.is_empty()).map(|x| u64::from_str_radix(x, 16).unwrap()).collect());
                o.bits.entry(k.into()).or_default().merge(&b);
            }
            _ => {
                let (k, v) = r.rsplit_once(' ').unwrap();
                let v: u64 = v.parse().unwrap();
                if g == "n" {
                    *o.n.entry(k.into()).or_default() += v
                } else {
                    *o.groups.entry(g.into()).or_default().entry(k.into()).or_default() += v
                }
            }
        }
    }
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o + "\""
}
fn jmap(m: &BTreeMap<String, u64>) -> String {
    format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", "))
}
fn wait_for(c: &mut std::process::Child, limit: Duration) -> Option<i32> {
    let t = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(s)) => return Some(s.code().unwrap_or(-1)),
            Ok(None) if t.elapsed() > limit => {
                let _ = c.kill();
                let _ = c.wait();
                return None;
            }
            _ => std::thread::sleep(Duration::from_millis(20)),
        }
    }
}
fn me() -> Command {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.stdout(Stdio::null()).stdin(Stdio::null());
    c
}

fn check(a: &[String]) -> i32 {
    let t0 = Instant::now();
    let p = match props::parse_id(&a[0]) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", a[0]);
            return 2;
        }
    };
    let tier = a[1].as_str();
    let evidence = PathBuf::from(&a[2]);
    let rdir = PathBuf::from(&a[3]);
    let knf = a[4].clone();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let (mut total, mut secs) = if tier == "thorough" { (u64::MAX / 2, 600) } else { (props::quick_runs(p), 60) };
    if let Some(x) = std::env::var("SIM_RUNS").ok().and_then(|x| x.parse().ok()) {
        total = x;
    }
    if let Some(x) = std::env::var("SIM_SECS").ok().and_then(|x| x.parse().ok()) {
        secs = x;
    }
    let nw = std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(4).clamp(1, 16);
    fs::create_dir_all(&rdir).unwrap();
    let dir = rdir.join(format!("work-{}-{}", props::id(p), std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let mut kids: Vec<_> = (0..nw)
        .map(|w| {
            let mut c = me();
            c.args(["worker", &p.to_string(), &seed.to_string(), &w.to_string(), &nw.to_string(), &total.to_string(), &secs.to_string()])
                .arg(&dir)
                .arg(&knf);
            c.spawn().unwrap()
        })
        .collect();
    let mut internal: Option<String> = None;
    let mut crashes: Vec<(u64, &'static str, String)> = vec![];
    for (w, c) in kids.iter_mut().enumerate() {
        let code = wait_for(c, Duration::from_secs(secs + HANG_S + 60));
        let cur = fs::read_to_string(dir.join(format!("cur-{w}"))).ok().and_then(|x| x.parse::<u64>().ok());
        match (code, cur) {
            (Some(0), _) => {}
            (Some(96), _) => internal = Some(format!("worker {w}: the same seed gave two different executions")),
            (c, Some(i)) => {
                let hang = c == Some(97) || c.is_none();
                crashes.push((i, if hang { "hang" } else { "crash" }, format!("worker ended with {c:?} in run {i}")));
            }
            (c, None) => internal = Some(format!("worker {w} ended with {c:?}")),
        }
    }
    if let Some(f) = fs::read_dir(&dir).ok().and_then(|d| d.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).find(|f| f.starts_with("broken-"))) {
        internal = Some(format!("the simulator itself panicked in run {}", &f[7..]));
    }
    let mut o = Out { n: BTreeMap::new(), groups: BTreeMap::new(), samples: vec![], known: BTreeSet::new(), bits: BTreeMap::new() };
    for w in 0..nw {
        gather(&dir, w, &mut o);
    }
    let mut violation: Option<(PathBuf, String)> = None;
    let first = fs::read_to_string(dir.join("stop")).ok().and_then(|x| x.trim().parse::<u64>().ok());
    let mut shrink = String::new();
    if let Some(i) = first {
        let raw = dir.join(format!("raw-{i}"));
        let dst = rdir.join(format!("{}-seed{seed}-run{i}.replay", props::id(p)));
        fs::copy(&raw, &dst).unwrap();
        let mut c = me();
        c.arg("min").arg(&raw).arg(&dst).arg("60");
        wait_for(&mut c.spawn().unwrap(), Duration::from_secs(120));
        let txt = fs::read_to_string(&dst).unwrap_or_default();
        let detail = txt.lines().filter(|l| l.starts_with("expect ") || l.starts_with("detail ") || l.starts_with("note ")).collect::<Vec<_>>().join("; ");
        shrink = detail.clone();
        violation = Some((dst, detail));
    }
    if violation.is_none() && !crashes.is_empty() {
        // run them again, writing every step down before it is taken
        crashes.sort();
        let again: Vec<_> = crashes
            .iter()
            .map(|(i, kind, what)| {
                let dst = rdir.join(format!("{}-seed{seed}-run{i}.replay", props::id(p)));
                let mut hd = header(p, seed, *i);
                hd.push_str(&format!("expect category={kind}\ndetail {what}\n"));
                fs::write(&dst, hd).unwrap();
                let mut c = me();
                c.args(["dump", &p.to_string(), &seed.to_string(), &i.to_string()]).arg(&dst).arg(dir.join(format!("doing-{i}")));
                (dst, c.spawn().unwrap())
            })
            .collect();
        for ((i, kind, what), (dst, mut c)) in crashes.iter().zip(again) {
            let code = wait_for(&mut c, Duration::from_secs(2 * HANG_S));
            let doing = fs::read_to_string(dir.join(format!("doing-{i}"))).ok().and_then(|x| x.parse().ok()).unwrap_or(0);
            if code == Some(0) && *kind == "hang" {
                eprintln!("note: {what}, but it ends when run again: the machine was slow, and this worker's runs are not counted");
            } else if code == Some(0) {
                internal = Some(format!("{what}, but not when run again"));
            } else if violation.is_none() && died(kind, doing) & (1 << p) != 0 {
                let at = if doing & exec::D_IX != 0 { wire::tag_name((doing >> 32) as u8) } else { "reading a market" };
                minimise_dead(&dst, kind, doing, &dir);
                violation = Some((dst, format!("the simulated programs {kind} in {at} ({what}, again {code:?})")));
                continue;
            } else if violation.is_none() {
                eprintln!("note: {what}; this belongs to other properties");
            }
            let _ = fs::remove_file(&dst);
        }
    }
    let _ = fs::remove_dir_all(&dir);
    for k in &o.known {
        println!("KNOWN-FINDING: property={} {k}", props::id(p));
    }
    // evidence
    let wall = t0.elapsed().as_secs_f64();
    let n = |k: &str| o.n.get(k).copied().unwrap_or(0);
    let g = |k: &str| o.groups.get(k).cloned().unwrap_or_default();
    let bits = |k: &str| o.bits.get(k).map(|b| b.count()).unwrap_or(0);
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    faults.insert("syscall_error".into(), n("faults_error"));
    faults.insert("virtual_machine_stop".into(), n("faults_kill"));
    faults.insert("rolled_back_bundles".into(), n("rolled_back_txs"));
    faults.insert("ledger_forks".into(), n("forks"));
    faults.insert("clock_steps".into(), n("clock_steps"));
    faults.insert("log_deliveries_scrambled".into(), n("syncs"));
    for (k, v) in g("net") {
        faults.insert(k, v);
    }
    let per_h = (n("runs") as f64 / wall * 3600.0) as u64;
    let samples: Vec<String> = o.samples.iter().take(12).map(|s| js(s)).collect();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"simulated_runs\": {},\n  \"runs_per_hour\": {per_h},\n  \"instructions\": {},\n  \"transactions\": {},\n  \"accepted\": {},\n  \"refused_or_aborted\": {},\n  \"simulated_slots\": {},\n  \"simulated_seconds\": {},\n  \"faults_injected\": {},\n  \"behaviours_distinct\": {},\n  \"consecutive_behaviour_pairs_distinct_at_least\": {},\n  \"abstract_market_states_distinct_at_least\": {},\n  \"instructions_by_outcome\": {},\n  \"circumstances\": {},\n  \"refusal_reasons\": {},\n  \"events_logged\": {},\n  \"situations_reached\": {},\n  \"situations_not_reached\": [{}],\n  \"view_checks\": {},\n  \"published_client_forms_compared\": {},\n  \"violations_of_other_properties_seen\": {},\n  \"real_components\": [\"phoenix-v1 processor and state (all instructions)\", \"sokoban red-black trees\", \"spl-token 3.5.0 processor\"],\n  \"simulated_components\": [\"ledger, runtime privilege rules and rollback\", \"system program\", \"clock and rent sysvars\", \"clients, network, forks, indexer\", \"compute metering (as injected stops)\"]\n }},\n \"assumptions\": [\"native build of the program behaves as its SBF build\", \"the simulated runtime enforces the same account rules as Solana\", \"seeded search: what was not reached was not judged\"],\n \"wall_s\": {wall:.2},\n \"violations\": {}\n}}\n",
        js(&props::id(p)),
        js(tier),
        n("relevant"),
        g("rel").len(),
        js("An evaluation is one instruction of a simulated run that exercises the property (see DESIGN.md for the filter); two are the same when instruction, outcome, circumstances met, refusal reasons and injected stop agree. Runs are generated from VERIF_SEED; every step is judged by the reference model and the invariants."),
        samples.join(", "),
        n("runs"),
        n("instructions"),
        n("transactions"),
        n("accepted"),
        n("refused"),
        n("slots"),
        n("secs"),
        jmap(&faults),
        g("beh").len(),
        bits("pairs"),
        bits("states"),
        jmap(&g("by")),
        jmap(&g("ctx")),
        jmap(&g("why")),
        jmap(&g("ev")),
        jmap(&g("situ")),
        situ::ALL.iter().filter(|x| !g("situ").contains_key(**x)).map(|x| js(x)).collect::<Vec<_>>().join(", "),
        n("views"),
        jmap(&g("cli")),
        jmap(&g("oth")),
        violation.is_some() as u64,
    );
    if let Some(d) = evidence.parent() {
        let _ = fs::create_dir_all(d);
    }
    fs::write(&evidence, ev).unwrap();
    if let Some((path, what)) = violation {
        println!("{what}");
        if !shrink.is_empty() {
            println!("replay with: /verif/replay.sh {}", path.display());
        }
        println!("VIOLATION property={} replay={}", props::id(p), path.display());
        return 1;
    }
    if let Some(e) = internal {
        eprintln!("internal error: {e}");
        return 2;
    }
    println!(
        "{}: held on {} evaluations in {} runs ({} instructions, {:.1} s)",
        props::id(p),
        n("relevant"),
        n("runs"),
        n("instructions"),
        wall
    );
    0
}

struct Replay {
    p: u32,
    seed: u64,
    run: u64,
    views: u8,
    expect: String,
    steps: Vec<Step>,
}
fn load(path: &str) -> Option<Replay> {
    let t = fs::read_to_string(path).ok()?;
    let mut r = Replay { p: 0, seed: 0, run: 0, views: 0, expect: String::new(), steps: vec![] };
    for l in t.lines() {
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "property" => r.p = props::parse_id(v)?,
            "views" => r.views = v.parse().ok()?,
            "seed" => {
                let w: Vec<&str> = v.split(' ').collect();
                r.seed = w.first()?.parse().ok()?;
                r.run = w.get(2)?.parse().ok()?;
            }
            "expect" => r.expect = v.into(),
            "detail" | "note" | "" => {}
            _ => r.steps.push(replay::parse_step(l)?),
        }
    }
    Some(r)
}

fn minimise(a: &[String]) {
    let r = load(&a[0]).expect("replay file");
    props::PROP.store(r.p, Ordering::Relaxed);
    let mine = |v: &Viol| props::props_of(v) & (1 << r.p) != 0;
    let v0 = replay::execute(&r.steps, r.views, props::relevant, &mine).expect("violation does not repeat");
    let same = |v: &Viol| mine(v) && v.cat == v0.cat && v.tag == v0.tag && v.reasons == v0.reasons;
    let n0 = r.steps.len();
    let until = Instant::now() + Duration::from_secs(a[2].parse().unwrap());
    let (steps, execs) = replay::minimise(r.steps, until, &|s| {
        replay::execute(s, r.views, props::relevant, &same).map(|v| v.step)
    });
    if let Some(v) = replay::execute(&steps, r.views, props::relevant, &same) {
        write_replay(
            Path::new(&a[1]),
            r.p,
            r.seed,
            r.run,
            &v,
            &steps,
            &format!("minimised from {n0} to {} steps in {execs} executions", steps.len()),
        );
    }
}

/// As minimise, for a schedule that makes the programs hang or die: each candidate in its own process.
fn minimise_dead(file: &Path, kind: &'static str, doing: u64, dir: &Path) {
    let Some(r) = load(&file.to_string_lossy()) else { return };
    let head: String = fs::read_to_string(file).unwrap().lines().take_while(|l| replay::parse_step(l).is_none()).map(|l| format!("{l}\n")).collect();
    let (f, d) = (dir.join("try"), dir.join("try-doing"));
    let put = |f: &Path, note: &str, s: &[Step]| {
        let mut o = head.clone() + note;
        for x in s {
            o.push_str(&replay::step_text(x));
            o.push('\n');
        }
        fs::write(f, o).unwrap();
    };
    let dead = |s: &[Step], secs: u64| -> bool {
        put(&f, "", s);
        let _ = fs::remove_file(&d);
        let mut c = me();
        c.stderr(Stdio::null()).arg("try").arg(&f).arg(&d).arg(secs.to_string());
        let code = wait_for(&mut c.spawn().unwrap(), Duration::from_secs(60));
        let now: u64 = fs::read_to_string(&d).ok().and_then(|x| x.parse().ok()).unwrap_or(0);
        code != Some(0) && (code == Some(97)) == (kind == "hang") && now >> 32 == doing >> 32
    };
    let n0 = r.steps.len();
    let (steps, execs) = replay::minimise(r.steps, Instant::now() + Duration::from_secs(60), &|s| dead(s, 1).then(|| s.len() - 1));
    if dead(&steps, 10) {
        put(file, &format!("note minimised from {n0} to {} steps in {execs} executions\n", steps.len()), &steps);
    }
}

fn do_replay(a: &[String]) -> i32 {
    let r = match load(&a[0]) {
        Some(r) => r,
        None => {
            eprintln!("cannot read {}", a[0]);
            return 2;
        }
    };
    props::PROP.store(r.p, Ordering::Relaxed);
    eprintln!("expected: {}", r.expect);
    confine();
    watch(HANG_S / 2, || {
        eprintln!("  VIOLATION hang: this step does not end");
        1
    });
    let mut ex = Exec::new(r.views, props::relevant);
    let mut bad = 0;
    for (i, s) in r.steps.iter().enumerate() {
        beat();
        let line = replay::step_text(s);
        let what = match s {
            Step::Tx(t) => t
                .ixs
                .iter()
                .map(|x| if x.program == chain::phoenix_id() { wire::tag_name(x.data.first().copied().unwrap_or(255)) } else { "other program" })
                .collect::<Vec<_>>()
                .join(" + "),
            _ => line.chars().take(60).collect(),
        };
        eprintln!("step {i}: {what}");
        for v in ex.step(s) {
            let mine = props::props_of(&v) & (1 << r.p) != 0;
            eprintln!("  {} {} {}: {}", if mine { "VIOLATION" } else { "also" }, v.cat, wire::tag_name(v.tag), v.detail);
            bad += mine as u32;
        }
    }
    eprintln!("{} violation(s) of {}; execution hash {:016x}", bad, props::id(r.p), ex.stats.hash);
    (bad > 0) as i32
}

pub fn beat() { BEAT.fetch_add(1, Ordering::Relaxed); }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    if cmd != "check" {
        chain::install();
    }
    let rest = &a[2.min(a.len())..];
    let code = match cmd {
        "check" if rest.len() >= 5 => check(rest),
        "worker" => {
            worker(rest);
            0
        }
        "min" => {
            minimise(rest);
            0
        }
        "try" => {
            let r = load(&rest[0]).unwrap();
            props::PROP.store(r.p, Ordering::Relaxed);
            let _ = exec::DOING_FILE.set(PathBuf::from(&rest[1]));
            confine();
            watch(rest[2].parse().unwrap(), || 97);
            let mut ex = Exec::new(r.views, props::relevant);
            for s in &r.steps {
                beat();
                ex.step(s);
            }
            0
        }
        "dump" => {
            let (p, seed, i): (u32, u64, u64) = (rest[0].parse().unwrap(), rest[1].parse().unwrap(), rest[2].parse().unwrap());
            props::PROP.store(p, Ordering::Relaxed);
            let _ = exec::DOING_FILE.set(PathBuf::from(&rest[4]));
            confine();
            watch(HANG_S / 2, || 97);
            one_run(p, seed, i, &|_| false, Some(Path::new(&rest[3])));
            0
        }
        "replay" if rest.len() == 1 => do_replay(rest),
        "smoke" => {
            // every property's mix, all violations listed: smoke <runs> <seed>
            let (n, seed): (u64, u64) = (rest[0].parse().unwrap(), rest[1].parse().unwrap());
            let mut agg: BTreeMap<String, u64> = BTreeMap::new();
            let only = rest.get(2).and_then(|x| props::parse_id(x));
            let stop = std::env::var_os("SMOKE_STOP").is_some();
            'all: for p in 1..=props::NP {
                if only.map(|x| x != p).unwrap_or(false) {
                    continue;
                }
                for i in 0..n {
                    let (_, _, _, o) = one_run(p, seed, i, &|_| false, None);
                    for (k, v) in o {
                        *agg.entry(format!("{} {i}: {k}", props::id(p))).or_default() += v;
                    }
                    if stop && !agg.is_empty() {
                        break 'all;
                    }
                }
            }
            for (k, v) in agg.iter().take(60) {
                eprintln!("{v} x {k}");
            }
            eprintln!("{} kinds", agg.len());
            0
        }
        _ => {
            eprintln!("usage: simchain check <P> <tier> <evidence> <replays> <known> | replay <file>");
            2
        }
    };
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}
