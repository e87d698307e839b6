//! Replay files: the concrete schedule and faults of a run, one step per line.
use crate::chain::*;
use crate::exec::*;
use solana_program::pubkey::Pubkey;
use std::rc::Rc;

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}
/// hex, with long runs of zeros as z<count>
fn pack(d: &[u8]) -> String {
    let mut out: Vec<String> = vec![];
    let mut i = 0;
    let mut lit = vec![];
    while i < d.len() {
        let z = d[i..].iter().take_while(|x| **x == 0).count();
        if z >= 16 {
            if !lit.is_empty() {
                out.push(hex(&lit));
                lit.clear();
            }
            out.push(format!("z{z}"));
            i += z;
        } else {
            lit.push(d[i]);
            i += 1;
        }
    }
    if !lit.is_empty() {
        out.push(hex(&lit));
    }
    if out.is_empty() {
        return "-".into();
    }
    out.join(".")
}
fn unpack(s: &str) -> Option<Vec<u8>> {
    let mut v = vec![];
    if s == "-" {
        return Some(v);
    }
    for p in s.split('.') {
        match p.strip_prefix('z') {
            Some(n) => v.resize(v.len() + n.parse::<usize>().ok()?, 0),
            None => v.extend(unhex(p)?),
        }
    }
    Some(v)
}
fn unkey(s: &str) -> Option<Pubkey> { Some(Pubkey::new_from_array(unhex(s)?.try_into().ok()?)) }
fn key(k: &Pubkey) -> String { hex(k.as_ref()) }

pub fn step_text(s: &Step) -> String {
    match s {
        Step::Put(k, a) => format!("put {} {} {} {} {}", key(k), a.lamports, key(&a.owner), a.executable as u8, pack(&a.data)),
        Step::Clock(s, t) => format!("clock {s} {t}"),
        Step::Snap => "snap".into(),
        Step::Revert => "revert".into(),
        Step::Sync(x) => format!("sync {x}"),
        Step::Gone(k) => format!("gone {}", key(k)),
        Step::Crowd(k, n, x) => format!("crowd {} {n} {x}", key(k)),
        Step::Aged(k, a, b, c) => format!("aged {} {a} {b} {c}", key(k)),
        Step::Empty(a, b) => format!("empty {} {}", key(a), key(b)),
        Step::Tx(t) => {
            let f = match t.fault {
                None => "-".into(),
                Some((i, k, AbortKind::Error)) => format!("{i}:{k}:error"),
                Some((i, k, AbortKind::Kill)) => format!("{i}:{k}:kill"),
            };
            let mut o = format!("tx {} {f} {}", t.must as u8, t.ixs.len());
            for ix in &t.ixs {
                let m: Vec<String> = ix
                    .metas
                    .iter()
                    .map(|m| format!("{}:{}{}", key(&m.key), if m.signer { "s" } else { "" }, if m.writable { "w" } else { "" }))
                    .collect();
                o.push_str(&format!(" {} {} {}", key(&ix.program), pack(&ix.data), if m.is_empty() { "-".into() } else { m.join(",") }));
            }
            o
        }
    }
}
pub fn parse_step(l: &str) -> Option<Step> {
    let w: Vec<&str> = l.split_whitespace().collect();
    Some(match *w.first()? {
        "put" => Step::Put(
            unkey(w.get(1)?)?,
            Acct {
                lamports: w.get(2)?.parse().ok()?,
                owner: unkey(w.get(3)?)?,
                executable: *w.get(4)? == "1",
                data: Rc::new(unpack(w.get(5)?)?),
            },
        ),
        "clock" => Step::Clock(w.get(1)?.parse().ok()?, w.get(2)?.parse().ok()?),
        "snap" => Step::Snap,
        "revert" => Step::Revert,
        "sync" => Step::Sync(w.get(1)?.parse().ok()?),
        "gone" => Step::Gone(unkey(w.get(1)?)?),
        "crowd" => Step::Crowd(unkey(w.get(1)?)?, w.get(2)?.parse().ok()?, w.get(3)?.parse().ok()?),
        "aged" => Step::Aged(unkey(w.get(1)?)?, w.get(2)?.parse().ok()?, w.get(3)?.parse().ok()?, w.get(4)?.parse().ok()?),
        "empty" => Step::Empty(unkey(w.get(1)?)?, unkey(w.get(2)?)?),
        "tx" => {
            let fault = match *w.get(2)? {
                "-" => None,
                f => {
                    let p: Vec<&str> = f.split(':').collect();
                    Some((
                        p.first()?.parse().ok()?,
                        p.get(1)?.parse().ok()?,
                        if *p.get(2)? == "kill" { AbortKind::Kill } else { AbortKind::Error },
                    ))
                }
            };
            let n: usize = w.get(3)?.parse().ok()?;
            let mut ixs = vec![];
            for i in 0..n {
                let (p, d, m) = (w.get(4 + 3 * i)?, w.get(5 + 3 * i)?, w.get(6 + 3 * i)?);
                let mut metas = vec![];
                if *m != "-" {
                    for x in m.split(',') {
                        let (k, f) = x.split_once(':')?;
                        metas.push(Meta { key: unkey(k)?, signer: f.contains('s'), writable: f.contains('w') });
                    }
                }
                ixs.push(Ix { program: unkey(p)?, metas, data: unpack(d)? });
            }
            Step::Tx(Tx { ixs, fault, must: *w.get(1)? == "1", note: String::new() })
        }
        _ => return None,
    })
}

/// Runs the steps on a fresh ledger; the first violation that `hit` accepts.
pub fn execute(steps: &[Step], views: u8, rel: fn(u8, u32, bool, &[&'static str]) -> bool, hit: &dyn Fn(&Viol) -> bool) -> Option<Viol> {
    let mut ex = Exec::new(views, rel);
    for s in steps {
        if let Some(v) = ex.step(s).into_iter().find(|v| hit(v)) {
            return Some(v);
        }
    }
    None
}

/// Delta debugging over steps, then over instructions within transactions and their faults.
pub fn minimise(mut steps: Vec<Step>, until: std::time::Instant, still: &dyn Fn(&[Step]) -> Option<usize>) -> (Vec<Step>, u64) {
    let mut execs = 0u64;
    let mut try_ = |c: Vec<Step>, cur: &mut Vec<Step>| -> bool {
        if std::time::Instant::now() > until {
            return false;
        }
        execs += 1;
        if let Some(at) = still(&c) {
            let mut c = c;
            c.truncate(at + 1);
            *cur = c;
            return true;
        }
        false
    };
    let s0 = steps.clone();
    if !try_(s0, &mut steps) {
        return (steps, execs);
    }
    for _round in 0..4 {
        let before = steps.len();
        let mut chunk = (steps.len() / 2).max(1);
        loop {
            let mut end = steps.len().saturating_sub(1); // the last step is the culprit
            while end > 0 {
                let start = end.saturating_sub(chunk);
                let mut c = steps[..start].to_vec();
                c.extend_from_slice(&steps[end..]);
                try_(c, &mut steps);
                end = start.min(steps.len().saturating_sub(1));
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        // simplify transactions
        let mut i = 0;
        while i < steps.len() {
            if let Step::Tx(t) = steps[i].clone() {
                if t.fault.is_some() {
                    let mut c = steps.clone();
                    c[i] = Step::Tx(Tx { fault: None, ..t.clone() });
                    try_(c, &mut steps);
                }
                let mut j = 0;
                loop {
                    let t = match steps.get(i) {
                        Some(Step::Tx(t)) => t.clone(),
                        _ => break,
                    };
                    if t.ixs.len() < 2 || j >= t.ixs.len() {
                        break;
                    }
                    let mut t2 = t.clone();
                    t2.ixs.remove(j);
                    if let Some((k, a, b)) = t2.fault {
                        if k == j {
                            t2.fault = None
                        } else if k > j {
                            t2.fault = Some((k - 1, a, b))
                        }
                    }
                    let mut c = steps.clone();
                    c[i] = Step::Tx(t2);
                    if !try_(c, &mut steps) {
                        j += 1;
                    }
                }
            }
            i += 1;
        }
        if steps.len() == before || std::time::Instant::now() > until {
            break;
        }
    }
    (steps, execs)
}
