//! Executes concrete steps on the simulated ledger and judges every one of them.
use crate::chain::*;
use crate::model::*;
use crate::parse::*;
use crate::views;
use crate::{client, idl};
use crate::wire::*;
use solana_program::{pubkey::Pubkey, system_program};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone, Debug)]
pub struct Tx {
    pub ixs: Vec<Ix>,
    pub fault: Option<(usize, u32, AbortKind)>,
    /// bounded-liveness obligation: faults have stopped, this must be accepted
    pub must: bool,
    pub note: String,
}
#[derive(Clone, Debug)]
pub enum Step {
    Put(Pubkey, Acct),
    Clock(u64, i64),
    Tx(Tx),
    /// a fork point: state is remembered
    Snap,
    /// the branch since the last fork point is abandoned
    Revert,
    /// the indexer rebuilds everything from the archived log, delivered in a scrambled order
    Sync(u64),
    /// nothing of this market may be left (end of a wind-down)
    Gone(Pubkey),
    /// nothing of this trader may be left on the market
    Empty(Pubkey, Pubkey),
    /// that many more traders without balances are registered on the market (its own tree code
    /// inserts them), as a long history of approvals leaves it
    Crowd(Pubkey, u64, u64),
    /// a market without orders or unclaimed fees has a long history behind it: the number its next order
    /// gets, the number of its next log record, the fees collected so far
    Aged(Pubkey, u64, u64, u64),
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub cat: &'static str,
    pub tag: u8,
    pub reasons: Vec<&'static str>,
    pub ctx: u32,
    pub detail: String,
    pub step: usize,
}

#[derive(Clone, Default)]
pub struct MHist {
    pub donated_q: i128,
    pub donated_b: i128,
    pub last_seq: u64,   // highest order sequence number ever placed
    pub next_log: Option<u64>,
    /// replica of the book built from the log: raw seq -> order
    pub replica: BTreeMap<u64, Order>,
    pub fees: i128,
    pub archive: Vec<Rc<Vec<u8>>>,
    pub hdr: Option<Hdr>, // last seen header (to keep checking vaults after a tombstone)
    pub ids: BTreeMap<u64, (Pubkey, u64)>, // raw seq -> owner, price of everything ever placed
    pub ever_retired: BTreeSet<Pubkey>,
}
#[derive(Clone, Default)]
pub struct Hist {
    pub m: BTreeMap<Pubkey, MHist>,
    pub ts_back: bool,
    pub max_ts: i64,
    pub max_slot: u64,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub txs: u64,
    pub ixs: u64,
    pub ok: u64,
    pub refused: u64,
    pub faults_error: u64,
    pub faults_kill: u64,
    pub rolled_back_txs: u64,
    pub forks: u64,
    pub clock_steps: u64,
    pub slots: u64,
    pub secs: u64,
    pub puts: u64,
    pub by: BTreeMap<String, u64>,  // instruction/outcome counts
    pub ctx: BTreeMap<&'static str, u64>, // probes
    pub reasons: BTreeMap<&'static str, u64>,
    pub behaviours: BTreeSet<u64>,
    pub evs: BTreeMap<&'static str, u64>,
    pub hash: u64,
    pub relevant: u64,
    pub views: u64,
    pub syncs: u64,
    pub net: BTreeMap<&'static str, u64>,
    pub cli: BTreeMap<&'static str, u64>,
    pub situ: BTreeMap<&'static str, u64>,
    /// distinct behaviours among the evaluations of the property under check
    pub rel: BTreeSet<u64>,
    pub samples: Vec<String>,
    /// bit per hashed ordered pair of consecutive behaviours, and per hashed abstract market state
    pub pairs: Bits,
    pub states: Bits,
    pub last: u64,
}
#[derive(Clone)]
pub struct Bits(pub Vec<u64>);
impl Default for Bits {
    fn default() -> Bits { Bits(vec![0; 1 << 15]) }
}
impl Bits {
    pub fn set(&mut self, h: u64) {
        let h = fnv(h, 0x77) & ((1 << 21) - 1);
        self.0[(h >> 6) as usize] |= 1 << (h & 63);
    }
    pub fn count(&self) -> u64 { self.0.iter().map(|x| x.count_ones() as u64).sum() }
    pub fn merge(&mut self, o: &Bits) {
        for (a, b) in self.0.iter_mut().zip(o.0.iter()) {
            *a |= b
        }
    }
}

pub struct Exec {
    pub chain: Chain,
    pub hist: Hist,
    pub stack: Vec<(Chain, Hist)>,
    pub stats: Stats,
    pub nstep: usize,
    pub views_on: bool,
    /// honest instructions are also expressed by the published builders and the IDL
    pub clients: Option<Rc<Option<idl::Idl>>>,
    /// instruction is relevant to the property under check
    pub relevant: fn(u8, u32, bool, &[&'static str]) -> bool,
    cache: RefCell<HashMap<Pubkey, (Rc<Vec<u8>>, Option<Rc<Mkt>>)>>,
}

thread_local! {
    static IDL: Rc<Option<idl::Idl>> = Rc::new(idl::Idl::load("/repo/idl/phoenix_v1.json"));
}

pub fn fnv(h: u64, x: u64) -> u64 {
    let mut h = h ^ x;
    h = h.wrapping_mul(0x100000001b3);
    h ^= h >> 29;
    h.wrapping_mul(0xbf58476d1ce4e5b9)
}

/// The account with more traders in its registry, inserted by the tree the program itself uses.
fn register(data: &[u8], sizes: (u64, u64, u64), keys: &[Pubkey]) -> Option<Vec<u8>> {
    use phoenix::state::TraderState;
    use sokoban::node_allocator::{NodeAllocatorMap, ZeroCopy};
    use sokoban::RedBlackTree;
    let mut buf: Vec<u64> = vec![0; (data.len() + 7) / 8];
    let bytes: &mut [u8] = bytemuck::cast_slice_mut(&mut buf);
    bytes[..data.len()].copy_from_slice(data);
    let at = traders_at(sizes);
    macro_rules! fill {
        ($($n:literal),*) => {
            match sizes.2 {
                $($n => {
                    let t = RedBlackTree::<Pubkey, TraderState, $n>::load_mut_bytes(&mut bytes[at..])?;
                    for k in keys {
                        if t.len() < $n {
                            t.insert(*k, TraderState::default());
                        }
                    }
                })*
                _ => return None,
            }
        };
    }
    fill!(128, 1025, 1153, 2049, 2177, 4097, 4225, 8193, 8321);
    Some(bytes[..data.len()].to_vec())
}

impl Exec {
    pub fn new(mode: u8, relevant: fn(u8, u32, bool, &[&'static str]) -> bool) -> Exec {
        Exec {
            chain: Chain::default(),
            hist: Hist::default(),
            stack: vec![],
            stats: Stats::default(),
            nstep: 0,
            views_on: mode & 1 != 0,
            clients: if mode & 2 != 0 { Some(IDL.with(|i| i.clone())) } else { None },
            relevant,
            cache: RefCell::new(HashMap::new()),
        }
    }
    pub fn mkt_of(&self, c: &Chain, k: &Pubkey) -> Option<Rc<Mkt>> {
        let a = c.accts.get(k)?;
        if a.owner != phoenix_id() || !is_market(&a.data) {
            return None;
        }
        if let Some((d, m)) = self.cache.borrow().get(k) {
            if Rc::ptr_eq(d, &a.data) {
                return m.clone();
            }
        }
        let m = parse_market(&a.data).ok().map(Rc::new);
        self.cache.borrow_mut().insert(*k, (a.data.clone(), m.clone()));
        m
    }
    pub fn market(&self, k: &Pubkey) -> Option<Rc<Mkt>> { self.mkt_of(&self.chain, k) }
    pub fn markets(&self) -> Vec<Pubkey> {
        self.chain
            .accts
            .iter()
            .filter(|(_, a)| a.owner == phoenix_id() && is_market(&a.data))
            .map(|(k, _)| *k)
            .collect()
    }
    pub fn tok(&self, k: &Pubkey) -> Option<Tok> {
        let a = self.chain.accts.get(k)?;
        parse_tok(&a.owner, &a.data)
    }

    pub fn step(&mut self, s: &Step) -> Vec<Viol> {
        let n = self.nstep;
        self.nstep += 1;
        let mut v = match s {
            Step::Put(k, a) => {
                self.stats.puts += 1;
                let before = self.vault_amounts();
                self.chain.put(*k, a.clone());
                self.chain.settle();
                self.note_donations(before);
                vec![]
            }
            Step::Clock(slot, ts) => {
                self.stats.clock_steps += 1;
                self.stats.slots += slot.saturating_sub(self.chain.slot).min(1 << 24);
                self.stats.secs += ((ts - self.chain.ts).max(0) as u64).min(1 << 24);
                self.chain.slot = *slot;
                self.chain.ts = *ts;
                if *ts < self.hist.max_ts || *slot < self.hist.max_slot {
                    self.hist.ts_back = true;
                }
                self.hist.max_ts = self.hist.max_ts.max(*ts);
                self.hist.max_slot = self.hist.max_slot.max(*slot);
                let mut out = vec![];
                for k in self.markets() {
                    if let Some(m) = self.market(&k) {
                        self.crossed(&m, &mut out, 255, 0);
                        if self.views_on {
                            self.views(&k, &m, &mut out, 255, 0);
                        }
                    }
                }
                self.stats.hash = fnv(self.stats.hash, 77);
                out
            }
            Step::Tx(t) => self.tx(t),
            Step::Snap => {
                self.stats.forks += 1;
                self.stack.push((self.chain.clone(), self.hist.clone()));
                vec![]
            }
            Step::Revert => {
                if let Some((c, h)) = self.stack.pop() {
                    let (slot, ts) = (self.chain.slot, self.chain.ts);
                    let back = self.hist.ts_back;
                    self.chain = c;
                    self.hist = h;
                    // a clock that went back in the abandoned branch stays back
                    self.hist.ts_back |= back || ts < self.hist.max_ts || slot < self.hist.max_slot;
                    // the clock of the winning branch goes on
                    self.chain.slot = slot;
                    self.chain.ts = ts;
                    self.hist.max_ts = self.hist.max_ts.max(ts);
                    self.hist.max_slot = self.hist.max_slot.max(slot);
                }
                vec![]
            }
            Step::Sync(seed) => {
                self.stats.syncs += 1;
                self.sync(*seed)
            }
            Step::Crowd(k, n, salt) => {
                self.stats.puts += 1;
                if let Some(m) = self.market(k) {
                    let mut a = self.chain.get(k);
                    let keys: Vec<Pubkey> = (0..*n).map(|i| crate::world::hkey(9, *salt, i, 0)).collect();
                    if let Some(d) = register(&a.data, m.hdr.sizes, &keys) {
                        a.data = Rc::new(d);
                        self.chain.put(*k, a);
                    }
                }
                vec![]
            }
            Step::Aged(k, oseq, msn, collected) => {
                self.stats.puts += 1;
                if let Some(m) = self.market(k) {
                    if m.bids.is_empty() && m.asks.is_empty() && m.unclaimed == 0 && *oseq >= m.oseq && *msn >= m.hdr.msn {
                        let mut a = self.chain.get(k);
                        a.data = Rc::new(aged(&a.data, *oseq, *msn, *collected));
                        self.chain.put(*k, a);
                        if let Some(h) = self.hist.m.get_mut(k) {
                            h.next_log = None;
                            h.archive.clear();
                            h.replica.clear();
                        }
                    }
                }
                vec![]
            }
            Step::Empty(k, t) => match self.market(k) {
                Some(m) => {
                    let left = m.traders.get(t).cloned().unwrap_or_default();
                    if left != Tr::default() {
                        vec![viol("trapped", T_WITHDRAW, 0, format!("{t} could not get everything out: {left:?}"))]
                    } else {
                        vec![]
                    }
                }
                None => vec![],
            },
            Step::Gone(k) => {
                let mut out = vec![];
                if self.chain.get(k).owner == phoenix_id() {
                    out.push(viol("trapped", T_STATUS, 0, format!("market {k} was not fully wound down")));
                } else if let Some(h) = self.hist.m.get(k) {
                    if let Some(hd) = &h.hdr {
                        for (vault, don, name) in
                            [(&hd.base.vault, h.donated_b, "base"), (&hd.quote.vault, h.donated_q, "quote")]
                        {
                            let amt = self.tok(vault).map(|t| t.amount).unwrap_or(0) as i128;
                            if amt != don {
                                out.push(viol(
                                    "trapped",
                                    T_STATUS,
                                    0,
                                    format!("{name} vault still holds {amt} after wind-down (donated {don})"),
                                ));
                            }
                        }
                    }
                }
                out
            }
        };
        for x in v.iter_mut() {
            x.step = n;
        }
        v
    }

    fn vault_amounts(&self) -> Vec<(Pubkey, bool, Pubkey, u64)> {
        let mut v = vec![];
        for k in self.markets() {
            let a = &self.chain.accts[&k];
            let h = parse_hdr(&a.data);
            for (q, vault) in [(false, h.base.vault), (true, h.quote.vault)] {
                v.push((k, q, vault, self.tok(&vault).map(|t| t.amount).unwrap_or(0)));
            }
        }
        v
    }
    fn note_donations(&mut self, before: Vec<(Pubkey, bool, Pubkey, u64)>) {
        for (k, q, vault, amt) in before {
            let now = self.tok(&vault).map(|t| t.amount).unwrap_or(0);
            if now != amt {
                let h = self.hist.m.entry(k).or_default();
                let d = now as i128 - amt as i128;
                if q {
                    h.donated_q += d
                } else {
                    h.donated_b += d
                }
            }
        }
    }

    fn tx(&mut self, t: &Tx) -> Vec<Viol> {
        self.stats.txs += 1;
        let start = self.chain.clone();
        let start_hist = self.hist.clone();
        let mut out = vec![];
        let mut failed = false;
        for (i, ix) in t.ixs.iter().enumerate() {
            let abort = t.fault.and_then(|(j, k, kind)| if j == i { Some((k, kind)) } else { None });
            let (ok, mut vs) = self.one(ix, &t.ixs, abort, t.must);
            out.append(&mut vs);
            if !ok {
                failed = true;
                break;
            }
        }
        if failed {
            if t.ixs.len() > 1 {
                self.stats.rolled_back_txs += 1;
            }
            self.chain = start;
            self.hist = start_hist;
        } else {
            self.chain.settle();
        }
        out
    }

    fn one(&mut self, ix: &Ix, all: &[Ix], abort: Option<(u32, AbortKind)>, must: bool) -> (bool, Vec<Viol>) {
        self.stats.ixs += 1;
        let mut out: Vec<Viol> = vec![];
        if ix.program != phoenix_id() {
            let before = self.vault_amounts();
            let r = self.chain.exec_ix(ix, all, None);
            if r.ok {
                self.note_donations(before);
            }
            self.stats.hash = fnv(self.stats.hash, 1000 + r.ok as u64);
            return (r.ok, out);
        }
        let pre = self.chain.clone();
        let tag = ix.data.first().copied().unwrap_or(255);
        let pred = predict(&pre, ix, all, &|k| self.mkt_of(&pre, k));
        doing(D_IX | if pred.outcome == Outcome::Ok { D_DUE } else { 0 } | (tag as u64) << 32 | pred.ctx as u64);
        let r = self.chain.exec_ix(ix, all, abort);
        doing(0);
        let mut ctx = pred.ctx;
        if r.logs.len() > 1 {
            ctx |= C_MANYEV;
        }
        if r.log_failed {
            ctx |= C_LOGFAIL;
        }
        let mut cases = vec![];
        let mut by_idl: Option<Result<Ix, String>> = None;
        if let (Some(i), None, 1) = (&self.clients, abort, all.len()) {
            let hdr = ix.metas.get(2).and_then(|m| self.mkt_of(&pre, &m.key)).map(|m| m.hdr.clone());
            cases = client::cases(ix, hdr.as_ref(), &pre);
            if let Some(i) = i.as_ref() {
                by_idl = i.instruction(ix, hdr.as_ref());
            }
            if !cases.is_empty() || by_idl.is_some() {
                ctx |= C_CLIENT;
            }
        }
        // statistics
        {
            let s = &mut self.stats;
            for c in &cases {
                *s.cli.entry(c.name).or_default() += 1;
            }
            if by_idl.is_some() {
                *s.cli.entry("by the IDL").or_default() += 1;
            }
            let oc = if r.fault_fired { "aborted" } else if r.ok { "ok" } else { "refused" };
            *s.by.entry(format!("{}:{}", tag_name(tag), oc)).or_default() += 1;
            if r.fault_fired {
                match abort {
                    Some((_, AbortKind::Kill)) => s.faults_kill += 1,
                    _ => s.faults_error += 1,
                }
            }
            if r.ok {
                s.ok += 1
            } else {
                s.refused += 1
            }
            for (i, n) in C_NAMES.iter().enumerate() {
                if ctx & (1 << i) != 0 {
                    *s.ctx.entry(n).or_default() += 1;
                }
            }
            for x in &pred.reasons {
                *s.reasons.entry(x).or_default() += 1;
            }
            let mut h = fnv(fnv(fnv(tag as u64, ctx as u64), r.ok as u64), r.fault_fired as u64);
            for x in &pred.reasons {
                for b in x.bytes() {
                    h = fnv(h, b as u64);
                }
            }
            s.behaviours.insert(h);
            s.hash = fnv(s.hash, h);
            let pair = fnv(s.last, h);
            s.pairs.set(pair);
            s.last = h;
            if (self.relevant)(tag, ctx, r.ok, &pred.reasons) {
                s.relevant += 1;
                if s.rel.insert(h) && s.samples.len() < 12 && (pred.reasons.len() > 0 || ctx.count_ones() >= 3) {
                    let c: Vec<&str> = C_NAMES.iter().enumerate().filter(|(i, _)| ctx & (1 << i) != 0).map(|x| *x.1).collect();
                    s.samples.push(format!(
                        "step {} (slot {}, time {}): {} {} {:?} {:?}",
                        self.nstep - 1, pre.slot, pre.ts, tag_name(tag), oc, c, pred.reasons
                    ));
                }
            }
        }
        if r.ok && !r.fault_fired {
            if let Some(k) = ix.metas.get(2).map(|m| m.key) {
                let (a, b) = (self.mkt_of(&pre, &k), self.mkt_of(&self.chain, &k));
                let s = &mut self.stats.situ;
                crate::situ::of(tag, ix, &pre, a.as_deref(), b.as_deref(), &pred, r.logs.len(), |n| *s.entry(n).or_default() += 1);
            }
        }
        let mk = |cat: &'static str, detail: String| -> Viol {
            let mut v = viol(cat, tag, ctx, detail);
            v.reasons = pred.reasons.clone();
            v
        };
        if r.swallowed {
            out.push(mk("swallowed", format!("{} reported success although: {}", tag_name(tag), r.err)));
            return (r.ok, out);
        }
        if r.fault_fired {
            if r.ok {
                out.push(mk("swallowed", format!("{} completed through an aborted system call", tag_name(tag))));
            }
            return (r.ok, out);
        }
        match by_idl {
            Some(Ok(i)) => {
                let want = vec![ix.clone()];
                cases.push(client::Case { name: "the published IDL", got: vec![i], want, except: vec![], unmade: None })
            }
            Some(Err(e)) => out.push(mk("client", format!("the published IDL cannot express it: {e}"))),
            None => {}
        }
        for c in &cases {
            if let Some(d) = client::differ(&pre, c) {
                out.push(mk("client", d));
            }
        }
        if let (Some(i), true) = (&self.clients, r.ok) {
            if let Some(i) = i.as_ref() {
                for l in &r.logs {
                    if let Err(e) = i.log(l) {
                        out.push(mk("client", e));
                    }
                }
                for m in &ix.metas {
                    if self.mkt_of(&self.chain, &m.key).is_some() {
                        if let Err(e) = i.header(&self.chain.accts[&m.key].data) {
                            out.push(mk("client", e));
                        }
                    }
                }
            }
        }
        match pred.outcome {
            Outcome::Fail if r.ok => {
                out.push(mk("accepted", format!("{} was accepted; it must be refused: {:?}", tag_name(tag), pred.reasons)))
            }
            Outcome::Ok if !r.ok => {
                let why = r.rt_violation.clone().unwrap_or(r.err.clone());
                out.push(mk("refused", format!("{} was refused ({why}); it must be accepted", tag_name(tag))));
            }
            _ => {}
        }
        if must && !r.ok {
            out.push(mk("trapped", format!("{} refused during wind-down: {}", tag_name(tag), r.err)));
        }
        if r.ok {
            if matches!(pred.outcome, Outcome::Ok | Outcome::Either) {
                self.effects(&pred, &pre, ix, &r, &mk, &mut out);
            }
            self.invariants(&pred, &pre, ix, all, &r, ctx, &mk, &mut out);
        }
        (r.ok, out)
    }

    /// Compare the real effects with the predicted ones.
    fn effects(&self, p: &Pred, pre: &Chain, ix: &Ix, r: &IxOut, mk: &dyn Fn(&'static str, String) -> Viol, out: &mut Vec<Viol>) {
        let mut keys: BTreeSet<Pubkey> = ix.metas.iter().map(|m| m.key).collect();
        keys.extend(p.accts.keys());
        for k in &keys {
            let now = self.chain.get(k);
            let was = pre.get(k);
            if let Some(em) = p.mkts.get(k) {
                if now.owner != phoenix_id() {
                    out.push(mk("frame", format!("market {k} changed owner")));
                    continue;
                }
                if now.lamports != was.lamports {
                    out.push(mk("lamports", format!("market {k} lamports {} -> {}", was.lamports, now.lamports)));
                }
                match parse_market(&now.data) {
                    Err(e) => out.push(mk("corrupt", format!("market {k}: {e}"))),
                    Ok(m) => diff_mkt(em, &m, mk, out),
                }
                continue;
            }
            let exp = p.accts.get(k).cloned().unwrap_or(was.clone());
            if exp == now {
                continue;
            }
            if exp.lamports != now.lamports {
                out.push(mk("lamports", format!("account {k}: lamports {} expected {}", now.lamports, exp.lamports)));
            }
            if exp.owner != now.owner {
                out.push(mk("account", format!("account {k}: owner {} expected {}", now.owner, exp.owner)));
            } else if exp.data != now.data {
                let (a, b) = (parse_tok(&exp.owner, &exp.data), parse_tok(&now.owner, &now.data));
                if let (Some(a), Some(b)) = (a, b) {
                    out.push(mk(
                        "tokens",
                        format!("token account {k} of {}: {} expected {} (was {})", a.owner, b.amount, a.amount,
                            parse_tok(&was.owner, &was.data).map(|t| t.amount).unwrap_or(0)),
                    ));
                } else if exp.data.len() == 128 || now.data.len() == 128 {
                    out.push(mk(
                        "seat",
                        format!("seat {k}: {:?} expected {:?}", parse_seat(&now.owner, &now.data), parse_seat(&exp.owner, &exp.data)),
                    ));
                } else if is_market(&was.data) {
                    out.push(mk("isolation", format!("uninvolved market {k} changed")));
                } else {
                    out.push(mk("frame", format!("account {k} changed unexpectedly")));
                }
            }
        }
        if r.ret != p.ret {
            out.push(mk("ret", format!("return data {:?} expected {:?}", r.ret, p.ret)));
        }
        if let Some(l) = &p.log {
            let mut evs = vec![];
            if r.logs.is_empty() {
                out.push(mk("log_missing", "no log was emitted".into()));
            }
            for (i, raw) in r.logs.iter().enumerate() {
                match dec_log(raw) {
                    None => out.push(mk("log_header", format!("log {i} does not decode"))),
                    Some((h, e)) => {
                        let same = h.ix == l.ix
                            && h.seq == l.seq
                            && h.ts == l.ts
                            && h.slot == l.slot
                            && h.market == l.market
                            && h.signer == l.signer;
                        if !same {
                            out.push(mk("log_header", format!("log header {h:?} expected {:?}", l.seq)));
                        }
                        evs.extend(e);
                    }
                }
            }
            for (i, (idx, _)) in evs.iter().enumerate() {
                if *idx as usize != i {
                    out.push(mk("log_index", format!("event {i} carries index {idx}")));
                    break;
                }
            }
            let mut got: Vec<Ev> = evs.into_iter().map(|x| x.1).collect();
            let mut want = l.events.clone();
            // nothing says in which order several cancelled orders are reported
            if want.iter().all(|e| matches!(e, Ev::Reduce { .. })) {
                got.sort_by_cached_key(|e| format!("{e:?}"));
                want.sort_by_cached_key(|e| format!("{e:?}"));
            }
            if got != want {
                let i = got.iter().zip(want.iter()).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                let nocid = |v: &[Ev]| -> Vec<Ev> {
                    v.iter()
                        .map(|e| match e {
                            Ev::Place { seq, price, lots, .. } => Ev::Place { seq: *seq, price: *price, lots: *lots, cid: 0 },
                            Ev::Summary { base, quote, fee, .. } => Ev::Summary { base: *base, quote: *quote, fee: *fee, cid: 0 },
                            x => x.clone(),
                        })
                        .collect()
                };
                let cat = if nocid(&got) == nocid(&want) { "event_cid" } else { "events" };
                out.push(mk(
                    cat,
                    format!(
                        "event {i}: {:?} expected {:?} ({} events, expected {})",
                        got.get(i),
                        want.get(i),
                        got.len(),
                        want.len()
                    ),
                ));
            }
        } else if !r.logs.is_empty() {
            out.push(mk("log_header", "an unexpected log was emitted".into()));
        }
    }

    /// Judge the new state on its own, without the model.
    fn invariants(
        &mut self,
        _p: &Pred,
        pre: &Chain,
        ix: &Ix,
        all: &[Ix],
        r: &IxOut,
        ctx: u32,
        mk: &dyn Fn(&'static str, String) -> Viol,
        out: &mut Vec<Viol>,
    ) {
        let tag = ix.data.first().copied().unwrap_or(255);
        let named = ix.metas.get(2).map(|m| m.key).unwrap_or_default();
        let signer = ix.metas.get(3).map(|m| m.key).unwrap_or_default();
        let signs = |k: &Pubkey| all.iter().any(|i| i.metas.iter().any(|m| m.key == *k && m.signer));
        // decode what the log says
        let mut evs: Vec<Ev> = vec![];
        let mut hdrs = vec![];
        for raw in &r.logs {
            if let Some((h, e)) = dec_log(raw) {
                hdrs.push(h);
                evs.extend(e.into_iter().map(|x| x.1));
            }
        }
        for e in &evs {
            let n = match e {
                Ev::Fill { .. } => "Fill",
                Ev::Place { .. } => "Place",
                Ev::Reduce { .. } => "Reduce",
                Ev::Evict { .. } => "Evict",
                Ev::Summary { .. } => "FillSummary",
                Ev::Fee { .. } => "Fee",
                Ev::Tif { .. } => "TimeInForce",
                Ev::Expired { .. } => "ExpiredOrder",
            };
            *self.stats.evs.entry(n).or_default() += 1;
        }
        let keys: BTreeSet<Pubkey> = ix.metas.iter().map(|m| m.key).collect();
        // other markets must be byte-identical, their vaults and seats too
        let pre_named_hdr = pre.accts.get(&named).filter(|a| is_market(&a.data)).map(|a| parse_hdr(&a.data));
        for k in &keys {
            if *k == named {
                continue;
            }
            let (was, now) = (pre.get(k), self.chain.get(k));
            if was == now {
                continue;
            }
            if was.owner == phoenix_id() && is_market(&was.data) {
                out.push(mk("isolation", format!("market {k} changed by an instruction on market {named}")));
            }
            if let Some(s) = parse_seat(&was.owner, &was.data) {
                if s.market != named {
                    out.push(mk("isolation", format!("seat {k} of market {} changed by an instruction on {named}", s.market)));
                }
            }
            for om in self.markets() {
                if om == named {
                    continue;
                }
                let h = parse_hdr(&self.chain.accts[&om].data);
                if h.base.vault == *k || h.quote.vault == *k {
                    out.push(mk("isolation", format!("vault {k} of market {om} changed by an instruction on {named}")));
                }
            }
        }
        // wallets: who lost, who gained
        let mut totals: BTreeMap<Pubkey, i128> = BTreeMap::new();
        for k in &keys {
            let (wa, na) = (pre.get(k), self.chain.get(k));
            let (w, n) = (parse_tok(&wa.owner, &wa.data), parse_tok(&na.owner, &na.data));
            let mint = w.as_ref().or(n.as_ref()).map(|t| t.mint);
            let (wamt, namt) = (w.as_ref().map(|t| t.amount).unwrap_or(0), n.as_ref().map(|t| t.amount).unwrap_or(0));
            if let Some(mint) = mint {
                *totals.entry(mint).or_default() += namt as i128 - wamt as i128;
                let owner = w.as_ref().or(n.as_ref()).map(|t| t.owner).unwrap_or_default();
                let is_named_vault =
                    pre_named_hdr.as_ref().map(|h| h.base.vault == *k || h.quote.vault == *k).unwrap_or(false);
                if namt < wamt && !is_named_vault && !signs(&owner) {
                    out.push(mk("debit", format!("token account {k} of {owner} lost {} without its signature", wamt - namt)));
                }
                if namt > wamt && !is_named_vault {
                    // released on behalf of whom?
                    let rec = pre_named_hdr.as_ref().map(|h| h.fee_recipient).unwrap_or_default();
                    let ok = match tag {
                        T_COLLECT => owner == rec,
                        T_EVICT | T_FORCE => owner == ix.metas.get(4).map(|m| m.key).unwrap_or_default(),
                        _ => owner == signer,
                    };
                    if !ok {
                        out.push(mk("misdirected", format!("{} tokens released to {owner}", namt - wamt)));
                    }
                }
            }
            if na.lamports < wa.lamports && !signs(k) && !(tag == T_STATUS && *k == named) {
                out.push(mk("debit", format!("account {k} lost lamports without its signature")));
            }
        }
        for (mint, d) in totals {
            if d != 0 {
                out.push(mk("conservation", format!("mint {mint}: wallets and vaults changed by {d} in total")));
            }
        }
        // the market itself
        let post_m = self.market(&named);
        let pre_m = self.mkt_of(pre, &named);
        if tag == T_INIT && pre_m.is_none() {
            // a market created at the address of a retired one is a new market
            self.hist.m.remove(&named);
        }
        let h = self.hist.m.entry(named).or_default();
        if let Some(l) = hdrs.first() {
            if tag != T_LOG {
                if let Some(n) = h.next_log {
                    if l.seq != n {
                        out.push(mk("log_seq", format!("log sequence number {} follows {}", l.seq, n.wrapping_sub(1))));
                    }
                }
                h.next_log = Some(l.seq + 1);
                for x in &hdrs {
                    if x.seq != l.seq || x.market != named || x.signer != signer || x.ix != tag {
                        out.push(mk("log_header", format!("log names instruction {} market {} signer {}", x.ix, x.market, x.signer)));
                        break;
                    }
                }
            }
        } else if tag != T_LOG {
            out.push(mk("log_missing", "a successful instruction left no log".into()));
        }
        for raw in &r.logs {
            h.archive.push(Rc::new(raw.clone()));
        }
        // the live replica
        for e in &evs {
            apply_event(h, e, &signer);
        }
        let (pm, m) = match (pre_m, post_m) {
            (_, None) => {
                if self.chain.accts.get(&named).map(|a| a.owner == phoenix_id()).unwrap_or(false) && tag != T_LOG {
                    out.push(mk("corrupt", format!("market {named} no longer parses")));
                }
                return;
            }
            (a, Some(b)) => (a, b),
        };
        let h = self.hist.m.get_mut(&named).unwrap();
        h.hdr = Some(m.hdr.clone());
        // P19: replica equals the book
        {
            let mut want: Vec<&Order> = m.bids.iter().chain(m.asks.iter()).collect();
            want.sort_by_key(|o| o.seq);
            let got: Vec<&Order> = h.replica.values().collect();
            if want != got {
                let i = want.iter().zip(got.iter()).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
                out.push(mk("replica", format!("log replay gives {:?}, the book holds {:?}", got.get(i), want.get(i))));
                // resynchronise so that one lost event is reported once
                h.replica = want.iter().map(|o| (o.seq, (*o).clone())).collect();
            }
            if h.fees != m.unclaimed as i128 {
                out.push(mk("replica_fee", format!("log replay gives {} uncollected fees, the market {}", h.fees, m.unclaimed)));
                h.fees = m.unclaimed as i128;
            }
        }
        // P12: identifiers
        for bid in [true, false] {
            for o in m.book(bid) {
                let n = if bid { !o.seq } else { o.seq };
                if (o.seq >> 63 == 1) != bid {
                    out.push(mk("ids", format!("order {} on the wrong side", o.seq)));
                }
                match h.ids.get(&o.seq) {
                    Some((t, pr)) => {
                        if *t != o.trader || *pr != o.price {
                            out.push(mk("ids", format!("identifier {} now designates another order", o.seq)));
                            h.ids.insert(o.seq, (o.trader, o.price));
                        } else if let Some(pm) = &pm {
                            if !pm.book(bid).iter().any(|x| x.seq == o.seq) {
                                out.push(mk("ids", format!("identifier {} was used again", o.seq)));
                            }
                        }
                    }
                    None => {
                        if h.ids.contains_key(&!o.seq) {
                            out.push(mk("ids", format!("sequence number {n} was used on both sides")));
                        }
                        h.ids.insert(o.seq, (o.trader, o.price));
                        // later orders, later numbers: checked against what existed before this instruction
                        if n <= h.last_seq {
                            out.push(mk("ids", format!("sequence number {n} after {}", h.last_seq)));
                        }
                    }
                }
            }
        }
        let hi = m.bids.iter().map(|o| !o.seq).chain(m.asks.iter().map(|o| o.seq)).max().unwrap_or(0);
        h.last_seq = h.last_seq.max(hi);
        for e in &evs {
            if let Ev::Place { seq, .. } = e {
                let n = if seq >> 63 == 1 { !*seq } else { *seq };
                h.last_seq = h.last_seq.max(n);
            }
        }
        if let Some(pm) = &pm {
            self.parties(pm, &m, ix, tag, &signer, &named, &evs, pre, mk, out);
        }
        {
            let c = |n: usize| n.min(6) as u64;
            let (sl, ts) = (self.chain.slot, self.chain.ts as u64);
            let mut x = fnv(m.hdr.status, c(m.bids.len()));
            for y in [
                c(m.asks.len()),
                c(m.traders.len()),
                (m.unclaimed > 0) as u64,
                c(m.bids.iter().filter(|o| o.expired(sl, ts)).count()),
                c(m.asks.iter().filter(|o| o.expired(sl, ts)).count()),
                c(m.traders.values().filter(|t| t.qf > 0).count()),
                c(m.traders.values().filter(|t| t.bf > 0).count()),
                c(m.traders.values().filter(|t| t.ql > 0 && t.bl > 0).count()),
                match (m.bids.first(), m.asks.first()) {
                    (Some(b), Some(a)) => a.price.saturating_sub(b.price).min(4),
                    _ => 9,
                },
            ] {
                x = fnv(x, y);
            }
            self.stats.states.set(x);
        }
        self.shape(&m, mk, out);
        self.solvent(&named, &m, mk, out);
        let (mut v2, tg) = (vec![], tag);
        self.crossed(&m, &mut v2, tg, ctx);
        if self.views_on {
            self.views(&named, &m, &mut v2, tg, ctx);
        }
        out.append(&mut v2);
    }

    /// Nobody but the signer loses funds or orders, save by trading, expiry, eviction or force.
    fn parties(&self, pm: &Mkt, m: &Mkt, ix: &Ix, tag: u8, signer: &Pubkey, named: &Pubkey, evs: &[Ev], pre: &Chain, mk: &dyn Fn(&'static str, String) -> Viol, out: &mut Vec<Viol>) {
        let mut forced: Option<Pubkey> = None;
        if (tag == T_EVICT || tag == T_FORCE) && *signer == pm.hdr.authority {
            if let Some(t) = ix.metas.get(4) {
                let (addr, _) = find_pda(&[b"seat", named.as_ref(), t.key.as_ref()], &phoenix_id());
                let a = pre.get(&addr);
                if parse_seat(&a.owner, &a.data).map(|s| s.status != 1).unwrap_or(false) {
                    forced = Some(t.key);
                }
            }
        }
        for (k, t) in &pm.traders {
            let n = m.traders.get(k).cloned().unwrap_or_default();
            if k == signer || Some(*k) == forced {
                continue;
            }
            let sold_base = evs.iter().any(|e| matches!(e, Ev::Fill { maker, seq, .. } if maker == k && seq >> 63 == 0));
            let sold_quote = evs.iter().any(|e| matches!(e, Ev::Fill { maker, seq, .. } if maker == k && seq >> 63 == 1));
            if ((n.qf as u128 + n.ql as u128) < t.qf as u128 + t.ql as u128 && !sold_quote)
                || ((n.bf as u128 + n.bl as u128) < t.bf as u128 + t.bl as u128 && !sold_base)
                || n.qf < t.qf
                || n.bf < t.bf
            {
                out.push(mk("debit", format!("funds of {k} decreased without its signature: {t:?} -> {n:?}")));
            }
            if !m.traders.contains_key(k) {
                out.push(mk("debit", format!("trader {k} was removed without cause")));
            }
        }
        for bid in [true, false] {
            for o in pm.book(bid) {
                if o.trader == *signer || Some(o.trader) == forced {
                    continue;
                }
                let now = m.book(bid).iter().find(|x| x.seq == o.seq && x.price == o.price);
                let left = now.map(|x| x.lots).unwrap_or(0);
                if left == o.lots && now.map(|x| x.trader == o.trader).unwrap_or(true) {
                    continue;
                }
                let filled: u128 = evs
                    .iter()
                    .map(|e| match e {
                        Ev::Fill { maker, seq, filled, .. } if *maker == o.trader && *seq == o.seq => *filled as u128,
                        _ => 0,
                    })
                    .sum();
                let expired = o.expired(self.chain.slot, self.chain.ts as u64);
                let evicted = evs.iter().any(|e| matches!(e, Ev::Evict { seq, .. } if *seq == o.seq));
                let placing = matches!(tag, T_SWAP | T_SWAP_FF | T_LIMIT | T_LIMIT_FF | T_MULTI | T_MULTI_FF);
                let ok = placing && (filled == (o.lots - left.min(o.lots)) as u128 && filled > 0 || (left == 0 && (expired || evicted)));
                if !ok {
                    out.push(mk("debit", format!("order {} of {} went from {} to {left} lots without cause", o.seq, o.trader, o.lots)));
                }
            }
        }
    }

    /// Local well-formedness and locked funds.
    fn shape(&self, m: &Mkt, mk: &dyn Fn(&'static str, String) -> Viol, out: &mut Vec<Viol>) {
        let mut q: BTreeMap<Pubkey, u128> = BTreeMap::new();
        let mut b: BTreeMap<Pubkey, u128> = BTreeMap::new();
        for bid in [true, false] {
            let mut last: Option<&Order> = None;
            for o in m.book(bid) {
                if o.lots == 0 {
                    out.push(mk("zero_order", format!("order {} rests with zero size", o.seq)));
                }
                if o.price == 0 {
                    out.push(mk("zero_order", format!("order {} rests at price zero", o.seq)));
                }
                if let Some(l) = last {
                    let ok = if bid {
                        l.price > o.price || (l.price == o.price && l.seq > o.seq)
                    } else {
                        l.price < o.price || (l.price == o.price && l.seq < o.seq)
                    };
                    if !ok {
                        out.push(mk("sorted", format!("orders {} and {} are out of order", l.seq, o.seq)));
                    }
                }
                last = Some(o);
                if bid {
                    *q.entry(o.trader).or_default() += mul3(o.price, m.t, o.lots).unwrap_or(u128::MAX) / m.b.max(1) as u128;
                } else {
                    *b.entry(o.trader).or_default() += o.lots as u128;
                }
            }
        }
        for (k, t) in &m.traders {
            let (wq, wb) = (q.get(k).copied().unwrap_or(0), b.get(k).copied().unwrap_or(0));
            if wq != t.ql as u128 || wb != t.bl as u128 {
                out.push(mk(
                    "locked",
                    format!("{k}: locked quote {} base {}; resting orders need {wq} and {wb}", t.ql, t.bl),
                ));
            }
        }
    }

    fn solvent(&self, k: &Pubkey, m: &Mkt, mk: &dyn Fn(&'static str, String) -> Viol, out: &mut Vec<Viol>) {
        let h = &self.hist.m[k];
        let q: u128 = m.traders.values().map(|t| t.ql as u128 + t.qf as u128).sum::<u128>() + m.unclaimed as u128;
        let b: u128 = m.traders.values().map(|t| t.bl as u128 + t.bf as u128).sum();
        for (vault, lots, lot, don, name) in [
            (&m.hdr.quote.vault, q, m.hdr.quote_lot, h.donated_q, "quote"),
            (&m.hdr.base.vault, b, m.hdr.base_lot, h.donated_b, "base"),
        ] {
            match self.tok(vault) {
                None => out.push(mk("vault", format!("{name} vault is not a token account"))),
                Some(t) => {
                    let want = (lots * lot as u128) as i128 + don;
                    if t.amount as i128 != want {
                        out.push(mk("vault", format!("{name} vault holds {} but owes {want}", t.amount)));
                    }
                    if t.owner != *vault {
                        out.push(mk("vault", format!("{name} vault is controlled by {}", t.owner)));
                    }
                }
            }
        }
    }

    fn crossed(&self, m: &Mkt, out: &mut Vec<Viol>, tag: u8, ctx: u32) {
        if self.hist.ts_back {
            return;
        }
        let (s, t) = (self.chain.slot, self.chain.ts as u64);
        let bb = m.bids.iter().filter(|o| !o.expired(s, t)).map(|o| o.price).max();
        let ba = m.asks.iter().filter(|o| !o.expired(s, t)).map(|o| o.price).min();
        if let (Some(b), Some(a)) = (bb, ba) {
            if b >= a {
                out.push(viol("crossed", tag, ctx, format!("best bid {b} is not below best ask {a}")));
            }
        }
    }

    fn views(&mut self, k: &Pubkey, m: &Mkt, out: &mut Vec<Viol>, tag: u8, ctx: u32) {
        self.stats.views += 1;
        doing(D_VIEW);
        let a = &self.chain.accts[k];
        for e in views::check(&a.data, m, self.chain.slot, self.chain.ts as u64, self.nstep as u64) {
            out.push(viol("views", tag, ctx, e));
        }
        doing(0);
    }

    /// The indexer got the archived log scrambled and duplicated; it orders it by the numbers it
    /// carries and rebuilds every market from nothing.
    fn sync(&mut self, seed: u64) -> Vec<Viol> {
        let mut out = vec![];
        for (k, h) in self.hist.m.iter() {
            let m = match self.market(k) {
                None => continue,
                Some(m) => m,
            };
            let mut got: Vec<Rc<Vec<u8>>> = h.archive.clone();
            // duplicate and shuffle
            let mut s = seed | 1;
            let n = got.len();
            for i in 0..n {
                s = fnv(s, i as u64 + 1);
                if s % 5 == 0 {
                    got.push(got[i].clone());
                }
            }
            for i in (1..got.len()).rev() {
                s = fnv(s, i as u64);
                let j = (s % (i as u64 + 1)) as usize;
                got.swap(i, j);
            }
            let mut msgs: BTreeMap<(u64, u16), (LogHdr, Vec<(u16, Ev)>)> = BTreeMap::new();
            for raw in &got {
                if let Some((hd, e)) = dec_log(raw) {
                    let first = e.first().map(|x| x.0).unwrap_or(0);
                    // an empty batch of the same instruction never hides a full one
                    let e2 = e.clone();
                    let slot = msgs.entry((hd.seq, first)).or_insert((hd.clone(), e));
                    if slot.1.is_empty() && !e2.is_empty() {
                        *slot = (hd, e2);
                    }
                }
            }
            let mut r = MHist::default();
            let mut prev: Option<u64> = None;
            for ((seq, _), (hd, e)) in msgs {
                if let Some(p) = prev {
                    if seq != p && seq != p + 1 {
                        out.push(viol("log_seq", 255, 0, format!("market {k}: log numbers jump from {p} to {seq}")));
                    }
                }
                prev = Some(seq);
                for (_, x) in e {
                    apply_event(&mut r, &x, &hd.signer);
                }
            }
            let mut want: Vec<&Order> = m.bids.iter().chain(m.asks.iter()).collect();
            want.sort_by_key(|o| o.seq);
            let have: Vec<&Order> = r.replica.values().collect();
            if want != have {
                out.push(viol("replica", 255, 0, format!("market {k}: rebuilding from the archive gives {} orders, the book has {}", have.len(), want.len())));
            }
            if r.fees != m.unclaimed as i128 {
                out.push(viol("replica_fee", 255, 0, format!("market {k}: archive says {} fees, market {}", r.fees, m.unclaimed)));
            }
        }
        out
    }
}

/// What the process is in the middle of, for the one who looks when it hangs or dies.
pub static DOING: AtomicU64 = AtomicU64::new(0);
pub static DOING_FILE: std::sync::OnceLock<std::path::PathBuf> = std::sync::OnceLock::new();
pub const D_IX: u64 = 1 << 40;
pub const D_DUE: u64 = 1 << 41; // it has to succeed
pub const D_VIEW: u64 = 1 << 42;
fn doing(x: u64) {
    DOING.store(x, Ordering::Relaxed);
    if let Some(f) = DOING_FILE.get() {
        let _ = std::fs::write(f, x.to_string());
    }
}

pub fn viol(cat: &'static str, tag: u8, ctx: u32, detail: String) -> Viol {
    Viol { cat, tag, reasons: vec![], ctx, detail, step: 0 }
}

fn apply_event(h: &mut MHist, e: &Ev, signer: &Pubkey) {
    match e {
        Ev::Place { seq, price, lots, .. } => {
            h.replica.insert(*seq, Order { price: *price, seq: *seq, trader: *signer, lots: *lots, lvs: 0, lvt: 0 });
        }
        Ev::Tif { seq, slot, ts } => {
            if let Some(o) = h.replica.get_mut(seq) {
                o.lvs = *slot;
                o.lvt = *ts;
            }
        }
        Ev::Fill { maker, seq, price, filled, remaining } => {
            let gone = match h.replica.get_mut(seq) {
                Some(o) => {
                    // a wrong party, price or size makes the replica disagree with the book
                    let consistent = o.trader == *maker && o.price == *price && o.lots.checked_sub(*filled) == Some(*remaining);
                    o.lots = *remaining;
                    if !consistent {
                        o.price ^= 1 << 62;
                    }
                    *remaining == 0 && consistent
                }
                None => false,
            };
            if gone {
                h.replica.remove(seq);
            }
        }
        Ev::Reduce { seq, price, removed, remaining } => {
            let gone = match h.replica.get_mut(seq) {
                Some(o) => {
                    let consistent = o.price == *price && o.lots.checked_sub(*removed) == Some(*remaining);
                    o.lots = *remaining;
                    if !consistent {
                        o.price ^= 1 << 62;
                    }
                    *remaining == 0 && consistent
                }
                None => false,
            };
            if gone {
                h.replica.remove(seq);
            }
        }
        Ev::Evict { maker, seq, price, lots } => {
            if h.replica.get(seq).map(|o| o.trader == *maker && o.price == *price && o.lots == *lots).unwrap_or(false) {
                h.replica.remove(seq);
            }
        }
        Ev::Expired { maker, seq, price, removed } => {
            if h.replica.get(seq).map(|o| o.trader == *maker && o.price == *price && o.lots == *removed).unwrap_or(false) {
                h.replica.remove(seq);
            }
        }
        Ev::Summary { fee, .. } => h.fees += *fee as i128,
        Ev::Fee { lots } => h.fees -= *lots as i128,
    }
}

fn diff_mkt(e: &Mkt, m: &Mkt, mk: &dyn Fn(&'static str, String) -> Viol, out: &mut Vec<Viol>) {
    let (a, b) = (&e.hdr, &m.hdr);
    if a.status != b.status {
        out.push(mk("status", format!("status {} expected {}", b.status, a.status)));
    }
    if a.authority != b.authority || a.successor != b.successor {
        out.push(mk(
            "authority",
            format!("authority {} successor {}, expected {} and {}", b.authority, b.successor, a.authority, a.successor),
        ));
    }
    if a.fee_recipient != b.fee_recipient {
        out.push(mk("fee_recipient", format!("fee recipient {} expected {}", b.fee_recipient, a.fee_recipient)));
    }
    if a.msn != b.msn {
        out.push(mk("msn", format!("market sequence number {} expected {}", b.msn, a.msn)));
    }
    if a.disc != b.disc
        || a.sizes != b.sizes
        || a.base != b.base
        || a.quote != b.quote
        || a.base_lot != b.base_lot
        || a.quote_lot != b.quote_lot
        || a.tick_atoms != b.tick_atoms
        || a.raw != b.raw
        || e.b != m.b
        || e.t != m.t
        || e.fee_bps != m.fee_bps
    {
        out.push(mk("params", format!("parameters {:?} expected {:?}", b, a)));
    }
    if e.oseq != m.oseq {
        out.push(mk("oseq", format!("order sequence number {} expected {}", m.oseq, e.oseq)));
    }
    if e.collected != m.collected || e.unclaimed != m.unclaimed {
        out.push(mk(
            "fees",
            format!("fees collected {} uncollected {}, expected {} and {}", m.collected, m.unclaimed, e.collected, e.unclaimed),
        ));
    }
    for bid in [true, false] {
        if e.book(bid) != m.book(bid) {
            let (x, y) = (e.book(bid), m.book(bid));
            let i = x.iter().zip(y.iter()).position(|(p, q)| p != q).unwrap_or(x.len().min(y.len()));
            // which aspect differs
            let strip = |v: &Vec<Order>| v.iter().map(|o| (o.price, o.trader, o.lots, o.lvs, o.lvt)).collect::<Vec<_>>();
            let noexp = |v: &Vec<Order>| v.iter().map(|o| (o.price, o.seq, o.trader, o.lots)).collect::<Vec<_>>();
            let cat = if strip(x) == strip(y) {
                "book_ids"
            } else if noexp(x) == noexp(y) {
                "book_expiry"
            } else {
                "book"
            };
            out.push(mk(
                cat,
                format!(
                    "{} {i}: {:?} expected {:?} ({} orders, expected {})",
                    if bid { "bid" } else { "ask" },
                    y.get(i),
                    x.get(i),
                    y.len(),
                    x.len()
                ),
            ));
        }
    }
    let ka: Vec<_> = e.traders.keys().collect();
    let kb: Vec<_> = m.traders.keys().collect();
    if ka != kb {
        out.push(mk("registry", format!("{} registered traders, expected {}", kb.len(), ka.len())));
    }
    for (k, t) in &e.traders {
        if let Some(n) = m.traders.get(k) {
            if n != t {
                out.push(mk("balance", format!("{k}: {n:?} expected {t:?}")));
            }
        }
    }
}

#[allow(dead_code)]
pub fn sysid() -> Pubkey { system_program::id() }
