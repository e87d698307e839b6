//! The simulated deployment: actors, wallets, markets, a lossy network and a fork-prone ledger,
//! driven by one seeded generator. It emits concrete steps; nothing else decides what happens.
use crate::chain::*;
use crate::client::ata;
use crate::exec::*;
use crate::model::*;
use crate::parse::*;
use crate::wire::*;
use solana_program::{pubkey::Pubkey, system_program};
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn range(&mut self, a: u64, b: u64) -> u64 { a + self.below(b - a + 1) }
    pub fn pm(&mut self, permille: u64) -> bool { self.below(1000) < permille }
    pub fn coin(&mut self) -> bool { self.next() & 1 == 1 }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T { v[self.below(v.len() as u64) as usize].clone() }
    pub fn maybe<T: Clone>(&mut self, v: &[T]) -> Option<T> { if v.is_empty() { None } else { Some(self.pick(v)) } }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
    /// x-1, x or x+1
    pub fn near(&mut self, x: u64) -> u64 {
        match self.below(3) {
            0 => x.saturating_sub(1),
            1 => x,
            _ => x.saturating_add(1),
        }
    }
}
pub fn hkey(kind: u64, a: u64, b: u64, c: u64) -> Pubkey {
    let mut r = Rng(fnv(fnv(fnv(fnv(0x51ab, kind), a), b), c));
    let mut k = [0u8; 32];
    for i in 0..4 {
        k[i * 8..i * 8 + 8].copy_from_slice(&r.next().to_le_bytes());
    }
    Pubkey::new_from_array(k)
}
pub fn evil_program() -> Pubkey { hkey(99, 0, 0, 0) }
fn rent(len: usize) -> u64 { (len as u64 + 128) * 6960 }

// operation classes
pub const O_LIMIT: usize = 0;
pub const O_POST: usize = 1;
pub const O_IOC: usize = 2;
pub const O_MULTI: usize = 3;
pub const O_CALL: usize = 4;
pub const O_CUPTO: usize = 5;
pub const O_CMULTI: usize = 6;
pub const O_REDUCE: usize = 7;
pub const O_WITHDRAW: usize = 8;
pub const O_DEPOSIT: usize = 9;
pub const O_REQSEAT: usize = 10;
pub const O_SEATST: usize = 11;
pub const O_EVICT: usize = 12;
pub const O_FORCE: usize = 13;
pub const O_COLLECT: usize = 14;
pub const O_FEEREC: usize = 15;
pub const O_AUTH: usize = 16;
pub const O_STATUS: usize = 17;
pub const O_INIT: usize = 18;
pub const O_LOG: usize = 19;
pub const O_CLOCK: usize = 20;
pub const O_WALLET: usize = 21;
pub const O_DONATE: usize = 22;
pub const O_PREFUND: usize = 23;
pub const O_HEAL: usize = 24;
pub const O_SYNC: usize = 25;
pub const N_OPS: usize = 26;
pub const OP_NAMES: [&str; N_OPS] = [
    "limit", "post_only", "ioc", "multi", "cancel_all", "cancel_up_to", "cancel_by_id", "reduce", "withdraw", "deposit",
    "request_seat", "seat_status", "evict", "force_cancel", "collect_fees", "fee_recipient", "authority", "market_status",
    "initialize", "forged_log", "clock", "wallet_fault", "donate", "prefund", "heal", "indexer_sync",
];

/// What one property wants to see more of. Everything is per mille.
#[derive(Clone)]
pub struct Profile {
    pub boost: Vec<(usize, u64)>,
    pub hostile: u64,
    pub payload: u64,
    pub privs: u64,
    pub fault: u64,
    pub sweep: u64,
    pub bundle: u64,
    pub fork: u64,
    pub net: u64,
    pub tif: u64,
    pub ff: u64,
    pub fill: u64,     // chance that the run fills a side of the book
    pub table: u64,    // chance that the run fills the trader table
    pub huge: u64,     // chance of a run with extreme numbers
    pub rich: u64,     // chance of a run with very large, but sound, amounts
    pub deep: u64,     // chance of a run with deep books and sweeping takers
    pub late: u64,     // chance of a clock that starts far from zero
    pub shaped: u64,   // immediate orders of the shape of a published constructor
    pub decimals: u64, // a mint with very many decimals
    pub aged: u64,     // a market with a long history behind it
    pub crowd: u64,    // chance that a larger market has a crowded registry
    pub big: u64,      // chance of a larger market configuration
    pub winddown: u64,
    pub boundary: u64,
    pub markets: (u64, u64),
    pub traders: (u64, u64),
    pub steps: (u64, u64),
    pub old_wire: u64,
    pub wrong_status: u64,
    pub back: u64, // clock steps that go backwards
    pub poor: u64, // poor traders
    pub min: u64,  // minimum fills
}
impl Default for Profile {
    fn default() -> Profile {
        Profile {
            boost: vec![],
            hostile: 25,
            payload: 15,
            privs: 15,
            fault: 30,
            sweep: 0,
            bundle: 60,
            fork: 15,
            net: 150,
            tif: 200,
            ff: 300,
            fill: 15,
            table: 8,
            huge: 15,
            rich: 40,
            deep: 60,
            late: 150,
            shaped: 30,
            decimals: 15,
            aged: 60,
            crowd: 0,
            big: 5,
            winddown: 250,
            boundary: 300,
            markets: (1, 3),
            traders: (3, 7),
            steps: (60, 160),
            old_wire: 60,
            wrong_status: 400,
            back: 30,
            poor: 400,
            min: 400,
        }
    }
}

#[derive(Clone)]
pub struct Actor {
    pub key: Pubkey,
    /// wallets[mint] = token accounts
    pub wallets: Vec<Vec<Pubkey>>,
    pub home: Vec<Vec<u64>>, // what healing restores
}
#[derive(Clone)]
pub struct MI {
    pub key: Pubkey,
    pub bm: usize,
    pub qm: usize,
    pub bv: Pubkey,
    pub qv: Pubkey,
    pub p: InitP,
    pub mid: u64,
    pub len: usize,
}

pub struct World<'a> {
    pub r: Rng,
    pub p: Profile,
    pub ex: &'a mut Exec,
    pub trace: Vec<Step>,
    pub stop: &'a dyn Fn(&Viol) -> bool,
    pub found: Option<Viol>,
    pub others: BTreeMap<String, u64>,
    w: [u64; N_OPS],
    actors: Vec<Actor>,
    first_trader: usize,
    mints: Vec<(Pubkey, u8)>,
    ms: Vec<MI>,
    spares: Vec<(Pubkey, usize)>,
    fakes: Vec<Pubkey>,
    pool: Vec<(u64, Tx)>,
    tick: u64,
    huge: bool,
    rich: bool,
    deep: bool,
    stale: Vec<CancelId>,
    recent: Vec<Tx>,
    depth: u32,
    last_txs: Vec<Tx>,
    /// steps are written here before they are taken
    pub dump: Option<std::fs::File>,
}

fn ro(k: Pubkey) -> Meta { Meta { key: k, signer: false, writable: false } }
fn wr(k: Pubkey) -> Meta { Meta { key: k, signer: false, writable: true } }
fn sg(k: Pubkey) -> Meta { Meta { key: k, signer: true, writable: true } }

pub fn log_authority() -> Pubkey { find_pda(&[b"log"], &phoenix_id()).0 }
pub fn seat_addr(m: &Pubkey, t: &Pubkey) -> Pubkey { find_pda(&[b"seat", m.as_ref(), t.as_ref()], &phoenix_id()).0 }
pub fn vault_addr(m: &Pubkey, t: &Pubkey) -> Pubkey { find_pda(&[b"vault", m.as_ref(), t.as_ref()], &phoenix_id()).0 }

impl<'a> World<'a> {
    pub fn new(seed: u64, p: Profile, ex: &'a mut Exec, stop: &'a dyn Fn(&Viol) -> bool) -> World<'a> {
        World {
            r: Rng(seed),
            p,
            ex,
            trace: vec![],
            stop,
            found: None,
            others: BTreeMap::new(),
            w: [1; N_OPS],
            actors: vec![],
            first_trader: 6,
            mints: vec![],
            ms: vec![],
            spares: vec![],
            fakes: vec![],
            pool: vec![],
            tick: 0,
            huge: false,
            rich: false,
            deep: false,
            stale: vec![],
            recent: vec![],
            depth: 0,
            last_txs: vec![],
            dump: None,
        }
    }
    fn done(&self) -> bool { self.found.is_some() }
    fn step(&mut self, s: Step) {
        if self.done() {
            return;
        }
        crate::beat();
        if let Some(f) = self.dump.as_mut() {
            use std::io::Write;
            let _ = writeln!(f, "{}", crate::replay::step_text(&s));
        }
        let vs = self.ex.step(&s);
        self.trace.push(s);
        for v in vs {
            if (self.stop)(&v) {
                self.found = Some(v);
                return;
            }
            *self.others.entry(format!("{} {} {:?} {}", v.cat, tag_name(v.tag), v.reasons, v.detail)).or_default() += 1;
        }
    }
    fn net(&mut self, n: &'static str) { *self.ex.stats.net.entry(n).or_default() += 1 }
    fn mkt(&self, i: usize) -> Option<Rc<Mkt>> { self.ex.market(&self.ms[i].key) }

    // ------------------------------------------------------------------ genesis
    fn genesis(&mut self) {
        let loader = hkey(98, 0, 0, 0);
        for k in [phoenix_id(), spl_token::id(), system_program::id(), evil_program()] {
            self.step(Step::Put(k, Acct { lamports: 1, owner: loader, data: Rc::new(vec![]), executable: true }));
        }
        let pr = self.p.clone();
        let mut slot = self.r.range(1, 1000);
        let mut ts = self.r.range(1, 100_000);
        if self.r.pm(pr.late) {
            let near = |r: &mut Rng| {
                let p = r.pick(&[8u32, 16, 28, 31, 31, 32, 32, 32, 33, 40]);
                (1u64 << p) - r.range(1, 60) + r.pick(&[0, 0, 59])
            };
            if self.r.pm(700) {
                slot = near(&mut self.r);
            }
            if self.r.pm(700) {
                ts = near(&mut self.r);
            }
        }
        self.step(Step::Clock(slot, ts as i64));
        self.huge = self.r.pm(pr.huge);
        self.rich = self.r.pm(pr.rich);
        // swarm: every run has its own mix of operations
        let base: [u64; N_OPS] = [
            140, 120, 110, 60, 14, 22, 26, 30, 25, 40, 8, 12, 6, 8, 8, 5, 8, 12, 3, 3, 60, 12, 3, 3, 10, 3,
        ];
        for i in 0..N_OPS {
            let f = self.r.pick(&[0u64, 1, 2, 2, 3, 6]);
            self.w[i] = base[i] * f;
        }
        for (i, x) in &pr.boost {
            self.w[*i] = (self.w[*i] + base[*i]) * x;
        }
        self.w[O_CLOCK] = self.w[O_CLOCK].max(20);
        self.w[O_HEAL] = self.w[O_HEAL].max(5);
        let (lo, hi) = pr.markets;
        let nm = self.r.range(lo, hi);
        let table = self.r.pm(pr.table);
        let (lo, hi) = pr.traders;
        let nt = if table { 135 } else { self.r.range(lo, hi) } as usize;
        self.rich &= !table;
        let most = if self.rich { 1u64 << 58 } else { 1_000_000_000_000_000 };
        // mints
        let nmint = self.r.range(2, 4) as usize;
        for i in 0..nmint {
            let dec =
                if self.r.pm(pr.decimals) { self.r.pick(&[10u8, 12, 15, 18, 19]) } else { self.r.pick(&[0u8, 2, 3, 6, 6, 9]) };
            let k = hkey(1, i as u64, 0, 0);
            self.mints.push((k, dec));
            let d = mk_mint(&hkey(2, 0, 0, 0), 0, dec, true);
            self.step(Step::Put(k, Acct { lamports: rent(82), owner: spl_token::id(), data: Rc::new(d), executable: false }));
        }
        // actors: three possible authorities, two fee recipients, an outsider, then traders
        let mut used: Vec<u64> = vec![];
        for i in 0..(self.first_trader + nt) {
            let mut id = self.r.below(200);
            while used.contains(&id) {
                id = (id + 1) % 200;
            }
            used.push(id);
            let key = hkey(3, id, 0, 0);
            let poor = i >= self.first_trader && self.r.pm(pr.poor);
            let mut wallets = vec![];
            let mut home = vec![];
            for mi in 0..nmint {
                let mut ws = vec![];
                let mut hs = vec![];
                let n = if table && i > 12 { 1 } else { 1 + (self.r.below(4) == 0) as u64 };
                for x in 0..n {
                    // the first wallet is where the associated-token program puts it
                    let wk = if x == 0 && i <= 12 { ata(&key, &self.mints[mi].0) } else { hkey(4, id, mi as u64, x) };
                    let unit = 10u64.pow(self.mints[mi].1 as u32);
                    let amt = if poor {
                        self.r.range(0, 400).saturating_mul(unit / self.r.pick(&[1u64, 10, 100, 1000]).min(unit))
                    } else {
                        most
                    };
                    let amt = amt.min(most);
                    ws.push(wk);
                    hs.push(amt);
                    if !(table && i > 20 && x > 0) {
                        self.put_tok(wk, mi, key, amt, 1);
                    }
                }
                wallets.push(ws);
                home.push(hs);
            }
            self.step(Step::Put(key, Acct { lamports: 1_000_000_000_000, owner: system_program::id(), data: Rc::new(vec![]), executable: false }));
            self.actors.push(Actor { key, wallets, home });
        }
        // look-alikes that anyone could have deployed
        for i in 0..3 {
            self.fakes.push(hkey(5, i, 0, 0));
        }
        // markets
        for i in 0..nm {
            let mi = self.new_market(i, table);
            self.ms.push(mi);
            self.start_market(i as usize, table);
            if self.done() {
                return;
            }
        }
        for i in 0..2u64 {
            let key = hkey(7, i, 0, 0);
            let full = market_len((512, 512, 128));
            let len = self.r.pick(&[full, full, full, full - 1, HDR, full + 8]);
            self.put_zero(key, len);
            self.spares.push((key, len));
        }
        let mk = self.ms[0].key;
        let f = self.fakes[0];
        if let Some(a) = self.ex.chain.accts.get(&mk).cloned() {
            self.step(Step::Put(f, Acct { owner: evil_program(), ..a }));
        }
        let bad = self.actors[5].key;
        let d = mk_seat(&mk, &bad, 1);
        self.step(Step::Put(self.fakes[1], Acct { lamports: rent(128), owner: evil_program(), data: Rc::new(d), executable: false }));
        // a token account anyone may open in the name of a vault
        let (q, qv) = (self.ms[0].qm, self.ms[0].qv);
        self.put_tok(self.fakes[2], q, qv, 1_000_000, 1);
    }
    fn put_tok(&mut self, k: Pubkey, mint: usize, owner: Pubkey, amount: u64, state: u8) {
        let mut d = mk_tok(&self.mints[mint].0, &owner, amount, state);
        // some owners have let somebody else spend from the wallet, or close it
        if self.actors.len() > 9 && self.r.pm(200) {
            self.net("wallet_delegated");
            let n = self.actors.len() as u64;
            let i = self.r.below(n.min(14)) as usize;
            let to = if self.r.coin() { self.actors.iter().find(|a| a.wallets.iter().flatten().any(|w| *w == k)).map(|a| a.key) } else { None };
            let to = to.unwrap_or(self.actors[i].key);
            // (one who delegates to itself spends as a delegate, within the allowance)
            let to = if to == owner { self.actors[(i + 1) % n as usize].key } else { to };
            let to = if to == owner { evil_program() } else { to };
            let at = self.r.pick(&[72usize, 72, 129]);
            d[at..at + 4].copy_from_slice(&1u32.to_le_bytes());
            d[at + 4..at + 36].copy_from_slice(to.as_ref());
            if at == 72 {
                let m = self.r.pick(&[u64::MAX, amount, 1, 0]);
                d[121..129].copy_from_slice(&m.to_le_bytes());
            }
        }
        self.step(Step::Put(k, Acct { lamports: rent(165), owner: spl_token::id(), data: Rc::new(d), executable: false }));
    }
    fn put_zero(&mut self, k: Pubkey, len: usize) {
        self.step(Step::Put(
            k,
            Acct { lamports: rent(len), owner: phoenix_id(), data: Rc::new(vec![0; len]), executable: false },
        ));
    }
    fn params(&mut self, bm: usize, qm: usize, sizes: (u64, u64, u64)) -> InitP {
        let raw = self.r.pick(&[None, None, Some(1u32), Some(10), Some(1000)]);
        let bu = 10u64.pow(self.mints[bm].1 as u32).checked_mul(raw.unwrap_or(1) as u64).unwrap_or(1);
        let qu = 10u64.pow(self.mints[qm].1 as u32);
        let div = |r: &mut Rng, u: u64| -> u64 {
            let small = [1u64, 2, 4, 5, 10, 20, 25, 50, 100, 1000, 10000];
            let large = [1_000_000u64, 100_000_000, 1 << 10, 10_000_000_000, 1 << 18, 3];
            let all = if u >= 10_000_000_000 { small.iter().chain(&large) } else { small.iter().chain(&[]) };
            let c: Vec<u64> = all.copied().filter(|x| u % x == 0).collect();
            r.pick(&c)
        };
        let b = div(&mut self.r, bu);
        let q = div(&mut self.r, qu);
        let k = self.r.pick(&[1u64, 1, 1, 2, 3, 7, 10]);
        let fee = self.r.pick(&[0u16, 1, 2, 5, 10, 30, 100, 333, 2500, 9999, 10000]);
        let fee = if fee >= 2500 && self.r.coin() { 7 } else { fee };
        // now and then the authority, or the one who will succeed it, receives the fees
        let who = self.r.pick(&[3usize, 3, 3, 3, 3, 3, 0, 0, 1, 2]);
        let recipient = self.actors[who].key;
        InitP { sizes, num_quote_lots: q, tick: b * k, num_base_lots: b, fee_bps: fee, recipient, raw }
    }
    fn new_market(&mut self, i: u64, table: bool) -> MI {
        let n = self.mints.len() as u64;
        let bm = if i == 0 || self.r.coin() { 0 } else { self.r.below(n) as usize };
        let mut qm = if i == 0 || self.r.coin() { 1 } else { self.r.below(n) as usize };
        if qm == bm {
            qm = (bm + 1) % n as usize;
        }
        let big = self.p.big;
        let sizes = if i == 0 && !table && self.r.pm(big) { self.r.pick(&CONFIGS) } else { CONFIGS[0] };
        let key = hkey(6, i, 0, 0);
        let p = self.params(bm, qm, sizes);
        let len = market_len(sizes) + if self.r.pm(100) { 64 } else { 0 };
        MI {
            key,
            bm,
            qm,
            bv: vault_addr(&key, &self.mints[bm].0),
            qv: vault_addr(&key, &self.mints[qm].0),
            p,
            mid: self.r.pick(&[3u64, 10, 50, 200, 1000, 5000]),
            len,
        }
    }
    fn start_market(&mut self, i: usize, table: bool) {
        let mi = self.ms[i].clone();
        self.put_zero(mi.key, mi.len);
        let auth = self.actors[if self.r.below(4) == 0 { 1 } else { 0 }].key;
        let ix = self.init_ix(&mi.key, &auth, mi.bm, mi.qm, &mi.p);
        self.run_tx(vec![ix]);
        let aged = self.p.aged;
        if self.r.pm(aged) {
            self.net("aged_market");
            let near = |r: &mut Rng| {
                let p = r.pick(&[8u32, 16, 31, 32, 32, 33, 48, 53, 62]);
                (1u64 << p) - r.range(0, 60.min(1u64 << p - 1))
            };
            let oseq = if self.r.pm(250) { (u64::MAX >> 1) - self.r.range(0, 60) } else { near(&mut self.r) };
            let (msn, fees) = (near(&mut self.r), if self.r.coin() { 0 } else { near(&mut self.r) });
            self.step(Step::Aged(mi.key, oseq, msn, fees));
        }
        // seats: most traders get one
        let rich = self.first_trader + 5;
        for t in self.first_trader..self.actors.len() {
            if table && i > 0 && t > rich {
                break;
            }
            let few = if self.p.crowd > 0 { 400 } else { 80 };
            let skip = self.r.pm(few);
            if skip && !table {
                continue;
            }
            let k = self.actors[t].key;
            let req = self.ix(T_REQSEAT, &mi.key, &k, vec![wr(seat_addr(&mi.key, &k)), ro(system_program::id())], &[]);
            let ap = self.ix(T_SEATSTATUS, &mi.key, &auth, vec![wr(seat_addr(&mi.key, &k))], &[1]);
            if self.r.coin() {
                self.run_tx(vec![req, ap]);
            } else {
                self.run_tx(vec![req]);
                self.run_tx(vec![ap]);
            }
        }
        if self.r.pm(880) {
            let ix = self.ix(T_STATUS, &mi.key, &auth, vec![], &[1]);
            self.run_tx(vec![ix]);
        }
    }

    // ------------------------------------------------------------------ instruction builders
    fn ix(&self, tag: u8, market: &Pubkey, signer: &Pubkey, extra: Vec<Meta>, payload: &[u8]) -> Ix {
        let mut metas = vec![ro(phoenix_id()), ro(log_authority()), wr(*market), sg(*signer)];
        metas.extend(extra);
        Ix { program: phoenix_id(), metas, data: with_tag(tag, payload) }
    }
    fn init_ix(&self, market: &Pubkey, signer: &Pubkey, bm: usize, qm: usize, p: &InitP) -> Ix {
        let (b, q) = (self.mints[bm].0, self.mints[qm].0);
        self.ix(
            T_INIT,
            market,
            signer,
            vec![
                ro(b),
                ro(q),
                wr(vault_addr(market, &b)),
                wr(vault_addr(market, &q)),
                ro(system_program::id()),
                ro(spl_token::id()),
            ],
            &p.enc(),
        )
    }
    fn wallet(&mut self, a: usize, mint: usize) -> Pubkey {
        let w = self.actors[a].wallets[mint].clone();
        if w.len() > 1 && self.r.pm(150) {
            w[1]
        } else {
            w[0]
        }
    }
    fn vctx(&mut self, i: usize, a: usize) -> Vec<Meta> {
        let m = self.ms[i].clone();
        let b = self.wallet(a, m.bm);
        let q = self.wallet(a, m.qm);
        vec![wr(b), wr(q), wr(m.bv), wr(m.qv), ro(spl_token::id())]
    }
    fn seat(&self, i: usize, a: usize) -> Meta { ro(seat_addr(&self.ms[i].key, &self.actors[a].key)) }

    // ------------------------------------------------------------------ network and ledger
    fn run_tx(&mut self, ixs: Vec<Ix>) { self.step(Step::Tx(Tx { ixs, fault: None, must: false, note: String::new() })); }
    fn must_tx(&mut self, ixs: Vec<Ix>) { self.step(Step::Tx(Tx { ixs, fault: None, must: true, note: String::new() })); }
    /// More for a retired market in the very transaction that retires it: lamports sent back to
    /// its address, or another instruction on it.
    fn afterlife(&mut self, mk: &Pubkey, auth: &Pubkey, v: &mut Vec<Ix>) {
        let refund = |r: &mut Rng| {
            let mut d = vec![2, 0, 0, 0];
            d.extend(r.pick(&[1u64, 1_000_000, 40_000_000]).to_le_bytes());
            Ix { program: system_program::id(), metas: vec![sg(*auth), wr(*mk)], data: d }
        };
        let n = self.r.below(4);
        if n & 1 != 0 {
            v.push(refund(&mut self.r));
        }
        if n & 2 != 0 {
            let st = self.r.range(1, 5) as u8;
            v.push(self.ix(T_STATUS, mk, auth, vec![], &[st]));
        }
        self.net("afterlife");
    }
    fn syscalls(&self, tx: &Tx, which: usize) -> u32 {
        let mut c = self.ex.chain.clone();
        for (i, ix) in tx.ixs.iter().enumerate() {
            let r = c.exec_ix(ix, &tx.ixs, None);
            if i == which {
                return r.syscalls;
            }
            if !r.ok {
                return 0;
            }
        }
        0
    }
    fn send(&mut self, ixs: Vec<Ix>) {
        let tx = Tx { ixs, fault: None, must: false, note: String::new() };
        let net = self.p.net;
        if self.r.pm(net / 6) {
            self.net("dropped");
            return;
        }
        let mut due = self.tick;
        if self.r.pm(net) {
            self.net("delayed");
            due += self.r.range(1, 9);
        }
        if self.r.pm(net / 3) {
            self.net("duplicated");
            let d = self.tick + self.r.range(0, 9);
            self.pool.push((d, tx.clone()));
        }
        self.pool.push((due, tx));
    }
    fn deliver(&mut self) {
        let t = self.tick;
        let (mut now, later): (Vec<_>, Vec<_>) = std::mem::take(&mut self.pool).into_iter().partition(|x| x.0 <= t);
        self.pool = later;
        if now.len() > 1 {
            self.net("reordered");
            self.r.shuffle(&mut now);
        }
        for (_, tx) in now {
            if self.done() {
                return;
            }
            self.arrive(tx);
        }
    }
    fn arrive(&mut self, mut tx: Tx) {
        let (pf, ps) = (self.p.fault, self.p.sweep);
        if self.r.pm(ps) {
            // every point of this instruction fails once, both ways, before it is let through
            let which = self.r.below(tx.ixs.len() as u64) as usize;
            let n = self.syscalls(&tx, which).min(40);
            for k in 0..n {
                for kind in [AbortKind::Error, AbortKind::Kill] {
                    let mut t = tx.clone();
                    t.fault = Some((which, k, kind));
                    self.step(Step::Tx(t));
                }
            }
        } else if self.r.pm(pf) {
            let which = self.r.below(tx.ixs.len() as u64) as usize;
            let n = self.syscalls(&tx, which);
            if n > 0 {
                let k = self.r.below(n as u64) as u32;
                let kind = if self.r.coin() { AbortKind::Error } else { AbortKind::Kill };
                let mut t = tx.clone();
                t.fault = Some((which, k, kind));
                self.step(Step::Tx(t));
                if self.r.coin() {
                    return; // the client never learns and gives up
                }
                self.net("retried");
            }
        }
        tx.fault = None;
        self.recent.push(tx.clone());
        if self.recent.len() > 40 {
            self.recent.remove(0);
        }
        if self.depth > 0 {
            self.last_txs.push(tx.clone());
        }
        // keep some identifiers that will go stale
        if self.r.below(6) == 0 {
            let i = self.r.below(self.ms.len() as u64) as usize;
            if let Some(m) = self.mkt(i) {
                let bid = self.r.coin();
                if let Some(o) = self.r.maybe(m.book(bid)) {
                    self.stale.push(CancelId { bid, price: o.price, seq: o.seq });
                    if self.stale.len() > 30 {
                        self.stale.remove(0);
                    }
                }
            }
        }
        self.step(Step::Tx(tx));
    }

    // ------------------------------------------------------------------ one run
    pub fn run(&mut self) {
        self.genesis();
        let pr = self.p.clone();
        if self.r.pm(pr.fill) && !self.done() {
            self.fill_book();
        }
        if self.r.pm(pr.crowd) && !self.done() {
            self.crowd();
        }
        self.deep = self.r.pm(pr.deep);
        if self.deep && !self.done() {
            self.deepen(false);
        }
        let n = self.r.range(pr.steps.0, pr.steps.1);
        for _ in 0..n {
            if self.done() {
                return;
            }
            self.one_tick();
        }
        // the network drains
        for _ in 0..10 {
            self.tick += 1;
            self.deliver();
        }
        if self.done() {
            return;
        }
        let s = self.r.next();
        self.step(Step::Sync(s));
        let wd = self.p.winddown;
        if self.r.pm(wd) && !self.done() {
            self.wind_down();
        }
    }
    /// A market re-created at its address may trade other mints.
    fn know_markets(&mut self) {
        for i in 0..self.ms.len() {
            if let Some(m) = self.mkt(i) {
                let (b, q) = (m.hdr.base.mint, m.hdr.quote.mint);
                if b != self.mints[self.ms[i].bm].0 || q != self.mints[self.ms[i].qm].0 {
                    let at = |w: &World, k: &Pubkey| w.mints.iter().position(|x| x.0 == *k);
                    if let (Some(x), Some(y)) = (at(self, &b), at(self, &q)) {
                        let mi = &mut self.ms[i];
                        (mi.bm, mi.qm, mi.bv, mi.qv) = (x, y, m.hdr.base.vault, m.hdr.quote.vault);
                    }
                }
            }
        }
    }
    fn one_tick(&mut self) {
        self.tick += 1;
        self.know_markets();
        let pr = self.p.clone();
        if self.deep && self.r.pm(25) {
            self.deepen(false);
        }
        if self.deep && self.r.pm(40) {
            self.wither();
        }
        if self.depth == 0 && self.r.pm(pr.fork) {
            // a fork: what happens here is abandoned, then partly replayed in another order
            self.step(Step::Snap);
            self.depth += 1;
            self.last_txs.clear();
            let n = self.r.range(1, 6);
            for _ in 0..n {
                if self.done() {
                    return;
                }
                self.one_tick();
            }
            self.depth -= 1;
            self.step(Step::Revert);
            let mut l = std::mem::take(&mut self.last_txs);
            self.r.shuffle(&mut l);
            for tx in l {
                if self.r.pm(700) {
                    self.net("replayed_after_fork");
                    let d = self.tick + self.r.below(4);
                    self.pool.push((d, tx));
                }
            }
            return;
        }
        let total: u64 = self.w.iter().sum();
        let mut x = self.r.below(total);
        let mut op = 0;
        for (i, w) in self.w.iter().enumerate() {
            if x < *w {
                op = i;
                break;
            }
            x -= w;
        }
        if let Some(mut ixs) = self.op(op) {
            if self.r.pm(pr.bundle) {
                let n = self.r.range(1, 3);
                for _ in 0..n {
                    let o2 = self.r.below(O_LOG as u64) as usize;
                    if o2 == O_STATUS || o2 == O_INIT {
                        continue;
                    }
                    if let Some(more) = self.op(o2) {
                        ixs.extend(more);
                    }
                }
            }
            let i = self.r.below(ixs.len() as u64) as usize;
            if self.r.pm(pr.hostile) {
                self.substitute(&mut ixs[i]);
            }
            if self.r.pm(pr.payload) {
                self.corrupt(&mut ixs[i]);
            }
            if self.r.pm(pr.privs) && !ixs[i].metas.is_empty() {
                let n = ixs[i].metas.len() as u64;
                let j = if self.r.coin() { 3.min(n - 1) } else { self.r.below(n) } as usize;
                let m = &mut ixs[i].metas[j];
                if self.r.coin() {
                    m.signer = false;
                } else {
                    m.writable = false;
                }
            }
            self.send(ixs);
        }
        self.deliver();
    }

    fn any_trader(&mut self) -> usize {
        let n = self.actors.len();
        if self.r.pm(20) {
            return self.r.below(n as u64) as usize;
        }
        let hot = (n - self.first_trader).min(8);
        let span = if self.r.pm(900) { hot } else { n - self.first_trader };
        self.first_trader + self.r.below(span as u64) as usize
    }
    fn any_market(&mut self) -> usize {
        let n = self.ms.len() as u64;
        if self.r.coin() {
            0
        } else {
            self.r.below(n) as usize
        }
    }
    fn actor_of(&self, k: &Pubkey) -> Option<usize> { self.actors.iter().position(|a| a.key == *k) }
    /// the market's authority; sometimes somebody who is not
    fn auth(&mut self, m: &Mkt) -> Pubkey {
        if self.r.pm(120) {
            let n = self.actors.len() as u64;
            let i = self.r.below(n.min(9)) as usize;
            return self.actors[i].key;
        }
        m.hdr.authority
    }
    fn free_and_wallet(&self, m: &Mkt, i: usize, a: usize, ff: bool) -> (u64, u64) {
        let t = m.traders.get(&self.actors[a].key).cloned().unwrap_or_default();
        if ff {
            return (t.bf, t.qf);
        }
        let amt = |mint: usize| self.ex.tok(&self.actors[a].wallets[mint][0]).map(|t| t.amount).unwrap_or(0);
        (
            t.bf + amt(self.ms[i].bm) / m.hdr.base_lot.max(1),
            t.qf + amt(self.ms[i].qm) / m.hdr.quote_lot.max(1),
        )
    }
    fn tif(&mut self, pk: &mut (Option<u64>, Option<u64>)) {
        let p = self.p.tif;
        if !self.r.pm(p) {
            return;
        }
        let (s, t) = (self.ex.chain.slot, self.ex.chain.ts.max(0) as u64);
        let f = |r: &mut Rng, now: u64| -> u64 {
            match r.below(12) {
                0 => now.saturating_sub(1),
                1 | 2 => now,
                3 | 4 => now + 1,
                5 | 6 => now + 2,
                7 => now + 3,
                8 => now + r.range(1, 12),
                9 => now + r.range(1, 60),
                10 => u64::MAX,
                _ => r.below(2),
            }
        };
        let c = self.r.below(3);
        if c != 1 {
            pk.0 = Some(f(&mut self.r, s));
        }
        if c != 0 {
            pk.1 = Some(f(&mut self.r, t));
        }
    }
    fn price(&mut self, i: usize, m: &Mkt, bid: bool) -> u64 {
        let mid = self.ms[i].mid;
        let opp = m.book(!bid).first().map(|o| o.price);
        let own = m.book(bid).first().map(|o| o.price);
        if self.huge && self.r.pm(100) {
            return self.r.pick(&[u64::MAX, u64::MAX - 1, u64::MAX / 2, 1 << 40, 1 << 32, 1 << 50, 1 << 62]);
        }
        match self.r.below(100) {
            0..=24 => {
                let x = opp.or(own).unwrap_or(mid);
                self.r.near(x)
            }
            25..=39 => {
                let x = own.or(opp).unwrap_or(mid);
                self.r.near(x)
            }
            40..=54 => {
                // some level deeper on the other side
                let x = m.book(!bid);
                let k = x.len().min(if self.deep { 200 } else { 6 });
                self.r.maybe(&x[..k]).map(|o| o.price).unwrap_or(mid)
            }
            55..=59 => {
                let x = m.book(bid);
                self.r.maybe(x).map(|o| o.price).unwrap_or(mid)
            }
            60..=61 => self.r.below(3),
            62 => u64::MAX,
            _ => {
                let d = self.r.below(12);
                let s = self.r.pm(750);
                // mostly passive around the middle
                if bid == s {
                    mid.saturating_sub(d).max(1)
                } else {
                    mid.saturating_add(d)
                }
            }
        }
    }
    /// how many resting orders the next taker aims at
    fn reach(&mut self, m: &Mkt, bid: bool) -> usize {
        if self.deep && self.r.pm(600) {
            return self.r.below(m.book(!bid).len().min(150) as u64 + 1) as usize + 1;
        }
        self.r.below(4) as usize + 1
    }
    fn size(&mut self, m: &Mkt, bid: bool) -> u64 {
        if self.rich && self.r.pm(500) {
            let p = self.r.range(1, 46);
            let x = 1u64 << p;
            return self.r.near(x) + self.r.below(3);
        }
        if self.deep && self.r.pm(350) {
            let k = self.reach(m, bid);
            let s: u64 = m.book(!bid).iter().take(k).map(|o| o.lots).fold(0, |a, b| a.saturating_add(b));
            return self.r.near(s).max(1);
        }
        if self.huge && self.r.pm(120) {
            return self.r.pick(&[u64::MAX, u64::MAX / 2 + 1, 1 << 40, 1 << 50, 1 << 32, 1 << 62]);
        }
        match self.r.below(20) {
            0 => {
                let k = self.r.below(4) as usize + 1;
                let s: u64 = m.book(!bid).iter().take(k).map(|o| o.lots).fold(0, |a, b| a.saturating_add(b));
                self.r.near(s)
            }
            1 => {
                let k = self.r.below(4) as usize + 1;
                m.book(!bid).iter().take(k).map(|o| o.lots).fold(0u64, |a, b| a.saturating_add(b)).max(1)
            }
            2 if self.r.below(4) == 0 => 0,
            3 => self.r.range(1, 1000),
            4 => 1,
            5 | 6 => match self.fee_edge(m, bid) {
                Some(n) => n,
                None => self.r.range(1, 30),
            },
            _ => self.r.range(1, 30),
        }
    }
    /// a number of lots whose product with some unit of the market just exceeds 64 bits: whoever
    /// multiplies without care sees a small, affordable amount
    fn wrapped(&mut self, m: &Mkt, price: u64) -> u64 {
        let pt = price.saturating_mul(m.t);
        let u = self.r.pick(&[pt, pt / m.b.max(1), m.hdr.base_lot, m.hdr.quote_lot, m.t, m.b, 10_000]);
        let k = self.r.below(4);
        let n = (1u128 << 64) / u.max(1) as u128 + k as u128;
        u64::try_from(n).unwrap_or(u64::MAX - k)
    }
    /// a size whose fee lies exactly at, or just above, a whole quote lot
    fn fee_edge(&mut self, m: &Mkt, bid: bool) -> Option<u64> {
        if m.fee_bps == 0 || m.b == 0 {
            return None;
        }
        let (mut q, mut base) = (0u128, 0u64);
        let deep = self.r.below(3) as usize;
        let exact = self.r.coin();
        let mut best: Option<(u128, u64)> = None;
        for o in m.book(!bid).iter().take(deep + 1) {
            let one = m.t as u128 * o.price as u128 / m.b as u128;
            for n in 1..=o.lots.min(600) {
                let r = one.checked_mul(n as u128)?.checked_add(q)?.checked_mul(m.fee_bps as u128)? % 10000;
                let r = if exact || r != 0 { r } else { 10000 };
                if best.map(|b| r < b.0).unwrap_or(true) {
                    best = Some((r, base.checked_add(n)?));
                }
            }
            q = q.checked_add(one.checked_mul(o.lots as u128)?)?;
            base = base.checked_add(o.lots)?;
        }
        best.map(|b| b.1)
    }
    fn match_limit(&mut self, m: &Mkt, bid: bool) -> Option<u64> {
        if self.r.pm(700) {
            return None;
        }
        let n = m.book(!bid).len().min(if self.deep { 100 } else { 5 }) as u64;
        Some(if self.r.pm(60) { u64::MAX } else { self.r.below(n + 2) })
    }
    /// a trader that has something to cross with, to make self-trades common
    fn taker(&mut self, m: &Mkt, bid: bool) -> usize {
        if self.r.pm(300) {
            let k = m.book(!bid).len().min(4);
            if let Some(o) = self.r.maybe(&m.book(!bid)[..k]) {
                if let Some(a) = self.actor_of(&o.trader) {
                    return a;
                }
            }
        }
        self.any_trader()
    }

    // ------------------------------------------------------------------ operations
    fn op(&mut self, op: usize) -> Option<Vec<Ix>> {
        match op {
            O_LIMIT => self.g_limit(false),
            O_POST => self.g_limit(true),
            O_IOC => self.g_ioc(),
            O_MULTI => self.g_multi(),
            O_CALL | O_CUPTO | O_CMULTI | O_REDUCE => self.g_cancel(op),
            O_WITHDRAW | O_DEPOSIT => self.g_funds(op == O_DEPOSIT),
            O_REQSEAT | O_SEATST | O_EVICT | O_FORCE => self.g_seat(op),
            O_COLLECT | O_FEEREC | O_AUTH | O_STATUS => self.g_admin(op),
            O_INIT => self.g_init(),
            O_LOG => self.g_log(),
            O_CLOCK => {
                self.g_clock();
                None
            }
            O_WALLET => {
                self.g_wallet();
                None
            }
            O_DONATE => self.g_donate(),
            O_PREFUND => self.g_prefund(),
            O_HEAL => {
                self.g_heal(false);
                None
            }
            _ => {
                let s = self.r.next();
                self.step(Step::Sync(s));
                None
            }
        }
    }

    fn encode(&mut self, pk: &Packet) -> Vec<u8> {
        let full = pk.enc();
        let p = self.p.old_wire;
        if self.r.pm(p) {
            // what an older client would have written: the absent trailing fields are all zero bytes
            let lib = if pk.kind == Kind::Ioc { 2 } else { 3 };
            if full[full.len() - lib..].iter().all(|b| *b == 0) {
                return full[..full.len() - lib].to_vec();
            }
            if pk.kind != Kind::Ioc && full[full.len() - 1] == 0 {
                return full[..full.len() - 1].to_vec();
            }
        }
        full
    }

    fn g_limit(&mut self, post: bool) -> Option<Vec<Ix>> {
        let i = self.any_market();
        let m = self.mkt(i)?;
        let bid = self.r.coin();
        let a = self.taker(&m, bid);
        let pff = self.p.ff;
        let ff = self.r.pm(pff);
        let mut pk = Packet::new(if post { Kind::Post } else { Kind::Limit }, bid);
        pk.price = Some(self.price(i, &m, bid));
        pk.base = self.size(&m, bid);
        pk.free = ff;
        pk.reject = self.r.coin();
        pk.stb = self.r.below(3) as u8;
        pk.cid = if self.r.coin() { 0 } else { (self.r.next() as u128) << (self.r.below(2) * 60) };
        if !post {
            pk.match_limit = self.match_limit(&m, bid);
        }
        let mut t = (None, None);
        self.tif(&mut t);
        (pk.lvs, pk.lvt) = t;
        pk.silent = self.r.pm(200);
        // a full side: prices around the worst
        if m.book(bid).len() as u64 >= m.cap(bid) && self.r.pm(700) {
            let w = m.book(bid).last().unwrap().price;
            pk.price = Some(self.r.near(w));
        }
        let pb = self.p.boundary;
        if post && self.r.pm(pb / 2) {
            // exactly at, inside or outside the best live price on the other side
            let (s, ts) = (self.ex.chain.slot, self.ex.chain.ts as u64);
            if let Some(o) = m.book(!bid).iter().find(|o| !o.expired(s, ts)) {
                pk.price = Some(self.r.near(o.price));
            }
        }
        if self.r.pm(pb / 3) {
            // exactly affordable, or just not
            let (fb, fq) = self.free_and_wallet(&m, i, a, ff);
            let s = if bid {
                let per = mul3(pk.price.unwrap_or(1), m.t, 1)? / m.b as u128;
                if per == 0 {
                    0
                } else {
                    (fq as u128 / per) as u64
                }
            } else {
                fb
            };
            if s < 1_000_000 || self.huge || self.rich {
                pk.base = self.r.near(s).max(1);
                pk.silent = self.r.coin();
            }
        }
        if self.r.pm(10) {
            pk.base = self.wrapped(&m, pk.price.unwrap_or(1));
        }
        let tag = if ff { T_LIMIT_FF } else { T_LIMIT };
        self.misfit(&mut pk);
        let data = self.encode(&pk);
        let key = self.actors[a].key;
        let mut ex = vec![self.seat(i, a)];
        if !ff {
            ex.extend(self.vctx(i, a));
        }
        Some(vec![self.ix(tag, &self.ms[i].key, &key, ex, &data)])
    }

    fn g_ioc(&mut self) -> Option<Vec<Ix>> {
        let i = self.any_market();
        let m = self.mkt(i)?;
        let bid = self.r.coin();
        let a = self.taker(&m, bid);
        let pff = self.p.ff;
        let ff = self.r.pm(pff);
        let mut pk = Packet::new(Kind::Ioc, bid);
        pk.price = if self.r.pm(350) { None } else { Some(self.price(i, &m, bid)) };
        pk.free = ff;
        pk.stb = self.r.below(3) as u8;
        pk.cid = self.r.below(5) as u128;
        pk.match_limit = self.match_limit(&m, bid);
        let mut t = (None, None);
        self.tif(&mut t);
        (pk.lvs, pk.lvt) = t;
        let tag = if ff { T_SWAP_FF } else { T_SWAP };
        let key = self.actors[a].key;
        let mut ex = vec![];
        if ff {
            ex.push(self.seat(i, a));
        } else {
            ex.extend(self.vctx(i, a));
        }
        let mk = self.ms[i].key;
        let k = self.reach(&m, bid);
        let top: u64 = m.book(!bid).iter().take(k).map(|o| o.lots).fold(0, |a, b| a.saturating_add(b));
        pk.base = if self.r.pm(400) { self.r.near(top).max(1) } else { self.size(&m, bid) };
        let probe = |w: &World, pk: &Packet| -> Option<(u64, u64)> {
            let ix = w.ix(tag, &mk, &key, ex.clone(), &pk.enc());
            let all = vec![ix.clone()];
            let pre = w.ex.chain.clone();
            let pr = predict(&pre, &ix, &all, &|k| w.ex.mkt_of(&pre, k));
            let l = pr.log?;
            l.events.iter().rev().find_map(|e| match e {
                Ev::Summary { base, quote, .. } => Some((*base, *quote)),
                _ => None,
            })
        };
        if self.r.pm(450) {
            // a quote budget, often exactly what some depth costs
            let cost = if self.r.pm(600) { probe(self, &pk).map(|x| x.1) } else { None };
            let q = match cost {
                Some(c) if c > 0 => self.r.near(c).max(1),
                _ => (self.r.range(1, 40).saturating_mul(m.t) / m.b.max(1)).saturating_mul(self.ms[i].mid.max(1)),
            };
            pk.quote = q.max(1);
            pk.base = 0;
        }
        if self.r.pm(15) {
            pk.quote = self.r.below(3);
            pk.base = self.r.below(3);
        }
        if self.r.pm(10) {
            let n = self.wrapped(&m, pk.price.unwrap_or(1));
            if pk.quote > 0 { pk.quote = n } else { pk.base = n }
        }
        let pmin = self.p.min;
        if self.r.pm(pmin) {
            let got = probe(self, &pk).unwrap_or((self.r.below(20), self.r.below(2000)));
            match self.r.below(4) {
                0 => pk.min_base = self.r.near(got.0),
                1 => pk.min_quote = self.r.near(got.1),
                2 => {
                    pk.min_base = got.0;
                    pk.min_quote = got.1;
                }
                _ => {
                    pk.min_base = self.r.near(got.0);
                    pk.min_quote = self.r.near(got.1);
                }
            }
        }
        let psh = self.p.shaped;
        if self.r.pm(psh) {
            // the shape one of the published constructors gives
            (pk.lvs, pk.lvt) = (None, None);
            (pk.base, pk.quote, pk.min_base, pk.min_quote) = (top.max(1), 0, 0, 0);
            let at = m.book(!bid).iter().take(k).last().map(|o| o.price);
            pk.price = Some(match at {
                Some(p) if self.r.pm(700) => p,
                _ => self.price(i, &m, bid),
            });
            if self.r.coin() {
                pk.match_limit = Some(self.r.near(k as u64));
            }
            match self.r.below(5) {
                0 | 1 => pk.min_base = pk.base,
                2 => {}
                x => {
                    if x == 4 {
                        (pk.price, pk.match_limit, pk.stb, pk.cid) = (None, None, 1, 0);
                    }
                    let got = probe(self, &pk).unwrap_or((1, 1));
                    if bid {
                        (pk.base, pk.quote) = (0, self.r.near(got.1).max(1));
                    }
                    if x == 4 && bid {
                        pk.min_base = self.r.near(got.0);
                    } else if x == 4 {
                        pk.min_quote = self.r.near(got.1);
                    }
                }
            }
        }
        self.misfit(&mut pk);
        let data = self.encode(&pk);
        Some(vec![self.ix(tag, &mk, &key, ex, &data)])
    }
    /// A well-formed packet of a kind the instruction that carries it does not take.
    fn misfit(&mut self, pk: &mut Packet) {
        if !self.r.pm(14) {
            return;
        }
        self.net("misfit_packet");
        if self.r.pm(400) {
            pk.free = !pk.free;
        } else if pk.kind == Kind::Ioc {
            pk.kind = if self.r.coin() { Kind::Limit } else { Kind::Post };
            pk.price = pk.price.or(Some(self.ms[0].mid.max(1)));
            pk.base = pk.base.max(1);
            (pk.quote, pk.min_base, pk.min_quote) = (0, 0, 0);
        } else {
            pk.kind = Kind::Ioc;
        }
    }

    fn g_multi(&mut self) -> Option<Vec<Ix>> {
        let i = self.any_market();
        let m = self.mkt(i)?;
        let a = self.any_trader();
        let pff = self.p.ff;
        let ff = self.r.pm(pff);
        let cross = self.r.pm(120);
        let big = self.r.pm(40);
        let mid = self.ms[i].mid;
        let bb = m.bids.first().map(|o| o.price);
        let ba = m.asks.first().map(|o| o.price);
        let mut p = Multi { bids: vec![], asks: vec![], cid: None, behaviour: self.r.below(4) as u8 };
        if self.r.coin() {
            p.cid = Some(self.r.below(1000) as u128);
            if self.r.pm(200) {
                p.cid = Some((self.r.next() as u128) << 64 | self.r.next() as u128);
            }
        }
        let fix = self.r.pm(300); // around what is affordable
        let (fb, fq) = self.free_and_wallet(&m, i, a, ff);
        let mut center = match (bb, ba) {
            (Some(x), Some(y)) if self.r.coin() => (x / 2 + y / 2).max(1),
            _ => mid,
        };
        if self.r.pm(100) {
            center = center.saturating_add(3);
        }
        for bid in [true, false] {
            let n = if big { self.r.range(5, 30) } else { self.r.below(5) };
            let mut last: Option<Cond> = None;
            for _ in 0..n {
                let d = self.r.range(if cross { 0 } else { 1 }, if big { 20 } else { 6 });
                let mut pr = if bid { center.saturating_sub(d).max(1) } else { center.saturating_add(d) };
                if self.r.pm(100) {
                    let opp = if bid { ba } else { bb };
                    pr = self.r.near(opp.unwrap_or(center));
                }
                let mut c = Cond { price: pr, size: self.r.range(1, 30), lvs: None, lvt: None };
                let mut t = (None, None);
                self.tif(&mut t);
                (c.lvs, c.lvt) = t;
                if let Some(l) = &last {
                    match self.r.below(6) {
                        0 => c = Cond { size: c.size, ..l.clone() },
                        1 => c.price = l.price,
                        2 => {
                            c.price = l.price;
                            c.lvs = l.lvs;
                            c.lvt = l.lvt;
                            if self.r.coin() {
                                c.lvs = Some(self.ex.chain.slot + 5)
                            } else {
                                c.lvt = Some(self.ex.chain.ts as u64 + 5)
                            }
                        }
                        _ => {}
                    }
                }
                if fix {
                    let s = if bid {
                        let per = mul3(c.price, m.t, 1).unwrap_or(1) / m.b.max(1) as u128;
                        (fq as u128 / per.max(1)) as u64
                    } else {
                        fb
                    };
                    if s < 1_000_000 {
                        let part = self.r.range(1, 3);
                        c.size = self.r.near(s / part).max(1);
                    }
                }
                if self.r.pm(15) {
                    c.size = 0;
                }
                if self.rich && self.r.pm(400) {
                    c.size = 1 << self.r.range(1, 40);
                }
                if self.huge && self.r.pm(60) {
                    c.size = self.r.pick(&[u64::MAX, 1 << 62, 1 << 40]);
                }
                if self.r.pm(6) {
                    c.size = self.wrapped(&m, c.price);
                }
                last = Some(c.clone());
                // sizes that together exceed 64 bits by a little
                if self.r.pm(8) && c.size > 0 {
                    let k = self.r.below(10);
                    let d = Cond { size: u64::MAX - (c.size - 1).saturating_sub(k), ..c.clone() };
                    if bid { p.bids.push(d) } else { p.asks.push(d) }
                }
                if bid {
                    p.bids.push(c)
                } else {
                    p.asks.push(c)
                }
            }
            let l = if bid { &mut p.bids } else { &mut p.asks };
            if self.r.coin() {
                if bid {
                    l.sort_by(|a, b| b.price.cmp(&a.price));
                } else {
                    l.sort_by(|a, b| a.price.cmp(&b.price));
                }
            } else if self.r.coin() {
                self.r.shuffle(l);
            }
        }
        let key = self.actors[a].key;
        let mut ex = vec![self.seat(i, a)];
        if !ff {
            ex.extend(self.vctx(i, a));
        }
        Some(vec![self.ix(if ff { T_MULTI_FF } else { T_MULTI }, &self.ms[i].key, &key, ex, &p.enc())])
    }

    fn own(&self, m: &Mkt, key: &Pubkey) -> Vec<(CancelId, u64)> {
        let mut v = vec![];
        for bid in [true, false] {
            for o in m.book(bid) {
                if o.trader == *key {
                    v.push((CancelId { bid, price: o.price, seq: o.seq }, o.lots));
                }
            }
        }
        v
    }
    fn some_id(&mut self, m: &Mkt, key: &Pubkey) -> CancelId {
        let own = self.own(m, key);
        let any = |r: &mut Rng| -> Option<CancelId> {
            let bid = r.coin();
            r.maybe(m.book(bid)).map(|o| CancelId { bid, price: o.price, seq: o.seq })
        };
        let mut c = match self.r.below(20) {
            0 => any(&mut self.r),
            1 | 2 => self.r.maybe(&self.stale.clone()),
            _ => self.r.maybe(&own).map(|x| x.0),
        }
        .or_else(|| any(&mut self.r))
        .unwrap_or(CancelId { bid: true, price: 1, seq: !1 });
        if self.r.pm(40) {
            match self.r.below(4) {
                0 => c.bid = !c.bid,
                1 => c.price = self.r.near(c.price),
                2 => c.seq = !c.seq,
                _ => c.seq = self.r.near(c.seq),
            }
        }
        c
    }
    fn holder(&mut self, m: &Mkt) -> usize {
        if self.r.pm(850) {
            let bid = self.r.coin();
            if let Some(o) = self.r.maybe(m.book(bid)) {
                if let Some(a) = self.actor_of(&o.trader) {
                    return a;
                }
            }
        }
        self.any_trader()
    }
    fn upto(&mut self, m: &Mkt, key: &Pubkey) -> UpTo {
        let own = self.own(m, key);
        let pick = self.r.maybe(&own);
        let bid = pick.as_ref().map(|x| x.0.bid).unwrap_or(self.r.coin());
        let bid = if self.r.pm(50) { !bid } else { bid };
        let tick = match (&pick, self.r.pm(600)) {
            (Some((c, _)), true) => Some(self.r.near(c.price)),
            (None, true) => Some(self.r.below(2000)),
            _ => None,
        };
        let n = m.book(bid).len() as u64;
        let mut search = if self.r.pm(400) { Some(self.r.below(n.min(12) + 2) as u32) } else { None };
        let mut cancel = if self.r.pm(400) { Some(self.r.below(own.len() as u64 + 2) as u32) } else { None };
        // limits beyond any book, at the widths a narrower counter would have
        if self.r.pm(40) {
            let edge = Some(self.r.pick(&[127u32, 128, 255, 256, 257, 65535, 65536, 65537, 1 << 31, u32::MAX]));
            if self.r.coin() {
                search = edge
            } else {
                cancel = edge
            }
        }
        UpTo { bid, tick, search, cancel }
    }
    fn g_cancel(&mut self, op: usize) -> Option<Vec<Ix>> {
        let i = self.any_market();
        let m = self.mkt(i)?;
        let a = self.holder(&m);
        let key = self.actors[a].key;
        let ff = self.r.pm(400);
        let ex = if ff { vec![] } else { self.vctx(i, a) };
        let own = self.own(&m, &key);
        let (tag, data) = match op {
            O_CALL => (T_CALL, vec![]),
            O_CUPTO => (T_CUPTO, self.upto(&m, &key).enc()),
            O_CMULTI => {
                let n = self.r.below(6);
                let mut l = vec![];
                for _ in 0..n {
                    l.push(self.some_id(&m, &key));
                }
                if n > 1 && self.r.pm(100) {
                    l[0] = l[1].clone();
                }
                if self.r.pm(50) {
                    l = own.iter().map(|x| x.0.clone()).collect();
                }
                (T_CMULTI, enc_ids(&l))
            }
            _ => {
                let c = self.some_id(&m, &key);
                let lots = m.book(c.bid).iter().find(|o| o.seq == c.seq).map(|o| o.lots).unwrap_or(5);
                let s = match self.r.below(8) {
                    0 => 0,
                    1 => 1,
                    2 => u64::MAX,
                    3 | 4 => self.r.near(lots),
                    _ => self.r.range(1, lots.max(1)),
                };
                (T_REDUCE, enc_reduce(&c, s))
            }
        };
        Some(vec![self.ix(tag + ff as u8, &self.ms[i].key, &key, ex, &data)])
    }

    fn g_funds(&mut self, dep: bool) -> Option<Vec<Ix>> {
        let i = self.any_market();
        let m = self.mkt(i)?;
        let a = self.any_trader();
        let key = self.actors[a].key;
        if dep {
            let (fb, fq) = self.free_and_wallet(&m, i, a, false);
            let f = |r: &mut Rng, all: u64, huge: bool| match r.below(10) {
                0 => 0,
                1 if all < 1_000_000 || huge => r.near(all),
                2 if huge => r.pick(&[u64::MAX, 1 << 62]),
                _ => r.range(1, 2000),
            };
            let h = self.huge || self.rich;
            let (mut q, mut b) = (f(&mut self.r, fq, h), f(&mut self.r, fb, h));
            if self.r.pm(15) {
                let n = self.wrapped(&m, 1);
                if self.r.coin() { q = n } else { b = n }
            }
            let mut d = q.to_le_bytes().to_vec();
            d.extend_from_slice(&b.to_le_bytes());
            let mut ex = vec![self.seat(i, a)];
            ex.extend(self.vctx(i, a));
            Some(vec![self.ix(T_DEPOSIT, &self.ms[i].key, &key, ex, &d)])
        } else {
            let t = m.traders.get(&key).cloned().unwrap_or_default();
            let f = |r: &mut Rng, free: u64| match r.below(6) {
                0 => None,
                1 => Some(0),
                2 => Some(u64::MAX),
                3 => Some(r.near(free)),
                _ => Some(r.below(free.saturating_add(2).max(1))),
            };
            let mut d = vec![];
            eo64(&mut d, f(&mut self.r, t.qf));
            eo64(&mut d, f(&mut self.r, t.bf));
            let ex = self.vctx(i, a);
            Some(vec![self.ix(T_WITHDRAW, &self.ms[i].key, &key, ex, &d)])
        }
    }

    fn g_seat(&mut self, op: usize) -> Option<Vec<Ix>> {
        let i = self.any_market();
        let m = self.mkt(i)?;
        let mk = self.ms[i].key;
        let n = self.actors.len() as u64;
        let a = if self.r.pm(500) { self.r.below(n) as usize } else { self.any_trader() };
        let t = self.actors[a].key;
        let auth = self.auth(&m);
        let seat = seat_addr(&mk, &t);
        Some(vec![match op {
            O_REQSEAT => {
                if self.r.pm(600) {
                    self.ix(T_REQSEAT, &mk, &t, vec![wr(seat), ro(system_program::id())], &[])
                } else {
                    let p = self.r.below(n) as usize;
                    let payer = if self.r.coin() { auth } else { self.actors[p].key };
                    self.ix(T_REQSEAT_AUTH, &mk, &auth, vec![sg(payer), ro(t), wr(seat), ro(system_program::id())], &[])
                }
            }
            O_SEATST => {
                let s = self.r.pick(&[0u8, 1, 1, 1, 2]);
                let s = if s == 2 && !self.r.pm(400) { 0 } else { s };
                self.ix(T_SEATSTATUS, &mk, &auth, vec![wr(seat)], &[s])
            }
            O_EVICT | _ => {
                let mut v = vec![];
                // often revoke first
                if self.r.pm(400) && m.traders.contains_key(&t) {
                    v.push(self.ix(T_SEATSTATUS, &mk, &m.hdr.authority, vec![wr(seat)], &[0]));
                }
                let mut ex = vec![ro(t), ro(seat)];
                ex.extend(self.vctx(i, a));
                if op == O_EVICT {
                    if self.r.pm(300) {
                        let mut e2 = vec![ro(t), ro(seat)];
                        e2.extend(self.vctx(i, a));
                        for bid in [true, false] {
                            let u = UpTo { bid, tick: None, search: None, cancel: None };
                            v.push(self.ix(T_FORCE, &mk, &m.hdr.authority, e2.clone(), &u.enc()));
                        }
                    }
                    v.push(self.ix(T_EVICT, &mk, &auth, ex, &[]));
                } else {
                    let u = self.upto(&m, &t);
                    v.push(self.ix(T_FORCE, &mk, &auth, ex, &u.enc()));
                }
                return Some(v);
            }
        }])
    }

    fn g_admin(&mut self, op: usize) -> Option<Vec<Ix>> {
        let i = self.any_market();
        let m = self.mkt(i)?;
        let mk = self.ms[i].key;
        let auth = self.auth(&m);
        let n = self.actors.len() as u64;
        Some(vec![match op {
            O_COLLECT => {
                let rec = self.actor_of(&m.hdr.fee_recipient).unwrap_or(3);
                let who = if self.r.pm(850) { rec } else { self.r.below(n) as usize };
                let sw = self.r.below(n) as usize;
                let s = if self.r.coin() { self.actors[who].key } else { self.actors[sw].key };
                let (q, qv) = (self.ms[i].qm, self.ms[i].qv);
                let w = self.wallet(who, q);
                self.ix(T_COLLECT, &mk, &s, vec![wr(w), wr(qv), ro(spl_token::id())], &[])
            }
            O_FEEREC => {
                let new = self.actors[match self.r.below(20) {
                    0..=15 => self.r.range(3, 4),
                    16 | 17 => self.r.below(3),
                    _ => self.r.below(n),
                } as usize]
                .key;
                let mut ex = vec![ro(new)];
                match self.r.below(5) {
                    0 => {}
                    1 => {
                        let k = self.r.below(n) as usize;
                        ex.push(Meta { key: self.actors[k].key, signer: true, writable: false });
                    }
                    2 => ex.push(ro(m.hdr.fee_recipient)),
                    _ => ex.push(Meta { key: m.hdr.fee_recipient, signer: true, writable: false }),
                }
                self.ix(T_FEEREC, &mk, &auth, ex, &[])
            }
            O_AUTH => {
                if self.r.coin() {
                    let lim = if self.r.pm(700) { 3 } else { n.min(8) };
                    let k = self.r.below(lim) as usize;
                    let s = self.actors[k].key;
                    self.ix(T_NAME, &mk, &auth, vec![], s.as_ref())
                } else {
                    let s = if self.r.pm(700) { m.hdr.successor } else { auth };
                    let s = if self.r.pm(150) { { let z = self.r.below(n) as usize; self.actors[z].key } } else { s };
                    self.ix(T_CLAIM, &mk, &s, vec![], &[])
                }
            }
            _ => {
                let st = m.hdr.status;
                let ws = self.p.wrong_status;
                let s = if self.r.pm(ws) {
                    self.r.below(6) as u8
                } else {
                    match st {
                        1 => self.r.pick(&[2u8, 3, 1]),
                        2 => self.r.pick(&[1u8, 1, 1, 3, 4]),
                        3 => self.r.pick(&[1u8, 2, 2, 4]),
                        4 => self.r.pick(&[2u8, 3, 5]),
                        _ => 1,
                    }
                };
                let mut ex = vec![];
                if self.r.coin() {
                    let k = self.r.below(n) as usize;
                    ex.push(wr(self.actors[k].key));
                }
                self.ix(T_STATUS, &mk, &auth, ex, &[s])
            }
        }])
    }

    fn g_init(&mut self) -> Option<Vec<Ix>> {
        let n = self.mints.len() as u64;
        let who = self.r.below(self.actors.len() as u64) as usize;
        let s = self.actors[who].key;
        let (bm, mut qm) = (self.r.below(n) as usize, self.r.below(n) as usize);
        if bm == qm && self.r.pm(900) {
            qm = (bm + 1) % n as usize;
        }
        let sizes = if self.r.pm(850) {
            CONFIGS[0]
        } else {
            let c = self.r.pick(&CONFIGS);
            if self.r.coin() {
                c
            } else {
                (c.0, c.1, self.r.near(c.2))
            }
        };
        let mut p = self.params(bm, qm, sizes);
        let k = self.r.below(9) as usize;
        p.recipient = self.actors[k.min(self.actors.len() - 1)].key;
        if self.r.pm(500) {
            match self.r.below(9) {
                0 => p.tick = 0,
                1 => p.tick = self.r.near(p.tick),
                2 => p.num_base_lots = self.r.pick(&[0, 3, 7, 1 << 40, p.num_base_lots * 3]),
                3 => p.num_quote_lots = self.r.pick(&[0, 3, 7, 1 << 40, p.num_quote_lots * 3]),
                4 => p.fee_bps = self.r.pick(&[10001, 10000, 65535, 9999]),
                5 => p.raw = self.r.pick(&[Some(0), Some(u32::MAX), Some(3), Some(19), Some(1844), Some(1 << 31)]),
                6 => p.tick = self.r.pick(&[u64::MAX, 1 << 60, p.num_base_lots * 1000]),
                7 => std::mem::swap(&mut p.tick, &mut p.num_base_lots),
                _ => p.sizes = (self.r.pick(&[0, 512, 1024]), 512, 128),
            }
        }
        let sp = self.spares.clone();
        let mk = match self.r.below(10) {
            0 | 1 | 2 => {
                // an existing or a retired market
                let k = self.r.below(self.ms.len() as u64) as usize;
                let key = self.ms[k].key;
                if self.ex.chain.accts.get(&key).is_none() {
                    let l = self.ms[k].len;
                    self.put_zero(key, l);
                }
                let b2 = if self.r.coin() { self.ms[k].bm } else { bm };
                return Some(vec![self.init_ix(&key, &s, b2, qm, &p)]);
            }
            3 => {
                // a fresh address
                let key = hkey(8, self.r.below(4), 0, 0);
                if self.ex.chain.accts.get(&key).is_none() {
                    let l = market_len(CONFIGS[0]);
                    self.put_zero(key, l);
                }
                key
            }
            _ => self.r.pick(&sp).0,
        };
        Some(vec![self.init_ix(&mk, &s, bm, qm, &p)])
    }

    fn g_log(&mut self) -> Option<Vec<Ix>> {
        // an outsider imitates the program's log
        let i = self.any_market();
        let a = self.actors[5].key;
        let mut d = vec![T_LOG, 1, T_LIMIT];
        d.extend_from_slice(&7u64.to_le_bytes());
        d.extend_from_slice(&[0; 16]);
        d.extend_from_slice(self.ms[i].key.as_ref());
        d.extend_from_slice(a.as_ref());
        d.extend_from_slice(&0u16.to_le_bytes());
        let metas = match self.r.below(4) {
            0 => vec![ro(log_authority())],
            1 => vec![sg(a)],
            2 => vec![sg(a), ro(log_authority())],
            _ => vec![ro(phoenix_id()), ro(log_authority()), wr(self.ms[i].key), sg(a)],
        };
        Some(vec![Ix { program: phoenix_id(), metas, data: d }])
    }

    fn g_clock(&mut self) {
        let (s, t) = (self.ex.chain.slot, self.ex.chain.ts);
        let i = self.any_market();
        let m = self.mkt(i);
        let back = self.p.back;
        if self.r.pm(back) {
            self.net("clock_back");
            let d = self.r.range(1, 5) as i64;
            self.step(Step::Clock(s, (t - d).max(1)));
            return;
        }
        if self.r.pm(350) {
            if let Some(m) = &m {
                let bid = self.r.coin();
                let v: Vec<Order> = m.book(bid).iter().filter(|o| o.lvs != 0 || o.lvt != 0).cloned().collect();
                if let Some(o) = self.r.maybe(&v) {
                    let e = self.r.below(2);
                    let (mut ns, mut nt) = (s + 1, t);
                    if o.lvs != 0 && o.lvs < s + 1000 {
                        ns = (o.lvs + e).max(s);
                    }
                    if o.lvt != 0 && (o.lvt as i64) < t + 1000 && o.lvt < 1 << 40 {
                        nt = (o.lvt as i64 + self.r.below(2) as i64).max(t);
                    }
                    self.net("clock_to_deadline");
                    self.step(Step::Clock(ns, nt));
                    return;
                }
            }
        }
        let (ds, dt) = match self.r.below(12) {
            0 => (self.r.range(10, 2000), self.r.range(10, 2000)),
            1 => (self.r.range(1, 40), 0),
            2 => (0, self.r.range(1, 5)),
            _ => (self.r.range(1, 3), self.r.below(3)),
        };
        if ds > 9 || dt > 9 {
            self.net("clock_jump");
        }
        self.step(Step::Clock(s + ds, t + dt as i64));
    }

    fn g_wallet(&mut self) {
        let a = self.any_trader();
        let mint = self.r.below(self.mints.len() as u64) as usize;
        let w = self.actors[a].wallets[mint][0];
        let key = self.actors[a].key;
        let cur = self.ex.tok(&w);
        let amt = cur.map(|t| t.amount).unwrap_or(0);
        match self.r.below(5) {
            0 => {
                self.net("wallet_frozen");
                self.put_tok(w, mint, key, amt, 2)
            }
            1 => {
                self.net("wallet_drained");
                let left = self.r.pick(&[0u64, 1, amt / 2]);
                self.put_tok(w, mint, key, left.min(amt), 1)
            }
            2 => {
                self.net("wallet_closed");
                self.step(Step::Put(w, Acct::empty()))
            }
            3 => {
                self.net("wallet_reassigned");
                let o = self.actors[5].key;
                self.put_tok(w, mint, o, amt, 1)
            }
            _ => {
                self.net("lamports_drained");
                self.step(Step::Put(
                    key,
                    Acct { lamports: 1000, owner: system_program::id(), data: Rc::new(vec![]), executable: false },
                ))
            }
        }
    }
    fn g_heal(&mut self, all: bool) {
        let n = self.actors.len();
        for a in 0..n {
            if !all && self.r.below(3) == 0 {
                continue;
            }
            let key = self.actors[a].key;
            for mint in 0..self.mints.len() {
                let ws = self.actors[a].wallets[mint].clone();
                for (x, w) in ws.iter().enumerate() {
                    let cur = self.ex.tok(w);
                    let bad = match &cur {
                        None => all || x == 0,
                        Some(t) => t.state != 1 || t.owner != key,
                    };
                    if bad {
                        let amt = cur.map(|t| t.amount).unwrap_or(self.actors[a].home[mint][x] / 2);
                        self.put_tok(*w, mint, key, amt, 1);
                    }
                }
            }
            if self.ex.chain.get(&key).lamports < 1_000_000_000 {
                self.step(Step::Put(
                    key,
                    Acct { lamports: 1_000_000_000_000, owner: system_program::id(), data: Rc::new(vec![]), executable: false },
                ));
            }
        }
    }
    fn g_donate(&mut self) -> Option<Vec<Ix>> {
        let i = self.any_market();
        let a = self.any_trader();
        let q = self.r.coin();
        let (mint, v) = if q { (self.ms[i].qm, self.ms[i].qv) } else { (self.ms[i].bm, self.ms[i].bv) };
        let src = self.actors[a].wallets[mint][0];
        let mut d = vec![3u8];
        d.extend_from_slice(&self.r.range(1, 50).to_le_bytes());
        self.net("donations");
        Some(vec![Ix { program: spl_token::id(), metas: vec![wr(src), wr(v), sg(self.actors[a].key)], data: d }])
    }
    fn g_prefund(&mut self) -> Option<Vec<Ix>> {
        let a = self.any_trader();
        let i = self.any_market();
        let n = self.actors.len() as u64;
        let t = self.r.below(n) as usize;
        let dst = match self.r.below(3) {
            0 => {
                let k = self.r.pick(&self.spares.clone()).0;
                let mint = self.r.below(self.mints.len() as u64) as usize;
                vault_addr(&k, &self.mints[mint].0)
            }
            _ => seat_addr(&self.ms[i].key, &self.actors[t].key),
        };
        let min = self.r.pick(&[rent(128), rent(165)]);
        let little = self.r.range(1, 2000);
        let any = self.r.range(1, min);
        let amt = self.r.pick(&[1u64, 890_880, min - 1, min, min - little, min + little, any, 100_000_000]);
        let mut d = 2u32.to_le_bytes().to_vec();
        d.extend_from_slice(&amt.to_le_bytes());
        self.net("prefunded_addresses");
        let mut v = vec![Ix { program: system_program::id(), metas: vec![sg(self.actors[a].key), wr(dst)], data: d }];
        let (mk, tk) = (self.ms[i].key, self.actors[t].key);
        if dst == seat_addr(&mk, &tk) && self.r.coin() {
            v.push(self.ix(T_REQSEAT, &mk, &tk, vec![wr(dst), ro(system_program::id())], &[]));
        }
        Some(v)
    }

    // ------------------------------------------------------------------ hostility
    fn substitute(&mut self, ix: &mut Ix) {
        if ix.metas.is_empty() {
            return;
        }
        self.net("substituted_account");
        let n = ix.metas.len() as u64;
        let j = self.r.below(n) as usize;
        let k = ix.metas[j].key;
        let i = self.any_market();
        let o = self.r.below(self.ms.len() as u64) as usize;
        let bad = 5usize;
        let ms = self.ms.clone();
        let act = self.actors.clone();
        let na = act.len() as u64;
        let mint = self.r.below(self.mints.len() as u64) as usize;
        let any = self.r.below(na.min(14)) as usize;
        let mut c: Vec<Pubkey> = vec![];
        let is_wallet = self.ex.tok(&k);
        if ms.iter().any(|m| m.key == k) {
            c.extend(ms.iter().map(|m| m.key));
            c.push(self.fakes[0]);
            c.extend(self.spares.iter().map(|x| x.0));
            c.push(act[bad].key);
        } else if ms.iter().any(|m| m.bv == k || m.qv == k) {
            for m in &ms {
                c.push(m.bv);
                c.push(m.qv);
            }
            c.push(self.fakes[2]);
            c.push(act[bad].wallets[mint][0]);
            c.push(act[any].wallets[mint][0]);
        } else if let Some(t) = &is_wallet {
            if let Some(mi) = self.mints.iter().position(|x| x.0 == t.mint) {
                c.push(act[bad].wallets[mi][0]);
                c.push(act[any].wallets[mi][0]);
                let t2 = self.r.below(na.min(14)) as usize;
                c.push(act[t2].wallets[mi][0]);
            }
            if let Some(a) = act.iter().find(|a| a.key == t.owner) {
                c.push(a.wallets[mint][0]);
            }
            c.push(ms[i].bv);
            c.push(ms[i].qv);
            c.push(self.fakes[2]);
            c.push(act[bad].key);
            // wallets of others that the signer may spend from
            if ix.metas.len() > 3 && self.r.coin() {
                let by = ix.metas[3].key;
                let d: Vec<Pubkey> = act
                    .iter()
                    .flat_map(|a| a.wallets.iter().flatten())
                    .filter(|w| {
                        let x = self.ex.chain.get(w);
                        x.owner == spl_token::id()
                            && x.data.len() == 165
                            && x.data[0..32] == *t.mint.as_ref()
                            && (x.data[76..108] == *by.as_ref() || x.data[133..165] == *by.as_ref())
                            && x.data[32..64] != *by.as_ref()
                    })
                    .copied()
                    .collect();
                if !d.is_empty() {
                    self.net("delegated_wallet_substituted");
                    c = d;
                }
            }
        } else if parse_seat(&self.ex.chain.get(&k).owner, &self.ex.chain.get(&k).data).is_some() {
            let t2 = self.r.below(na.min(14)) as usize;
            c.push(seat_addr(&ms[o].key, &act[any].key));
            c.push(seat_addr(&ms[i].key, &act[t2].key));
            if let Some(s) = parse_seat(&self.ex.chain.get(&k).owner, &self.ex.chain.get(&k).data) {
                c.push(seat_addr(&ms[o].key, &s.trader));
            }
            c.push(self.fakes[1]);
            c.push(act[any].key);
        } else if act.iter().any(|a| a.key == k) {
            let t2 = self.r.below(na.min(14)) as usize;
            c.push(act[bad].key);
            c.push(act[any].key);
            c.push(act[t2].key);
            c.push(ms[i].key);
        } else {
            c.push(evil_program());
            c.push(spl_token::id());
            c.push(system_program::id());
            c.push(phoenix_id());
            c.push(log_authority());
            c.extend(self.mints.iter().map(|x| x.0));
            c.push(act[any].key);
            c.push(hkey(9, self.r.below(5), 0, 0));
        }
        if self.r.pm(120) {
            c = vec![
                evil_program(),
                spl_token::id(),
                system_program::id(),
                log_authority(),
                hkey(9, 1, 0, 0),
                ms[o].key,
                ms[o].qv,
                act[any].key,
                act[any].wallets[mint][0],
                seat_addr(&ms[o].key, &act[any].key),
            ];
        }
        // the same bytes under somebody else's program
        let a = self.ex.chain.get(&k);
        if !a.data.is_empty() && self.r.pm(250) {
            let f = hkey(5, self.r.range(10, 15), 0, 0);
            let mut d = (*a.data).clone();
            if is_wallet.is_some() && self.r.coin() {
                let rich = self.r.pick(&[0u64, 1, 1_000_000_000, u64::MAX]);
                d[64..72].copy_from_slice(&rich.to_le_bytes());
            }
            self.net("forged_account");
            self.step(Step::Put(f, Acct { lamports: rent(d.len()), owner: evil_program(), data: Rc::new(d), executable: false }));
            c = vec![f];
        }
        // a key of the attacker's own, which signs, in place of an address the program is to create
        if a.data.is_empty() && ix.metas[j].writable && j > 3 && self.r.pm(400) {
            self.net("signing_substitute");
            ix.metas[j].key = hkey(9, 100 + self.r.below(4), 0, 0);
            ix.metas[j].signer = true;
            return;
        }
        c.retain(|x| *x != k);
        if let Some(x) = self.r.maybe(&c) {
            ix.metas[j].key = x;
            // nobody can sign for somebody else's program-derived address
            let can_sign = act.iter().any(|a| a.key == x);
            if !can_sign {
                ix.metas[j].signer = false;
            } else if j == 3 && self.r.coin() {
                // impersonation without the victim's signature
                ix.metas[j].signer = false;
            }
        }
        if self.r.pm(60) {
            ix.metas.truncate(j);
        }
    }
    fn corrupt(&mut self, ix: &mut Ix) {
        if ix.data.is_empty() || ix.program != phoenix_id() {
            return;
        }
        self.net("corrupted_payload");
        let n = ix.data.len();
        match self.r.below(8) {
            0 => {
                let k = self.r.below(n as u64) as usize;
                ix.data.truncate(k);
            }
            1 | 2 => {
                let k = self.r.range(1, 4).min(n as u64 - 1) as usize;
                ix.data.truncate(n - k);
            }
            3 => {
                let k = self.r.range(1, 9);
                for _ in 0..k {
                    let b = self.r.pick(&[0u8, 0, 1, 255]);
                    ix.data.push(b);
                }
            }
            4 => ix.data[0] = self.r.pick(&ALL_TAGS),
            5 => ix.data[0] = self.r.below(256) as u8,
            6 if n > 1 => {
                let k = self.r.range(1, n as u64 - 1) as usize;
                ix.data[k] = self.r.pick(&[0u8, 1, 2, 3, 4, 255]);
            }
            _ if n > 1 => {
                let k = self.r.range(1, n as u64 - 1) as usize;
                ix.data[k] ^= 1 << self.r.below(8);
            }
            _ => {}
        }
    }

    // ------------------------------------------------------------------ capacity
    /// A registry at, or just short of, its capacity.
    fn crowd(&mut self) {
        if let Some(m) = self.mkt(0) {
            let room = (m.hdr.sizes.2 as usize).saturating_sub(m.traders.len()) as u64;
            let short = self.r.pick(&[0u64, 0, 1, 1, 2, 3, 60]);
            let salt = self.r.below(1000);
            let key = self.ms[0].key;
            self.step(Step::Crowd(key, room.saturating_sub(short), salt));
            self.p.winddown = 0;
            // newcomers ask for the places left, and one more
            for t in self.first_trader..self.actors.len() {
                let k = self.actors[t].key;
                if self.done() {
                    return;
                }
                if m.traders.contains_key(&k) || !self.r.pm(700) {
                    continue;
                }
                let seat = wr(seat_addr(&key, &k));
                let req = self.ix(T_REQSEAT, &key, &k, vec![seat.clone(), ro(system_program::id())], &[]);
                let ap = self.ix(T_SEATSTATUS, &key, &m.hdr.authority, vec![seat], &[1]);
                self.run_tx(vec![req]);
                self.run_tx(vec![ap]);
            }
        }
    }
    /// Many orders of several traders around the middle of the first market, some with a common deadline.
    fn deepen(&mut self, dated: bool) {
        let i = 0;
        self.net("deep_book");
        let mid = self.ms[i].mid;
        let span = self.r.pick(&[2u64, 5, 12, 40]);
        let (s, t) = (self.ex.chain.slot, self.ex.chain.ts.max(0) as u64);
        let nb = self.r.range(1, 6);
        for _ in 0..nb {
            let m = match self.mkt(i) {
                Some(m) => m,
                None => return,
            };
            let bid = self.r.coin();
            let a = self.any_trader();
            let mut p = Multi { bids: vec![], asks: vec![], cid: None, behaviour: self.r.pick(&[0u8, 2, 2, 3]) };
            let n = self.r.range(4, 40);
            let (mut lvs, mut lvt) = (None, None);
            if dated || self.r.pm(400) {
                if self.r.coin() {
                    lvs = Some(s + self.r.below(4));
                } else {
                    lvt = Some(t + self.r.below(3));
                }
            }
            let ba = if bid { m.asks.first() } else { m.bids.first() }.map(|o| o.price);
            for _ in 0..n {
                let d = self.r.range(1, span);
                let mut price = if bid { mid.saturating_sub(d).max(1) } else { mid.saturating_add(d) };
                match ba {
                    Some(x) if bid => price = price.min(x.saturating_sub(1).max(1)),
                    Some(x) => price = price.max(x.saturating_add(1)),
                    None => {}
                }
                let size = if self.rich { 1 << self.r.range(0, 30) } else { self.r.range(1, 6) };
                let c = Cond { price, size, lvs, lvt };
                if bid {
                    p.bids.push(c)
                } else {
                    p.asks.push(c)
                }
            }
            let key = self.actors[a].key;
            let mut ex = vec![self.seat(i, a)];
            ex.extend(self.vctx(i, a));
            let ix = self.ix(T_MULTI, &self.ms[i].key, &key, ex, &p.enc());
            self.run_tx(vec![ix]);
            if self.done() {
                return;
            }
        }
    }
    /// Many orders at the front of one side run out at once; then somebody's order meets them.
    fn wither(&mut self) {
        let i = 0;
        if self.done() {
            return;
        }
        self.net("front_of_book_expires");
        let dated = |o: &&Order| o.lvs != 0 || o.lvt != 0;
        let front = |m: &Mkt, bid: bool| m.book(bid).iter().take_while(dated).count();
        let mut m = match self.mkt(i) {
            Some(m) => m,
            None => return,
        };
        if front(&m, true).max(front(&m, false)) < 10 {
            self.deepen(true);
            if self.done() {
                return;
            }
            m = match self.mkt(i) {
                Some(m) => m,
                None => return,
            };
        }
        let bid = front(&m, true) > front(&m, false);
        let n = front(&m, bid);
        if n == 0 {
            return;
        }
        let k = if self.r.coin() { n } else { self.r.range(1, n as u64) as usize };
        let (s, t) = (self.ex.chain.slot, self.ex.chain.ts);
        let (mut ns, mut nt) = (s, t);
        for o in &m.book(bid)[..k] {
            if o.lvs != 0 && o.lvs < s + 1000 {
                ns = ns.max(o.lvs + 1);
            } else if o.lvt != 0 && o.lvt < t.max(0) as u64 + 1000 {
                nt = nt.max(o.lvt as i64 + 1);
            }
        }
        self.step(Step::Clock(ns, nt));
        let (ns, nt) = (ns, nt.max(0) as u64);
        let b = m.book(bid);
        let dead = b.iter().take_while(|o| o.expired(ns, nt)).count();
        let mut at: Vec<u64> = vec![b[0].price, b[(dead.max(1) - 1).min(b.len() - 1)].price];
        if let Some(o) = b.iter().find(|o| !o.expired(ns, nt)) {
            at.extend([o.price, o.price]);
        }
        let times = self.r.range(1, 2);
        for _ in 0..times {
            let x = self.r.pick(&at);
            let x = match self.r.below(4) {
                0 => x,
                1 => self.r.near(x),
                // through everything
                _ if bid => (x / 2).max(1),
                _ => x.saturating_mul(2),
            };
            let a = self.taker(&m, !bid);
            let key = self.actors[a].key;
            let mut ex = vec![self.seat(i, a)];
            ex.extend(self.vctx(i, a));
            let mk = self.ms[i].key;
            let size = if self.r.coin() { self.r.range(1, 6) } else { self.size(&m, !bid) };
            let ix = match self.r.below(10) {
                0 | 1 => {
                    let mut p = Multi { bids: vec![], asks: vec![], cid: None, behaviour: self.r.below(4) as u8 };
                    let n = self.r.range(1, 3);
                    for j in 0..n {
                        let c = Cond { price: if bid { x.saturating_add(j) } else { x.saturating_sub(j).max(1) }, size: self.r.range(1, 6), lvs: None, lvt: None };
                        if bid {
                            p.asks.push(c)
                        } else {
                            p.bids.push(c)
                        }
                    }
                    self.ix(T_MULTI, &mk, &key, ex, &p.enc())
                }
                2 => {
                    let mut pk = Packet::new(Kind::Ioc, !bid);
                    pk.price = Some(x);
                    pk.base = size.max(1);
                    pk.match_limit = self.match_limit(&m, !bid);
                    let data = self.encode(&pk);
                    let ex = self.vctx(i, a);
                    self.ix(T_SWAP, &mk, &key, ex, &data)
                }
                c => {
                    let mut pk = Packet::new(if c < 5 { Kind::Limit } else { Kind::Post }, !bid);
                    pk.price = Some(x);
                    pk.base = size.max(1);
                    pk.reject = self.r.coin();
                    if c < 5 {
                        pk.match_limit = self.match_limit(&m, !bid);
                    }
                    let data = self.encode(&pk);
                    self.ix(T_LIMIT, &mk, &key, ex, &data)
                }
            };
            self.run_tx(vec![ix]);
            if self.done() {
                return;
            }
        }
    }
    fn fill_book(&mut self) {
        let i = 0;
        let sides = self.r.pick(&[vec![true], vec![false], vec![true, false]]);
        for bid in sides {
            let cap = match self.mkt(i) {
                Some(m) => m.cap(bid) as usize,
                None => return,
            };
            let goal = cap - self.r.pick(&[0usize, 0, 1, 2]);
            let span = self.r.pick(&[40u64, 200, 600]);
            self.ms[i].mid = self.ms[i].mid.max(1000);
            let mid = self.ms[i].mid;
            for _ in 0..60 {
                let m = match self.mkt(i) {
                    Some(m) => m,
                    None => return,
                };
                let have = m.book(bid).len();
                if have >= goal || self.done() {
                    break;
                }
                let a = self.any_trader();
                let ff = false;
                let mut p = Multi { bids: vec![], asks: vec![], cid: None, behaviour: self.r.pick(&[0u8, 0, 2]) };
                let want = (goal - have).min(60.max(cap / 16));
                let tif = self.r.coin();
                for x in 0..want {
                    let d = self.r.range(1, span);
                    let mut c =
                        Cond { price: if bid { mid - d.min(mid - 1) } else { mid.saturating_add(d) }, size: self.r.range(1, 6), lvs: None, lvt: None };
                    if tif && x % 3 == 0 {
                        let mut t = (None, None);
                        self.tif(&mut t);
                        (c.lvs, c.lvt) = t;
                    }
                    if bid {
                        p.bids.push(c)
                    } else {
                        p.asks.push(c)
                    }
                }
                let key = self.actors[a].key;
                let mut ex = vec![self.seat(i, a)];
                ex.extend(self.vctx(i, a));
                let ix = self.ix(if ff { T_MULTI_FF } else { T_MULTI }, &self.ms[i].key, &key, ex, &p.enc());
                self.run_tx(vec![ix]);
            }
        }
    }

    // ------------------------------------------------------------------ bounded liveness
    fn wind_down(&mut self) {
        self.know_markets();
        self.g_heal(true);
        let s = self.ex.chain.slot;
        let t = self.ex.chain.ts;
        let ds = self.r.pick(&[0u64, 1, 5000]);
        self.step(Step::Clock(s + ds, t + ds as i64));
        for i in 0..self.ms.len() {
            if self.done() {
                return;
            }
            let mk = self.ms[i].key;
            let m = match self.mkt(i) {
                None => continue,
                Some(m) => m,
            };
            if !status_reduce(m.hdr.status) {
                continue;
            }
            // everybody leaves by their own means
            let leave = self.r.pm(600);
            let ts: Vec<Pubkey> = m.traders.keys().copied().collect();
            if leave {
                for k in &ts {
                    let a = match self.actor_of(k) {
                        Some(a) => a,
                        None => continue,
                    };
                    let m = match self.mkt(i) {
                        None => return,
                        Some(m) => m,
                    };
                    let own = self.own(&m, k);
                    let way = self.r.below(4);
                    if !own.is_empty() {
                        match way {
                            0 | 1 => {
                                let ex = self.vctx(i, a);
                                let ix = self.ix(T_CALL, &mk, k, ex, &[]);
                                self.must_tx(vec![ix]);
                            }
                            2 => {
                                for bid in [true, false] {
                                    let u = UpTo { bid, tick: None, search: None, cancel: None };
                                    let ex = self.vctx(i, a);
                                    let ix = self.ix(T_CUPTO, &mk, k, ex, &u.enc());
                                    self.must_tx(vec![ix]);
                                }
                            }
                            _ => {
                                let ids: Vec<CancelId> = own.iter().map(|x| x.0.clone()).collect();
                                let ix = self.ix(T_CMULTI_FF, &mk, k, vec![], &enc_ids(&ids));
                                self.must_tx(vec![ix]);
                            }
                        }
                    }
                    let mut d = vec![];
                    eo64(&mut d, None);
                    eo64(&mut d, None);
                    let ex = self.vctx(i, a);
                    let ix = self.ix(T_WITHDRAW, &mk, k, ex, &d);
                    self.must_tx(vec![ix]);
                    if self.done() {
                        return;
                    }
                    self.step(Step::Empty(mk, *k));
                }
            }
            // then the authority closes the market
            let auth = m.hdr.authority;
            let path: Vec<u8> = match m.hdr.status {
                1 => vec![3, 4],
                2 => vec![4],
                3 => vec![4],
                _ => vec![],
            };
            for st in path {
                let ix = self.ix(T_STATUS, &mk, &auth, vec![], &[st]);
                self.must_tx(vec![ix]);
            }
            for k in &ts {
                if self.r.pm(60) {
                    let ix = self.ix(T_STATUS, &mk, &auth, vec![], &[5]);
                    self.run_tx(vec![ix]);
                    if self.done() || self.mkt(i).is_none() {
                        return;
                    }
                }
                let a = match self.actor_of(k) {
                    Some(a) => a,
                    None => continue,
                };
                let seat = seat_addr(&mk, k);
                let sa = self.ex.chain.get(&seat);
                if parse_seat(&sa.owner, &sa.data).map(|s| s.status == 1).unwrap_or(false) {
                    let to = self.r.pick(&[0u8, 2]);
                    let ix = self.ix(T_SEATSTATUS, &mk, &auth, vec![wr(seat)], &[to]);
                    self.must_tx(vec![ix]);
                }
                let mut ex = vec![ro(*k), ro(seat)];
                ex.extend(self.vctx(i, a));
                let m = match self.mkt(i) {
                    None => return,
                    Some(m) => m,
                };
                if !self.own(&m, k).is_empty() {
                    for bid in [true, false] {
                        let u = UpTo { bid, tick: None, search: None, cancel: None };
                        let ix = self.ix(T_FORCE, &mk, &auth, ex.clone(), &u.enc());
                        self.must_tx(vec![ix]);
                    }
                }
                let ix = self.ix(T_EVICT, &mk, &auth, ex, &[]);
                self.must_tx(vec![ix]);
                if self.done() {
                    return;
                }
            }
            let m = match self.mkt(i) {
                None => return,
                Some(m) => m,
            };
            // the authority may be in a hurry: fees are still due
            if self.r.coin() {
                let mut v = vec![self.ix(T_STATUS, &mk, &auth, vec![], &[5])];
                self.afterlife(&mk, &auth, &mut v);
                self.run_tx(v);
                if self.mkt(i).is_none() {
                    self.step(Step::Gone(mk));
                    continue;
                }
            }
            if let Some(f) = self.actor_of(&m.hdr.fee_recipient) {
                let (q, qv) = (self.ms[i].qm, self.ms[i].qv);
                let w = self.wallet(f, q);
                let ix = self.ix(T_COLLECT, &mk, &auth, vec![wr(w), wr(qv), ro(spl_token::id())], &[]);
                self.must_tx(vec![ix]);
                let mut v = vec![self.ix(T_STATUS, &mk, &auth, vec![], &[5])];
                if self.r.coin() {
                    let keep = v.clone();
                    self.afterlife(&mk, &auth, &mut v);
                    self.run_tx(v);
                    v = keep;
                }
                if self.mkt(i).is_some() {
                    self.must_tx(v);
                }
                self.step(Step::Gone(mk));
            }
        }
        // late traffic on retired markets
        for _ in 0..4 {
            if self.done() {
                return;
            }
            if let Some(tx) = self.r.maybe(&self.recent.clone()) {
                self.net("after_tombstone");
                self.step(Step::Tx(tx));
            }
            let saved = self.w[O_INIT];
            if saved > 0 && self.r.coin() {
                if let Some(ixs) = self.g_init() {
                    self.run_tx(ixs);
                }
            }
        }
    }
}
