//! A small market laboratory for demonstrations: one ledger, markets, traders, wallets.
#![allow(dead_code)]
use crate::chain::*;
use crate::parse::*;
use crate::wire::*;
use solana_program::{pubkey::Pubkey, system_program};
use std::rc::Rc;

pub fn key(a: u8, b: u8) -> Pubkey {
    let mut k = [b.wrapping_mul(7).wrapping_add(1); 32];
    k[0] = a;
    k[1] = b;
    k[31] = a ^ 0x5a;
    Pubkey::new_from_array(k)
}
pub fn ro(k: Pubkey) -> Meta { Meta { key: k, signer: false, writable: false } }
pub fn wr(k: Pubkey) -> Meta { Meta { key: k, signer: false, writable: true } }
pub fn sg(k: Pubkey) -> Meta { Meta { key: k, signer: true, writable: true } }
pub fn log_authority() -> Pubkey { find_pda(&[b"log"], &phoenix_id()).0 }
pub fn seat_addr(m: &Pubkey, t: &Pubkey) -> Pubkey { find_pda(&[b"seat", m.as_ref(), t.as_ref()], &phoenix_id()).0 }
pub fn vault_addr(m: &Pubkey, t: &Pubkey) -> Pubkey { find_pda(&[b"vault", m.as_ref(), t.as_ref()], &phoenix_id()).0 }

pub const RICH: u64 = 1_000_000_000_000_000;
pub struct Lab {
    pub c: Chain,
    pub mints: [Pubkey; 2],
    pub auth: Pubkey,
    pub rec: Pubkey,
    pub last: IxOut,
}
impl Lab {
    /// Two mints with 6 decimals, an authority and a fee recipient.
    pub fn new() -> Lab {
        install();
        let mut l = Lab {
            c: Chain::default(),
            mints: [key(1, 0), key(1, 1)],
            auth: key(2, 0),
            rec: key(2, 1),
            last: IxOut::default(),
        };
        l.c.slot = 100;
        l.c.ts = 1000;
        for k in [phoenix_id(), spl_token::id(), system_program::id()] {
            l.c.put(k, Acct { lamports: 1, owner: key(9, 9), data: Rc::new(vec![]), executable: true });
        }
        for m in l.mints {
            l.c.put(m, Acct { lamports: 1_461_600, owner: spl_token::id(), data: Rc::new(mk_mint(&key(1, 9), 0, 6, true)), executable: false });
        }
        let (a, r) = (l.auth, l.rec);
        l.actor(a);
        l.actor(r);
        l
    }
    pub fn wallet(t: &Pubkey, mint: usize) -> Pubkey {
        let mut b = t.to_bytes();
        b[30] ^= 0x30 + mint as u8;
        Pubkey::new_from_array(b)
    }
    pub fn actor(&mut self, k: Pubkey) -> Pubkey {
        self.c.put(k, Acct { lamports: 10_000_000_000, owner: system_program::id(), data: Rc::new(vec![]), executable: false });
        for i in 0..2 {
            self.fund(&k, i, RICH);
        }
        k
    }
    pub fn fund(&mut self, k: &Pubkey, mint: usize, amount: u64) {
        let d = mk_tok(&self.mints[mint], k, amount, 1);
        self.c.put(Lab::wallet(k, mint), Acct { lamports: 2_039_280, owner: spl_token::id(), data: Rc::new(d), executable: false });
    }
    pub fn amount(&self, k: &Pubkey) -> u64 {
        let a = self.c.get(k);
        parse_tok(&a.owner, &a.data).map(|t| t.amount).unwrap_or(0)
    }
    pub fn has(&self, t: &Pubkey, mint: usize) -> u64 { self.amount(&Lab::wallet(t, mint)) }
    pub fn zero_account(&mut self, k: Pubkey, len: usize) {
        self.c.put(k, Acct { lamports: (len as u64 + 128) * 6960, owner: phoenix_id(), data: Rc::new(vec![0; len]), executable: false });
    }
    pub fn tx(&mut self, tag: u8, m: &Pubkey, signer: &Pubkey, extra: Vec<Meta>, payload: &[u8]) -> bool {
        let mut metas = vec![ro(phoenix_id()), ro(log_authority()), wr(*m), sg(*signer)];
        metas.extend(extra);
        self.raw(Ix { program: phoenix_id(), metas, data: with_tag(tag, payload) })
    }
    pub fn raw(&mut self, ix: Ix) -> bool {
        let all = [ix.clone()];
        self.last = self.c.exec_ix(&ix, &all, None);
        self.c.settle();
        self.last.ok
    }
    /// Several instructions in one transaction.
    pub fn bundle(&mut self, all: &[Ix]) -> bool {
        let start = self.c.clone();
        for ix in all {
            self.last = self.c.exec_ix(ix, all, None);
            if !self.last.ok {
                self.c = start;
                return false;
            }
        }
        self.c.settle();
        true
    }
    pub fn init_p(&self, fee: u16) -> InitP {
        // 1 base lot = 1000 atoms, 1 quote lot = 100 atoms; tick = 1000 quote lots per base unit
        InitP { sizes: (512, 512, 128), num_quote_lots: 10_000, tick: 1000, num_base_lots: 1000, fee_bps: fee, recipient: self.rec, raw: None }
    }
    pub fn init(&mut self, m: &Pubkey, p: &InitP) -> bool {
        let (b, q) = (self.mints[0], self.mints[1]);
        let extra = vec![ro(b), ro(q), wr(vault_addr(m, &b)), wr(vault_addr(m, &q)), ro(system_program::id()), ro(spl_token::id())];
        let a = self.auth;
        self.tx(T_INIT, m, &a, extra, &p.enc())
    }
    /// An active market whose traders hold approved seats.
    pub fn market(&mut self, n: u8, fee: u16, traders: &[Pubkey]) -> Pubkey {
        let m = key(3, n);
        self.zero_account(m, market_len((512, 512, 128)));
        let p = self.init_p(fee);
        assert!(self.init(&m, &p), "setup: init {}", self.last.err);
        for t in traders {
            if self.c.get(t).lamports == 0 {
                self.actor(*t);
            }
            assert!(self.request(&m, t), "setup: seat {}", self.last.err);
            assert!(self.seat_status(&m, t, 1), "setup: approve {}", self.last.err);
        }
        assert!(self.status(&m, 1), "setup: activate {}", self.last.err);
        m
    }
    pub fn request(&mut self, m: &Pubkey, t: &Pubkey) -> bool {
        self.tx(T_REQSEAT, m, t, vec![wr(seat_addr(m, t)), ro(system_program::id())], &[])
    }
    pub fn seat_status(&mut self, m: &Pubkey, t: &Pubkey, s: u8) -> bool {
        let a = self.auth;
        self.tx(T_SEATSTATUS, m, &a, vec![wr(seat_addr(m, t))], &[s])
    }
    pub fn status(&mut self, m: &Pubkey, s: u8) -> bool {
        let a = self.auth;
        self.tx(T_STATUS, m, &a, vec![], &[s])
    }
    pub fn vctx(&self, m: &Pubkey, t: &Pubkey) -> Vec<Meta> {
        vec![
            wr(Lab::wallet(t, 0)),
            wr(Lab::wallet(t, 1)),
            wr(vault_addr(m, &self.mints[0])),
            wr(vault_addr(m, &self.mints[1])),
            ro(spl_token::id()),
        ]
    }
    pub fn seat_vctx(&self, m: &Pubkey, t: &Pubkey) -> Vec<Meta> {
        let mut v = vec![ro(seat_addr(m, t))];
        v.extend(self.vctx(m, t));
        v
    }
    pub fn order(&mut self, m: &Pubkey, t: &Pubkey, p: &Packet) -> bool {
        let v = self.seat_vctx(m, t);
        match (p.kind, p.free) {
            (Kind::Ioc, false) => self.tx(T_SWAP, m, t, self.vctx(m, t), &p.enc()),
            (Kind::Ioc, true) => self.tx(T_SWAP_FF, m, t, vec![ro(seat_addr(m, t))], &p.enc()),
            (_, false) => self.tx(T_LIMIT, m, t, v, &p.enc()),
            (_, true) => self.tx(T_LIMIT_FF, m, t, vec![ro(seat_addr(m, t))], &p.enc()),
        }
    }
    pub fn limit(bid: bool, price: u64, lots: u64) -> Packet {
        Packet { price: Some(price), base: lots, ..Packet::new(Kind::Limit, bid) }
    }
    pub fn post(bid: bool, price: u64, lots: u64) -> Packet {
        Packet { price: Some(price), base: lots, ..Packet::new(Kind::Post, bid) }
    }
    pub fn ioc(bid: bool, price: Option<u64>, base: u64, quote: u64) -> Packet {
        Packet { price, base, quote, ..Packet::new(Kind::Ioc, bid) }
    }
    pub fn deposit(&mut self, m: &Pubkey, t: &Pubkey, q: u64, b: u64) -> bool {
        let mut d = q.to_le_bytes().to_vec();
        d.extend_from_slice(&b.to_le_bytes());
        let v = self.seat_vctx(m, t);
        self.tx(T_DEPOSIT, m, t, v, &d)
    }
    pub fn withdraw(&mut self, m: &Pubkey, t: &Pubkey, q: Option<u64>, b: Option<u64>) -> bool {
        let mut d = vec![];
        eo64(&mut d, q);
        eo64(&mut d, b);
        let v = self.vctx(m, t);
        self.tx(T_WITHDRAW, m, t, v, &d)
    }
    pub fn evict(&mut self, m: &Pubkey, t: &Pubkey) -> bool {
        let mut v = vec![ro(*t), ro(seat_addr(m, t))];
        v.extend(self.vctx(m, t));
        let a = self.auth;
        self.tx(T_EVICT, m, &a, v, &[])
    }
    pub fn cancel_all(&mut self, m: &Pubkey, t: &Pubkey, ff: bool) -> bool {
        let v = if ff { vec![] } else { self.vctx(m, t) };
        self.tx(if ff { T_CALL_FF } else { T_CALL }, m, t, v, &[])
    }
    pub fn cancel_up_to(&mut self, m: &Pubkey, t: &Pubkey, u: &UpTo, ff: bool) -> bool {
        let v = if ff { vec![] } else { self.vctx(m, t) };
        self.tx(if ff { T_CUPTO_FF } else { T_CUPTO }, m, t, v, &u.enc())
    }
    pub fn cancel_ids(&mut self, m: &Pubkey, t: &Pubkey, ids: &[CancelId], ff: bool) -> bool {
        let v = if ff { vec![] } else { self.vctx(m, t) };
        self.tx(if ff { T_CMULTI_FF } else { T_CMULTI }, m, t, v, &enc_ids(ids))
    }
    pub fn reduce(&mut self, m: &Pubkey, t: &Pubkey, c: &CancelId, size: u64, ff: bool) -> bool {
        let v = if ff { vec![] } else { self.vctx(m, t) };
        self.tx(if ff { T_REDUCE_FF } else { T_REDUCE }, m, t, v, &enc_reduce(c, size))
    }
    pub fn multi(&mut self, m: &Pubkey, t: &Pubkey, p: &Multi, ff: bool) -> bool {
        let v = if ff { vec![ro(seat_addr(m, t))] } else { self.seat_vctx(m, t) };
        self.tx(if ff { T_MULTI_FF } else { T_MULTI }, m, t, v, &p.enc())
    }
    pub fn force_cancel(&mut self, m: &Pubkey, t: &Pubkey, u: &UpTo) -> bool {
        let mut v = vec![ro(*t), ro(seat_addr(m, t))];
        v.extend(self.vctx(m, t));
        let a = self.auth;
        self.tx(T_FORCE, m, &a, v, &u.enc())
    }
    pub fn collect(&mut self, m: &Pubkey) -> bool {
        let (a, r) = (self.auth, self.rec);
        let v = vec![wr(Lab::wallet(&r, 1)), wr(vault_addr(m, &self.mints[1])), ro(spl_token::id())];
        self.tx(T_COLLECT, m, &a, v, &[])
    }
    pub fn all(bid: bool) -> UpTo { UpTo { bid, tick: None, search: None, cancel: None } }
    pub fn cond(price: u64, size: u64) -> Cond { Cond { price, size, lvs: None, lvt: None } }
    pub fn id(o: &Order, bid: bool) -> CancelId { CancelId { bid, price: o.price, seq: o.seq } }
    pub fn book(&self, m: &Pubkey, bid: bool) -> Vec<Order> { self.mkt(m).book(bid).clone() }
    pub fn mkt(&self, m: &Pubkey) -> Mkt { parse_market(&self.c.get(m).data).expect("market parses") }
    pub fn tr(&self, m: &Pubkey, t: &Pubkey) -> Tr { self.mkt(m).traders.get(t).cloned().unwrap_or_default() }
    pub fn vaults(&self, m: &Pubkey) -> (u64, u64) {
        (self.amount(&vault_addr(m, &self.mints[0])), self.amount(&vault_addr(m, &self.mints[1])))
    }
    /// vaults hold exactly what is owed, locked funds are what the books need
    pub fn balanced(&self, m: &Pubkey) {
        let k = self.mkt(m);
        let q: u64 = k.traders.values().map(|t| t.ql + t.qf).sum::<u64>() + k.unclaimed;
        let b: u64 = k.traders.values().map(|t| t.bl + t.bf).sum();
        assert_eq!(self.vaults(m), (b * k.hdr.base_lot, q * k.hdr.quote_lot), "vaults equal what is owed");
        for (t, s) in &k.traders {
            let ql: u64 = k.bids.iter().filter(|o| o.trader == *t).map(|o| o.price * o.lots * k.t / k.b).sum();
            let bl: u64 = k.asks.iter().filter(|o| o.trader == *t).map(|o| o.lots).sum();
            assert_eq!((s.ql, s.bl), (ql, bl), "locked funds equal resting orders");
        }
    }
    pub fn events(&self) -> Vec<Ev> {
        self.last.logs.iter().filter_map(|l| dec_log(l)).flat_map(|x| x.1.into_iter().map(|y| y.1)).collect()
    }
}
/// Runs a scenario with panics reported; a failed assertion ends the process with status 1.
pub fn run(f: fn()) {
    let r = std::panic::catch_unwind(f);
    if let Err(e) = r {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
        eprintln!("property broken: {}", m.unwrap_or_default());
        std::process::exit(1);
    }
}
