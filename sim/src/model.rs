//! Executable reference model: from the raw pre-state, one instruction and the clock, what must
//! happen. Written from the documentation and the instruction semantics with plain vectors, maps
//! and 128-bit arithmetic; shares no code with phoenix-v1.
use crate::chain::{find_pda, phoenix_id, Acct, Chain, Ix};
use crate::parse::*;
use crate::wire::*;
use solana_program::{pubkey::Pubkey, system_program};
use std::collections::BTreeMap;
use std::rc::Rc;

// context flags of one instruction
pub const C_MATCHED: u32 = 1 << 0;
pub const C_EXPIRED: u32 = 1 << 1; // an expired resting order was met
pub const C_INEXP: u32 = 1 << 2; // the incoming order was expired on arrival
pub const C_SELF: u32 = 1 << 3;
pub const C_EVICT: u32 = 1 << 4;
pub const C_AMEND: u32 = 1 << 5;
pub const C_POST: u32 = 1 << 6;
pub const C_MLIM: u32 = 1 << 7; // stopped by the match limit
pub const C_MIN: u32 = 1 << 8; // has a minimum fill
pub const C_SILENT: u32 = 1 << 9;
pub const C_MULTI: u32 = 1 << 10;
pub const C_FREE: u32 = 1 << 11;
pub const C_FULL: u32 = 1 << 12; // own side of the book full
pub const C_REST: u32 = 1 << 13;
pub const C_QBUD: u32 = 1 << 14; // quote budget given
pub const C_FEE: u32 = 1 << 15; // nonzero fee charged
pub const C_IOC: u32 = 1 << 16;
pub const C_LIMIT: u32 = 1 << 17;
pub const C_TIF: u32 = 1 << 18; // order carries an expiry
pub const C_CROSS: u32 = 1 << 19; // post-only order would cross
pub const C_SKIPPED: u32 = 1 << 20; // silently not placed for lack of funds
pub const C_MERGED: u32 = 1 << 21;
pub const C_MANYEV: u32 = 1 << 22; // more events than one batch holds
pub const C_PARTIAL: u32 = 1 << 23; // partial fill of a resting order
pub const C_OLDWIRE: u32 = 1 << 24; // payload without the trailing fields
pub const C_TABFULL: u32 = 1 << 25; // trader table full, or one of its last places taken
pub const C_EDGE: u32 = 1 << 26; // clock exactly on a deadline
pub const C_FREEUSED: u32 = 1 << 27;
pub const C_LOGFAIL: u32 = 1 << 28; // the call that carries the events was refused
pub const C_CLIENT: u32 = 1 << 29; // also expressed with the published builders and the IDL
pub const C_NAMES: [&str; 30] = [
    "matched", "expired_resting_met", "incoming_expired", "self_trade", "evicted", "amended", "post_only",
    "match_limit_hit", "min_fill", "fail_silently", "multi", "free_funds", "side_full", "rested", "quote_budget",
    "fee_charged", "ioc", "limit", "time_in_force", "post_only_cross", "skipped_unfunded", "merged_levels",
    "multi_batch_log", "partial_fill", "old_client_packet", "trader_table_full_or_last_places", "deadline_edge", "free_used_by_deposit_order",
    "log_call_refused", "published_client",
];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Outcome {
    Fail,
    Ok,
    /// intermediate arithmetic may legitimately overflow: refuse, or succeed with these effects
    Either,
    /// numerically out of scope: only the invariants are judged
    Any,
}
#[derive(Clone, Debug)]
pub struct LogExp {
    pub ix: u8,
    pub seq: u64,
    pub ts: i64,
    pub slot: u64,
    pub market: Pubkey,
    pub signer: Pubkey,
    pub events: Vec<Ev>,
}
#[derive(Clone, Debug)]
pub struct Pred {
    pub outcome: Outcome,
    pub reasons: Vec<&'static str>,
    pub ctx: u32,
    pub accts: BTreeMap<Pubkey, Acct>,
    pub mkts: BTreeMap<Pubkey, Mkt>,
    pub log: Option<LogExp>,
    pub ret: Option<Vec<u8>>,
    pub market: Option<Pubkey>,
    pub signer: Option<Pubkey>,
}

type R<T> = Result<T, &'static str>;

pub struct Env<'a> {
    pub pre: &'a Chain,
    pub ix: &'a Ix,
    pub all: &'a [Ix],
    pub pre_mkts: &'a dyn Fn(&Pubkey) -> Option<Rc<Mkt>>,
    pub slot: u64,
    pub ts: i64,
    pub p: Pred,
}

fn fits(x: u128) -> Option<u64> { u64::try_from(x).ok() }
pub fn mul3(a: u64, b: u64, c: u64) -> Option<u128> { (a as u128 * b as u128).checked_mul(c as u128) }
pub fn ceil_div(a: u128, b: u128) -> u128 { (a + b - 1) / b }

impl<'a> Env<'a> {
    fn privs(&self, k: &Pubkey) -> (bool, bool) {
        let (mut s, mut w) = (false, false);
        for i in self.all {
            for m in &i.metas {
                if m.key == *k {
                    s |= m.signer;
                    w |= m.writable;
                }
            }
        }
        (s, w)
    }
    fn key(&self, i: usize) -> R<Pubkey> { self.ix.metas.get(i).map(|m| m.key).ok_or("accounts_missing") }
    fn acct(&self, k: &Pubkey) -> Acct { self.p.accts.get(k).cloned().unwrap_or_else(|| self.pre.get(k)) }
    fn need(&self, c: bool, r: &'static str) -> R<()> { if c { Ok(()) } else { Err(r) } }
    fn signer_at(&self, i: usize) -> R<Pubkey> {
        let k = self.key(i)?;
        self.need(self.privs(&k).0, "missing_signature")?;
        Ok(k)
    }
    fn writable(&self, k: &Pubkey) -> R<()> { self.need(self.privs(k).1, "not_writable") }
    fn soft(&mut self) {
        if self.p.outcome == Outcome::Ok {
            self.p.outcome = Outcome::Either
        }
    }
    fn ctx(&mut self, c: u32) { self.p.ctx |= c }

    fn token_acct(&self, i: usize, mint: &Pubkey, owner: &Pubkey, exact: Option<&Pubkey>) -> R<Pubkey> {
        let k = self.key(i)?;
        if let Some(e) = exact {
            self.need(k == *e, "wrong_vault")?;
        }
        let a = self.pre.get(&k);
        let t = parse_tok(&a.owner, &a.data).ok_or("not_token_account")?;
        self.need(t.mint == *mint, "wrong_mint")?;
        self.need(t.owner == *owner, "wrong_token_owner")?;
        Ok(k)
    }
    /// base account, quote account, base vault, quote vault, token program
    fn vault_ctx(&self, at: usize, m: &Mkt, owner: &Pubkey) -> R<[Pubkey; 4]> {
        let h = &m.hdr;
        let b = self.token_acct(at, &h.base.mint, owner, None)?;
        let q = self.token_acct(at + 1, &h.quote.mint, owner, None)?;
        let bv = self.token_acct(at + 2, &h.base.mint, &h.base.vault, Some(&h.base.vault))?;
        let qv = self.token_acct(at + 3, &h.quote.mint, &h.quote.vault, Some(&h.quote.vault))?;
        self.need(self.key(at + 4)? == spl_token::id(), "wrong_token_program")?;
        Ok([b, q, bv, qv])
    }
    fn transfer(&mut self, src: &Pubkey, dst: &Pubkey, atoms: u128, auth_signs: bool) -> R<()> {
        if atoms == 0 {
            return Ok(());
        }
        let n = fits(atoms).ok_or("amount_too_large")?;
        self.need(auth_signs, "missing_signature")?;
        self.writable(src)?;
        self.writable(dst)?;
        let (mut sa, mut da) = (self.acct(src), self.acct(dst));
        let s = parse_tok(&sa.owner, &sa.data).ok_or("not_token_account")?;
        let d = parse_tok(&da.owner, &da.data).ok_or("not_token_account")?;
        self.need(s.state == 1 && d.state == 1, "token_account_frozen")?;
        self.need(s.mint == d.mint, "wrong_mint")?;
        self.need(s.amount >= n, "insufficient_tokens")?;
        if src == dst {
            return Ok(());
        }
        let put = |a: &mut Acct, v: u64| {
            let mut x = (*a.data).clone();
            x[64..72].copy_from_slice(&v.to_le_bytes());
            a.data = Rc::new(x);
        };
        put(&mut sa, s.amount - n);
        put(&mut da, d.amount.checked_add(n).ok_or("amount_too_large")?);
        self.p.accts.insert(*src, sa);
        self.p.accts.insert(*dst, da);
        Ok(())
    }
    /// the seat account at position i must be the given trader's on this market
    fn seat_at(&self, i: usize, market: &Pubkey, trader: &Pubkey, approved: bool) -> R<Pubkey> {
        let k = self.key(i)?;
        let a = self.pre.get(&k);
        let s = parse_seat(&a.owner, &a.data).ok_or("not_a_seat")?;
        let (addr, _) = find_pda(&[b"seat", market.as_ref(), trader.as_ref()], &phoenix_id());
        self.need(addr == k && s.market == *market && s.trader == *trader, "wrong_seat")?;
        self.need((s.status == 1) == approved, "seat_status")?;
        Ok(k)
    }
    fn create(&mut self, payer: &Pubkey, acct: &Pubkey, owner: &Pubkey, data: Vec<u8>) -> R<()> {
        let rent = (data.len() as u64 + 128) * 3480 * 2;
        let (ps, pw) = self.privs(payer);
        let mut a = self.acct(acct);
        let need = rent.saturating_sub(a.lamports);
        if a.lamports == 0 || need > 0 {
            self.need(ps, "missing_signature")?;
            self.need(pw, "not_writable")?;
            let mut p = self.acct(payer);
            self.need(payer != acct, "payer")?;
            self.need(p.owner == system_program::id() && p.data.is_empty(), "payer")?;
            self.need(p.lamports >= need, "insufficient_lamports")?;
            p.lamports -= need;
            self.p.accts.insert(*payer, p);
        }
        self.writable(acct)?;
        self.need(a.owner == system_program::id() && a.data.is_empty() && !a.executable, "account_in_use")?;
        a.lamports += need;
        a.owner = *owner;
        a.data = Rc::new(data);
        self.p.accts.insert(*acct, a);
        Ok(())
    }
}

pub fn status_cross(s: u64) -> bool { s == 1 }
pub fn status_post(s: u64) -> bool { s == 1 || s == 2 }
pub fn status_reduce(s: u64) -> bool { (1..=4).contains(&s) }
pub fn transition_ok(a: u64, b: u64) -> bool {
    matches!(
        (a, b),
        (1, 1) | (1, 2) | (1, 3) | (2, 1) | (2, 2) | (2, 3) | (2, 4) | (3, 1) | (3, 2) | (3, 3) | (3, 4) | (4, 2) | (4, 3) | (4, 4) | (4, 5)
    )
}

/// what an order did to its owner's funds, in lots
#[derive(Default, Clone, Debug)]
pub struct Resp {
    pub q_in: u128,
    pub b_in: u128,
    pub q_out: u128,
    pub b_out: u128,
    pub q_posted: u128,
    pub b_posted: u128,
    pub q_free: u128,
    pub b_free: u128,
    pub matched: bool,
}
impl Resp {
    fn q_dep(&self) -> u128 { self.q_in + self.q_posted - self.q_free }
    fn b_dep(&self) -> u128 { self.b_in + self.b_posted - self.b_free }
}

fn side_of(seq: u64) -> bool { seq >> 63 == 1 } // bid

/// insert in priority order: bids highest price first, asks lowest first, then arrival
fn book_insert(book: &mut Vec<Order>, bid: bool, o: Order) {
    let arrival = |s: u64| if bid { !s } else { s };
    let pos = book
        .iter()
        .position(|x| {
            if bid {
                x.price < o.price || (x.price == o.price && arrival(x.seq) > arrival(o.seq))
            } else {
                x.price > o.price || (x.price == o.price && x.seq > o.seq)
            }
        })
        .unwrap_or(book.len());
    book.insert(pos, o);
}

impl<'a> Env<'a> {
    /// locked value of `lots` at `price`: (quote lots for a bid, base lots for an ask)
    fn lock_of(&mut self, m: &Mkt, bid: bool, price: u64, lots: u64) -> R<(u128, u128)> {
        if bid {
            let adj = match mul3(price, m.t, lots) {
                Some(a) => a,
                None => return Err("overflow"),
            };
            if fits(adj).is_none() {
                self.soft();
            }
            Ok((adj / m.b as u128, 0))
        } else {
            Ok((0, lots as u128))
        }
    }
    fn unlock(&mut self, m: &mut Mkt, o: &Order, bid: bool, lots: u64) -> R<(u64, u64)> {
        let (q, b) = self.lock_of(m, bid, o.price, lots)?;
        let (q, b) = (fits(q).ok_or("overflow")?, fits(b).ok_or("overflow")?);
        let t = m.traders.get_mut(&o.trader).ok_or("internal")?;
        t.ql = t.ql.checked_sub(q).ok_or("internal")?;
        t.bl = t.bl.checked_sub(b).ok_or("internal")?;
        t.qf = t.qf.checked_add(q).ok_or("overflow")?;
        t.bf = t.bf.checked_add(b).ok_or("overflow")?;
        Ok((q, b))
    }
    fn register(&mut self, m: &mut Mkt, k: &Pubkey) -> R<()> {
        if !m.traders.contains_key(k) {
            if m.traders.len() as u64 >= m.hdr.sizes.2 {
                self.ctx(C_TABFULL);
                return Err("trader_table_full");
            }
            if m.traders.len() as u64 + 4 > m.hdr.sizes.2 {
                self.ctx(C_TABFULL); // one of its last places is taken
            }
            m.traders.insert(*k, Tr::default());
        }
        Ok(())
    }
    fn drop_expired(&mut self, m: &mut Mkt, bid: bool, evs: &mut Vec<Ev>) -> R<()> {
        let o = m.book_mut(bid).remove(0);
        self.ctx(C_EXPIRED);
        evs.push(Ev::Expired { maker: o.trader, seq: o.seq, price: o.price, removed: o.lots });
        let lots = o.lots;
        self.unlock(m, &o, bid, lots)?;
        Ok(())
    }

    /// Place one order for `who`. Returns the identifier placed, if any.
    pub fn place(&mut self, m: &mut Mkt, who: &Pubkey, pk: &Packet, evs: &mut Vec<Ev>) -> R<(Option<(u64, u64)>, Resp)> {
        let (slot, ts) = (self.slot, self.ts as u64);
        let mut r = Resp::default();
        let ioc = pk.kind == Kind::Ioc;
        self.ctx(match pk.kind {
            Kind::Post => C_POST,
            Kind::Limit => C_LIMIT,
            Kind::Ioc => C_IOC,
        });
        if pk.lvs.is_some() || pk.lvt.is_some() {
            self.ctx(C_TIF);
        }
        if pk.free {
            self.ctx(C_FREE);
        }
        if m.oseq == 0 || m.oseq == u64::MAX >> 1 {
            return Err("sequence_exhausted");
        }
        let mut price = pk.price.unwrap_or(if pk.bid { u64::MAX } else { 0 });
        if pk.bid && price == 0 {
            return Err("zero_price");
        }
        if !pk.bid && !ioc {
            price = price.max(1);
        }
        let registered = if ioc {
            m.traders.contains_key(who)
        } else {
            self.register(m, who)?;
            true
        };
        if pk.base == 0 && pk.quote == 0 {
            return Err("zero_size");
        }
        if ioc && pk.base > 0 && pk.quote > 0 {
            return Err("two_budgets");
        }
        if pk.lvs == Some(slot) || pk.lvt == Some(ts) {
            self.ctx(C_EDGE);
        }
        if pk.lvs.map(|v| slot > v).unwrap_or(false) || pk.lvt.map(|v| ts > v).unwrap_or(false) {
            self.ctx(C_INEXP);
            return Ok((None, r));
        }
        let mut rest_lots = pk.base;
        if pk.kind == Kind::Post {
            // clear expired tops, then find the best live opposite order
            loop {
                let top = match m.book(!pk.bid).first() {
                    None => break,
                    Some(o) => o.clone(),
                };
                let crosses = if pk.bid { top.price <= price } else { top.price >= price };
                if !crosses {
                    break;
                }
                if top.lvs == slot || top.lvt == ts {
                    self.ctx(C_EDGE);
                }
                if top.expired(slot, ts) {
                    self.drop_expired(m, !pk.bid, evs)?;
                    continue;
                }
                self.ctx(C_CROSS);
                if pk.reject {
                    return Err("post_only_cross");
                }
                self.ctx(C_AMEND);
                if pk.bid {
                    if top.price <= 1 {
                        return Err("post_only_cross");
                    }
                    price = top.price - 1;
                } else {
                    price = top.price.checked_add(1).ok_or("overflow")?;
                }
                break;
            }
        } else {
            // budgets
            let mut base_left: u64 = if pk.base > 0 { pk.base } else { u64::MAX };
            let mut adj_left: u128 = u64::MAX as u128;
            if ioc && pk.quote > 0 {
                self.ctx(C_QBUD);
                let adj = pk.quote as u128 * m.b as u128;
                if fits(adj).is_none() {
                    self.p.outcome = Outcome::Any;
                    return Ok((None, r));
                }
                let full = u64::MAX as u128;
                let fee = ceil_div(full * m.fee_bps as u128, 10000);
                let den = if pk.bid { full + fee } else { full - fee };
                if den == 0 {
                    self.p.outcome = Outcome::Any;
                    return Ok((None, r));
                }
                let v = adj * full / den;
                adj_left = v.min(u64::MAX as u128);
            }
            if ioc && (pk.min_base > 0 || pk.min_quote > 0) {
                self.ctx(C_MIN);
            }
            let mut left = pk.match_limit.unwrap_or(u64::MAX);
            let mut done = false;
            let (mut adj_matched, mut base_matched): (u128, u128) = (0, 0);
            while base_left > 0 && adj_left > 0 && !done {
                let top = match m.book(!pk.bid).first() {
                    None => break,
                    Some(o) => o.clone(),
                };
                let within = if pk.bid { top.price <= price } else { top.price >= price };
                if left == 0 {
                    if within {
                        self.ctx(C_MLIM);
                    }
                    break;
                }
                if !within {
                    break;
                }
                if (top.lvs == slot && slot != 0) || (top.lvt == ts && ts != 0) {
                    self.ctx(C_EDGE);
                }
                left -= 1;
                if top.expired(slot, ts) {
                    if registered && top.trader == *who {
                        self.ctx(C_SELF); // its own, and not a self-trade
                    }
                    self.drop_expired(m, !pk.bid, evs)?;
                    continue;
                }
                let per_lot = top.price as u128 * m.t as u128;
                if fits(per_lot).is_none() {
                    self.soft();
                }
                if registered && top.trader == *who {
                    self.ctx(C_SELF);
                    match pk.stb {
                        0 => return Err("self_trade"),
                        1 => {
                            let o = m.book_mut(!pk.bid).remove(0);
                            let lots = o.lots;
                            self.unlock(m, &o, !pk.bid, lots)?;
                            evs.push(Ev::Reduce { seq: o.seq, price: o.price, removed: lots, remaining: 0 });
                        }
                        _ => {
                            let afford = (adj_left / per_lot).min(u64::MAX as u128) as u64;
                            let cut = base_left.min(afford).min(top.lots);
                            if cut == top.lots {
                                m.book_mut(!pk.bid).remove(0);
                            } else {
                                m.book_mut(!pk.bid)[0].lots -= cut;
                                done = true;
                            }
                            self.unlock(m, &top, !pk.bid, cut)?;
                            evs.push(Ev::Reduce { seq: top.seq, price: top.price, removed: cut, remaining: top.lots - cut });
                            if base_left != u64::MAX || pk.base > 0 {
                                base_left -= cut;
                            } else {
                                base_left = base_left.saturating_sub(cut);
                            }
                            adj_left -= per_lot * cut as u128;
                        }
                    }
                    continue;
                }
                let value = per_lot.checked_mul(top.lots as u128).ok_or("overflow")?;
                if fits(value).is_none() {
                    self.soft();
                }
                let (fill, adj) = if top.lots <= base_left && value <= adj_left {
                    m.book_mut(!pk.bid).remove(0);
                    (top.lots, value)
                } else {
                    let afford = (adj_left / per_lot).min(u64::MAX as u128) as u64;
                    let f = base_left.min(afford);
                    m.book_mut(!pk.bid)[0].lots -= f;
                    done = true;
                    self.ctx(C_PARTIAL);
                    (f, per_lot * f as u128)
                };
                base_left -= fill;
                adj_left -= adj;
                adj_matched += adj;
                base_matched += fill as u128;
                if fits(adj_matched).is_none() {
                    self.soft();
                }
                if fill > 0 {
                    self.ctx(C_MATCHED);
                    evs.push(Ev::Fill {
                        maker: top.trader,
                        seq: top.seq,
                        price: top.price,
                        filled: fill,
                        remaining: top.lots - fill,
                    });
                }
                let q = fits(adj / m.b as u128).ok_or("overflow")?;
                let t = m.traders.get_mut(&top.trader).ok_or("internal")?;
                if pk.bid {
                    t.bl = t.bl.checked_sub(fill).ok_or("internal")?;
                    t.qf = t.qf.checked_add(q).ok_or("overflow")?;
                } else {
                    t.ql = t.ql.checked_sub(q).ok_or("internal")?;
                    t.bf = t.bf.checked_add(fill).ok_or("overflow")?;
                }
            }
            // fee: rounded up to a whole quote lot
            let fee_adj = ceil_div(adj_matched * m.fee_bps as u128, 10000);
            let fee = ceil_div(fee_adj, m.b as u128);
            if fits(adj_matched + m.b as u128).is_none() {
                self.soft();
            }
            if fee > 0 {
                self.ctx(C_FEE);
            }
            m.unclaimed = m.unclaimed.checked_add(fits(fee).ok_or("overflow")?).ok_or("overflow")?;
            let gross = adj_matched / m.b as u128;
            r.matched = base_matched > 0;
            let quote_total;
            if pk.bid {
                quote_total = gross + fee;
                r.q_in = quote_total;
                r.b_out = base_matched;
            } else {
                quote_total = gross.checked_sub(fee).ok_or("overflow")?;
                r.b_in = base_matched;
                r.q_out = quote_total;
            }
            evs.push(Ev::Summary {
                cid: pk.cid,
                base: fits(base_matched).ok_or("overflow")?,
                quote: fits(quote_total).ok_or("overflow")?,
                fee: fee as u64,
            });
            if ioc && (base_matched < pk.min_base as u128 || quote_total < pk.min_quote as u128) {
                return Err("min_fill");
            }
            rest_lots = base_left;
        }
        let mut id = None;
        if !ioc {
            let live = m.book(!pk.bid).iter().find(|o| !o.expired(slot, ts)).map(|o| o.price);
            let crosses = if pk.kind == Kind::Post {
                false
            } else {
                match (pk.bid, live) {
                    (true, Some(x)) => price >= x,
                    (false, Some(x)) => price <= x,
                    (true, None) => price == u64::MAX,
                    (false, None) => price == 0,
                }
            };
            if rest_lots > 0 && !crosses {
                let seq = if pk.bid { !m.oseq } else { m.oseq };
                if m.book(pk.bid).len() as u64 >= m.cap(pk.bid) {
                    self.ctx(C_FULL);
                    let worst = m.book(pk.bid).last().cloned().ok_or("internal")?;
                    let better = if pk.bid { price > worst.price } else { price < worst.price };
                    if !better {
                        return Err("book_full");
                    }
                    self.ctx(C_EVICT);
                    m.book_mut(pk.bid).pop();
                    evs.push(Ev::Evict { maker: worst.trader, seq: worst.seq, price: worst.price, lots: worst.lots });
                    let lots = worst.lots;
                    self.unlock(m, &worst, pk.bid, lots)?;
                }
                self.ctx(C_REST);
                let o = Order {
                    price,
                    seq,
                    trader: *who,
                    lots: rest_lots,
                    lvs: pk.lvs.unwrap_or(0),
                    lvt: pk.lvt.unwrap_or(0),
                };
                let (q, b) = self.lock_of(m, pk.bid, price, rest_lots)?;
                let t = m.traders.get_mut(who).ok_or("internal")?;
                if pk.bid {
                    let use_free = q.min(t.qf as u128);
                    t.qf -= use_free as u64;
                    t.ql = fits(t.ql as u128 + q).ok_or("overflow")?;
                    r.q_posted += q;
                    r.q_free += use_free;
                } else {
                    let use_free = b.min(t.bf as u128);
                    t.bf -= use_free as u64;
                    t.bl = fits(t.bl as u128 + b).ok_or("overflow")?;
                    r.b_posted += b;
                    r.b_free += use_free;
                }
                evs.push(Ev::Place { seq, cid: pk.cid, price, lots: rest_lots });
                if o.lvs != 0 || o.lvt != 0 {
                    evs.push(Ev::Tif { seq, slot: o.lvs, ts: o.lvt });
                }
                book_insert(m.book_mut(pk.bid), pk.bid, o);
                m.oseq += 1;
                id = Some((price, seq));
            }
        }
        if registered {
            let t = m.traders.get_mut(who).ok_or("internal")?;
            if pk.bid {
                let u = (t.qf as u128).min(r.q_in + r.q_out);
                t.qf -= u as u64;
                r.q_free += u;
            } else {
                let u = (t.bf as u128).min(r.b_in + r.b_out);
                t.bf -= u as u64;
                r.b_free += u;
            }
            if pk.free {
                if pk.bid {
                    t.bf = fits(t.bf as u128 + r.b_out).ok_or("overflow")?;
                    r.b_out = 0;
                } else {
                    t.qf = fits(t.qf as u128 + r.q_out).ok_or("overflow")?;
                    r.q_out = 0;
                }
                if r.q_dep() > 0 || r.b_dep() > 0 {
                    return Err("insufficient_free_funds");
                }
            } else if r.q_free > 0 || r.b_free > 0 {
                self.ctx(C_FREEUSED);
            }
        }
        Ok((id, r))
    }

    fn available(&self, m: &Mkt, who: &Pubkey, vc: Option<&[Pubkey; 4]>) -> R<(u128, u128)> {
        let t = m.traders.get(who).ok_or("not_registered")?;
        let (mut b, mut q) = (t.bf as u128, t.qf as u128);
        if let Some(v) = vc {
            let amt = |k: &Pubkey| {
                let a = self.pre.get(k);
                parse_tok(&a.owner, &a.data).map(|t| t.amount).unwrap_or(0) as u128
            };
            b += amt(&v[0]) / m.hdr.base_lot as u128;
            q += amt(&v[1]) / m.hdr.quote_lot as u128;
        }
        Ok((b, q))
    }
    fn affordable(&mut self, m: &Mkt, pk: &Packet, av: (u128, u128)) -> bool {
        if pk.bid {
            match mul3(pk.price.unwrap_or(0), m.t, pk.base) {
                None => {
                    self.p.outcome = Outcome::Any;
                    false
                }
                Some(x) => {
                    if fits(x).is_none() {
                        self.soft();
                    }
                    av.1 >= x / m.b as u128
                }
            }
        } else {
            av.0 >= pk.base as u128
        }
    }

    fn new_order(&mut self, mk: &Pubkey, m: &mut Mkt, who: &Pubkey, tag: u8, data: &[u8], evs: &mut Vec<Ev>) -> R<()> {
        let ff = tag == T_SWAP_FF || tag == T_LIMIT_FF;
        let take = tag == T_SWAP || tag == T_SWAP_FF;
        if ff {
            self.ctx(C_FREE);
        }
        let st = m.hdr.status;
        self.need(if take { status_cross(st) } else { status_post(st) }, "status")?;
        let mut at = 4;
        if !take || ff {
            self.seat_at(at, mk, who, true)?;
            at += 1;
        }
        let vc = if ff { None } else { Some(self.vault_ctx(at, m, who)?) };
        let pk = Packet::dec(data).ok_or("malformed")?;
        if Packet::enc(&pk) != data {
            self.ctx(C_OLDWIRE);
        }
        self.need((pk.kind == Kind::Ioc) == take, "wrong_order_type")?;
        self.need(pk.free == ff, "wrong_order_type")?;
        if pk.silent {
            self.ctx(C_SILENT);
            let av = self.available(m, who, vc.as_ref())?;
            if !self.affordable(m, &pk, av) {
                self.ctx(C_SKIPPED);
                return Ok(());
            }
        }
        let (id, r) = self.place(m, who, &pk, evs)?;
        self.need(!r.matched || status_cross(st), "status")?;
        if let Some(i) = id {
            self.p.ret = Some(enc_ret(&[i]));
        }
        if let Some(v) = vc {
            let (bl, ql) = (m.hdr.base_lot as u128, m.hdr.quote_lot as u128);
            if pk.bid {
                self.transfer(&v[2], &v[0], r.b_out * bl, true)?;
                self.transfer(&v[1], &v[3], r.q_dep().checked_mul(ql).ok_or("amount_too_large")?, true)?;
            } else {
                self.transfer(&v[3], &v[1], r.q_out * ql, true)?;
                self.transfer(&v[0], &v[2], r.b_dep().checked_mul(bl).ok_or("amount_too_large")?, true)?;
            }
        }
        Ok(())
    }

    fn multi_order(&mut self, mk: &Pubkey, m: &mut Mkt, who: &Pubkey, tag: u8, data: &[u8], evs: &mut Vec<Ev>) -> R<()> {
        let ff = tag == T_MULTI_FF;
        self.ctx(C_MULTI | if ff { C_FREE } else { 0 });
        self.need(status_post(m.hdr.status), "status")?;
        self.seat_at(4, mk, who, true)?;
        let vc = if ff { None } else { Some(self.vault_ctx(5, m, who)?) };
        let p = Multi::dec(data).ok_or("malformed")?;
        let hb = p.bids.iter().map(|c| c.price).max().unwrap_or(0);
        let la = p.asks.iter().map(|c| c.price).min().unwrap_or(u64::MAX);
        self.need(hb < la, "self_crossing_packet")?;
        let mut av = self.available(m, who, vc.as_ref())?;
        let (mut qd, mut bd): (u128, u128) = (0, 0);
        let mut ids = vec![];
        for bid in [true, false] {
            let mut l: Vec<Cond> = if bid { p.bids.clone() } else { p.asks.clone() };
            if bid {
                l.sort_by(|a, b| b.price.cmp(&a.price));
            } else {
                l.sort_by(|a, b| a.price.cmp(&b.price));
            }
            let mut merged: Vec<(Cond, u128)> = vec![];
            for c in l {
                match merged.last_mut() {
                    Some((x, s)) if x.price == c.price && x.lvs == c.lvs && x.lvt == c.lvt => {
                        *s += c.size as u128;
                        self.p.ctx |= C_MERGED;
                    }
                    _ => {
                        let s = c.size as u128;
                        merged.push((c, s));
                    }
                }
            }
            for (c, s) in merged {
                let mut pk = Packet::new(Kind::Post, bid);
                pk.price = Some(c.price);
                pk.base = fits(s).ok_or("overflow")?;
                pk.cid = p.cid.unwrap_or(0);
                pk.reject = !p.amend();
                pk.free = ff;
                pk.lvs = c.lvs;
                pk.lvt = c.lvt;
                if p.skip() {
                    self.ctx(C_SILENT);
                    if !self.affordable(m, &pk, av) {
                        self.ctx(C_SKIPPED);
                        continue;
                    }
                }
                let (id, r) = self.place(m, who, &pk, evs)?;
                if let Some(i) = id {
                    ids.push(i);
                }
                if p.skip() {
                    av.1 = av.1.saturating_sub(r.q_dep() + r.q_free);
                    av.0 = av.0.saturating_sub(r.b_dep() + r.b_free);
                }
                qd += r.q_dep();
                bd += r.b_dep();
            }
        }
        if !ids.is_empty() {
            self.p.ret = Some(enc_ret(&ids));
        }
        if let Some(v) = vc {
            self.transfer(&v[1], &v[3], qd.checked_mul(m.hdr.quote_lot as u128).ok_or("amount_too_large")?, true)?;
            self.transfer(&v[0], &v[2], bd.checked_mul(m.hdr.base_lot as u128).ok_or("amount_too_large")?, true)?;
        }
        Ok(())
    }

    /// Remove or shrink one of `who`'s orders. Returns the freed lots.
    fn reduce_one(&mut self, m: &mut Mkt, who: &Pubkey, bid: bool, price: u64, seq: u64, size: Option<u64>, evs: &mut Vec<Ev>) -> R<Option<(u64, u64)>> {
        let pos = match m.book(bid).iter().position(|o| o.price == price && o.seq == seq) {
            None => return Ok(None),
            Some(p) => p,
        };
        let o = m.book(bid)[pos].clone();
        if o.trader != *who {
            return Err("not_owner");
        }
        let cut = size.unwrap_or(o.lots).min(o.lots);
        if cut == o.lots {
            m.book_mut(bid).remove(pos);
        } else {
            m.book_mut(bid)[pos].lots -= cut;
        }
        evs.push(Ev::Reduce { seq, price, removed: cut, remaining: o.lots - cut });
        Ok(Some(self.unlock(m, &o, bid, cut)?))
    }
    fn cancel_list(&mut self, m: &mut Mkt, who: &Pubkey, ids: &[(bool, u64, u64)], claim: bool, evs: &mut Vec<Ev>) -> R<(u128, u128)> {
        let (mut q, mut b): (u128, u128) = (0, 0);
        for (bid, price, seq) in ids {
            match self.reduce_one(m, who, *bid, *price, *seq, None, evs) {
                Ok(Some((dq, db))) => {
                    q += dq as u128;
                    b += db as u128;
                }
                Ok(None) => {}
                Err("not_owner") => {}
                Err(e) => return Err(e),
            }
        }
        if claim && m.traders.contains_key(who) {
            let t = m.traders.get_mut(who).unwrap();
            t.qf -= q as u64;
            t.bf -= b as u64;
        } else if claim {
            return Ok((0, 0));
        }
        Ok((q, b))
    }
    fn up_to(&mut self, m: &mut Mkt, who: &Pubkey, u: &UpTo, claim: bool, evs: &mut Vec<Ev>) -> R<(u128, u128)> {
        let ids: Vec<(bool, u64, u64)> = m
            .book(u.bid)
            .iter()
            .take(u.search.map(|x| x as usize).unwrap_or(usize::MAX))
            .filter(|o| o.trader == *who)
            .filter(|o| match u.tick {
                None => true,
                Some(t) => {
                    if u.bid {
                        o.price >= t
                    } else {
                        o.price <= t
                    }
                }
            })
            .take(u.cancel.map(|x| x as usize).unwrap_or(usize::MAX))
            .map(|o| (u.bid, o.price, o.seq))
            .collect();
        self.cancel_list(m, who, &ids, claim, evs)
    }
    fn pay_out(&mut self, m: &Mkt, v: &[Pubkey; 4], q: u128, b: u128) -> R<()> {
        self.transfer(&v[3], &v[1], q * m.hdr.quote_lot as u128, true)?;
        self.transfer(&v[2], &v[0], b * m.hdr.base_lot as u128, true)
    }

    fn body(&mut self) -> R<()> {
        let ix = self.ix;
        let (tag, data) = ix.data.split_first().ok_or("malformed")?;
        let (tag, data) = (*tag, data);
        self.need(ALL_TAGS.contains(&tag), "malformed")?;
        if tag == T_LOG {
            let k = self.key(0)?;
            self.need(self.privs(&k).0, "missing_signature")?;
            let (la, _) = find_pda(&[b"log"], &phoenix_id());
            self.need(k == la, "wrong_log_authority")?;
            return Ok(());
        }
        self.need(ix.metas.len() >= 4, "accounts_missing")?;
        self.need(self.key(0)? == phoenix_id(), "wrong_program_account")?;
        let (la, _) = find_pda(&[b"log"], &phoenix_id());
        self.need(self.key(1)? == la, "wrong_log_authority")?;
        let mk = self.key(2)?;
        let ma = self.pre.get(&mk);
        self.need(ma.owner == phoenix_id(), "wrong_market_owner")?;
        if tag == T_INIT {
            return self.init(mk, ma, data);
        }
        self.need(ma.data.len() >= HDR && g64(&ma.data, 0) == MARKET_DISC, "not_a_market")?;
        let who = self.signer_at(3)?;
        self.p.market = Some(mk);
        self.p.signer = Some(who);
        let m0 = (self.pre_mkts)(&mk).ok_or("not_a_market")?;
        let mut m: Mkt = (*m0).clone();
        let mut evs: Vec<Ev> = vec![];
        self.writable(&mk)?;
        let st = m.hdr.status;
        let mut gone = false;
        let authority = m.hdr.authority;
        match tag {
            T_SWAP | T_SWAP_FF | T_LIMIT | T_LIMIT_FF => self.new_order(&mk, &mut m, &who, tag, data, &mut evs)?,
            T_MULTI | T_MULTI_FF => self.multi_order(&mk, &mut m, &who, tag, data, &mut evs)?,
            T_REDUCE | T_REDUCE_FF => {
                let (c, size) = dec_reduce(data).ok_or("malformed")?;
                let v = if tag == T_REDUCE {
                    self.need(status_reduce(st), "status")?;
                    Some(self.vault_ctx(4, &m, &who)?)
                } else {
                    None
                };
                self.need(m.traders.contains_key(&who), "not_registered")?;
                if side_of(c.seq) == c.bid {
                    if let Some((q, b)) = self.reduce_one(&mut m, &who, c.bid, c.price, c.seq, Some(size), &mut evs)? {
                        if let Some(v) = v {
                            let t = m.traders.get_mut(&who).unwrap();
                            t.qf -= q;
                            t.bf -= b;
                            self.pay_out(&m.clone(), &v, q as u128, b as u128)?;
                        }
                    }
                }
            }
            T_CALL | T_CALL_FF | T_CUPTO | T_CUPTO_FF | T_CMULTI | T_CMULTI_FF => {
                let ff = matches!(tag, T_CALL_FF | T_CUPTO_FF | T_CMULTI_FF);
                let v = if !ff {
                    self.need(status_reduce(st), "status")?;
                    Some(self.vault_ctx(4, &m, &who)?)
                } else {
                    None
                };
                let (q, b) = match tag {
                    T_CALL | T_CALL_FF => {
                        let mut ids = vec![];
                        for bid in [true, false] {
                            ids.extend(m.book(bid).iter().filter(|o| o.trader == who).map(|o| (bid, o.price, o.seq)));
                        }
                        self.cancel_list(&mut m, &who, &ids, !ff, &mut evs)?
                    }
                    T_CUPTO | T_CUPTO_FF => {
                        let u = UpTo::dec(data).ok_or("malformed")?;
                        self.up_to(&mut m, &who, &u, !ff, &mut evs)?
                    }
                    _ => {
                        let l = dec_ids(data).ok_or("malformed")?;
                        let ids: Vec<_> =
                            l.iter().filter(|c| side_of(c.seq) == c.bid).map(|c| (c.bid, c.price, c.seq)).collect();
                        if m.traders.contains_key(&who) {
                            self.cancel_list(&mut m, &who, &ids, !ff, &mut evs)?
                        } else {
                            (0, 0)
                        }
                    }
                };
                if let Some(v) = v {
                    self.pay_out(&m.clone(), &v, q, b)?;
                }
            }
            T_WITHDRAW => {
                self.need(status_reduce(st), "status")?;
                let v = self.vault_ctx(4, &m, &who)?;
                let mut r = Rd::new(data);
                let (q, b) = (r.opt64().ok_or("malformed")?, r.opt64().ok_or("malformed")?);
                r.end().ok_or("malformed")?;
                let t = m.traders.get_mut(&who).ok_or("not_registered")?;
                let (q, b) = (q.unwrap_or(t.qf).min(t.qf), b.unwrap_or(t.bf).min(t.bf));
                t.qf -= q;
                t.bf -= b;
                self.pay_out(&m.clone(), &v, q as u128, b as u128)?;
            }
            T_DEPOSIT => {
                self.need(status_post(st), "status")?;
                self.seat_at(4, &mk, &who, true)?;
                let v = self.vault_ctx(5, &m, &who)?;
                let mut r = Rd::new(data);
                let (q, b) = (r.u64().ok_or("malformed")?, r.u64().ok_or("malformed")?);
                r.end().ok_or("malformed")?;
                self.register(&mut m, &who)?;
                let t = m.traders.get_mut(&who).unwrap();
                t.qf = t.qf.checked_add(q).ok_or("overflow")?;
                t.bf = t.bf.checked_add(b).ok_or("overflow")?;
                self.transfer(&v[1], &v[3], q as u128 * m.hdr.quote_lot as u128, true)?;
                self.transfer(&v[0], &v[2], b as u128 * m.hdr.base_lot as u128, true)?;
            }
            T_REQSEAT | T_REQSEAT_AUTH => {
                let (payer, trader, at) = if tag == T_REQSEAT {
                    self.need(status_post(st), "status")?;
                    (who, who, 4)
                } else {
                    self.need(who == authority, "not_authority")?;
                    let p = self.signer_at(4)?;
                    self.writable(&p)?;
                    (p, self.key(5)?, 6)
                };
                let seat = self.key(at)?;
                let (addr, _) = find_pda(&[b"seat", mk.as_ref(), trader.as_ref()], &phoenix_id());
                self.need(seat == addr, "wrong_seat")?;
                self.need(self.key(at + 1)? == system_program::id(), "wrong_system_program")?;
                self.create(&payer, &seat, &phoenix_id(), mk_seat(&mk, &trader, 0))?;
            }
            T_SEATSTATUS => {
                self.need(who == authority, "not_authority")?;
                let k = self.key(4)?;
                let a = self.pre.get(&k);
                let s = parse_seat(&a.owner, &a.data).ok_or("not_a_seat")?;
                let (addr, _) = find_pda(&[b"seat", mk.as_ref(), s.trader.as_ref()], &phoenix_id());
                self.need(addr == k && s.market == mk, "wrong_seat")?;
                let mut r = Rd::new(data);
                let new = r.en(3).ok_or("malformed")? as u64;
                r.end().ok_or("malformed")?;
                if new != s.status {
                    match (s.status, new) {
                        (0, 1) => self.register(&mut m, &s.trader)?,
                        (1, 0) | (1, 2) | (0, 2) => {}
                        _ => return Err("seat_transition"),
                    }
                    self.writable(&k)?;
                    let mut d = (*a.data).clone();
                    d[72..80].copy_from_slice(&new.to_le_bytes());
                    self.p.accts.insert(k, Acct { data: Rc::new(d), ..a });
                }
            }
            T_EVICT | T_FORCE => {
                self.need(who == authority, "not_authority")?;
                let trader = self.key(4)?;
                self.seat_at(5, &mk, &trader, false)?;
                let v = self.vault_ctx(6, &m, &trader)?;
                if tag == T_EVICT {
                    let t = m.traders.get_mut(&trader).ok_or("not_registered")?;
                    let (q, b) = (t.qf, t.bf);
                    t.qf = 0;
                    t.bf = 0;
                    self.need(*t == Tr::default(), "has_orders")?;
                    m.traders.remove(&trader);
                    self.pay_out(&m.clone(), &v, q as u128, b as u128)?;
                } else {
                    let u = UpTo::dec(data).ok_or("malformed")?;
                    let (q, b) = self.up_to(&mut m, &trader, &u, true, &mut evs)?;
                    self.pay_out(&m.clone(), &v, q, b)?;
                }
            }
            T_CLAIM => {
                self.need(who == m.hdr.successor, "not_successor")?;
                m.hdr.authority = who;
            }
            T_NAME => {
                self.need(who == authority, "not_authority")?;
                let mut r = Rd::new(data);
                let k = r.key().ok_or("malformed")?;
                r.end().ok_or("malformed")?;
                m.hdr.successor = k;
            }
            T_STATUS => {
                self.need(who == authority, "not_authority")?;
                let mut r = Rd::new(data);
                let new = r.en(6).ok_or("malformed")? as u64;
                r.end().ok_or("malformed")?;
                self.need(transition_ok(st, new), "status_transition")?;
                if new == 5 {
                    self.need(m.bids.is_empty() && m.asks.is_empty(), "not_empty")?;
                    self.need(m.unclaimed == 0, "not_empty")?;
                    self.need(m.traders.is_empty(), "not_empty")?;
                    let rc = if self.ix.metas.len() > 4 { self.key(4)? } else { who };
                    self.need(rc != mk, "receiver")?;
                    self.writable(&rc)?;
                    let mut ra = self.acct(&rc);
                    ra.lamports += ma.lamports;
                    self.p.accts.insert(rc, ra);
                    self.p.accts.insert(mk, Acct::empty());
                    gone = true;
                } else {
                    m.hdr.status = new;
                }
            }
            T_COLLECT => {
                let r = m.hdr.fee_recipient;
                let to = self.token_acct(4, &m.hdr.quote.mint, &r, None)?;
                let qv = self.token_acct(5, &m.hdr.quote.mint, &m.hdr.quote.vault, Some(&m.hdr.quote.vault))?;
                self.need(self.key(6)? == spl_token::id(), "wrong_token_program")?;
                let fee = m.unclaimed;
                m.collected = m.collected.checked_add(fee).ok_or("overflow")?;
                m.unclaimed = 0;
                evs.push(Ev::Fee { lots: fee });
                self.transfer(&qv, &to, fee as u128 * m.hdr.quote_lot as u128, true)?;
            }
            T_FEEREC => {
                self.need(who == authority, "not_authority")?;
                let new = self.key(4)?;
                if m.unclaimed > 0 {
                    let ok = self
                        .key(5)
                        .map(|k| k == m.hdr.fee_recipient && self.privs(&k).0)
                        .unwrap_or(false);
                    self.need(ok, "old_recipient_consent")?;
                }
                m.hdr.fee_recipient = new;
            }
            _ => return Err("malformed"),
        }
        self.p.log =
            Some(LogExp { ix: tag, seq: m.hdr.msn, ts: self.ts, slot: self.slot, market: mk, signer: who, events: evs });
        if !gone {
            m.hdr.msn += 1;
            self.p.mkts.insert(mk, m);
        }
        Ok(())
    }

    fn init(&mut self, mk: Pubkey, ma: Acct, data: &[u8]) -> R<()> {
        self.need(ma.data.len() >= HDR && g64(&ma.data, 0) == 0 && g64(&ma.data, 8) == 0, "already_initialized")?;
        let who = self.signer_at(3)?;
        self.p.market = Some(mk);
        self.p.signer = Some(who);
        let (bm, qm, bv, qv) = (self.key(4)?, self.key(5)?, self.key(6)?, self.key(7)?);
        let mint = |k: &Pubkey| -> R<u8> {
            let a = self.pre.get(k);
            if a.owner == spl_token::id() && a.data.len() == 82 && a.data[45] == 1 {
                Ok(a.data[44])
            } else {
                Err("wrong_mint")
            }
        };
        let (bdec, qdec) = (mint(&bm)?, mint(&qm)?);
        for v in [&bv, &qv] {
            let a = self.pre.get(v);
            self.need(a.owner == system_program::id() && a.data.is_empty(), "vault_in_use")?;
        }
        self.need(self.key(8)? == system_program::id(), "wrong_system_program")?;
        self.need(self.key(9)? == spl_token::id(), "wrong_token_program")?;
        let p = InitP::dec(data).ok_or("malformed")?;
        self.need(p.fee_bps <= 10000, "bad_parameters")?;
        let raw = p.raw.unwrap_or(1);
        // a usable market has nonzero lots, ticks and units
        self.need(raw > 0 && p.tick > 0 && p.num_base_lots > 0 && p.num_quote_lots > 0, "bad_parameters")?;
        let p10 = |d: u8| 10u128.checked_pow(d as u32).filter(|x| *x <= u64::MAX as u128).ok_or("bad_parameters");
        let base_unit = fits(p10(bdec)? * raw as u128).ok_or("bad_parameters")?;
        let quote_unit = p10(qdec)? as u64;
        self.need(base_unit % p.num_base_lots == 0 && quote_unit % p.num_quote_lots == 0, "bad_parameters")?;
        let quote_lot = quote_unit / p.num_quote_lots;
        let tick_atoms = fits(quote_lot as u128 * p.tick as u128).ok_or("bad_parameters")?;
        self.need(p.tick % p.num_base_lots == 0, "bad_parameters")?;
        let (bva, bb) = find_pda(&[b"vault", mk.as_ref(), bm.as_ref()], &phoenix_id());
        let (qva, qb) = find_pda(&[b"vault", mk.as_ref(), qm.as_ref()], &phoenix_id());
        self.need(bva == bv && qva == qv && bm != qm, "wrong_vault")?;
        for (v, mint) in [(&bv, &bm), (&qv, &qm)] {
            self.create(&who, v, &spl_token::id(), mk_tok(mint, v, 0, 1))?;
        }
        self.need(CONFIGS.contains(&p.sizes), "unsupported_size")?;
        self.need(ma.data.len() >= market_len(p.sizes), "unsupported_size")?;
        self.need(g64(&ma.data, HDR + 256 + 16) == 0, "already_initialized")?;
        self.writable(&mk)?;
        let m = Mkt {
            hdr: Hdr {
                disc: MARKET_DISC,
                status: 2,
                sizes: p.sizes,
                base: TokP { dec: bdec as u32, bump: bb as u32, mint: bm, vault: bv },
                base_lot: base_unit / p.num_base_lots,
                quote: TokP { dec: qdec as u32, bump: qb as u32, mint: qm, vault: qv },
                quote_lot,
                tick_atoms,
                authority: who,
                fee_recipient: p.recipient,
                msn: 1,
                successor: who,
                raw,
            },
            b: p.num_base_lots,
            t: p.tick,
            oseq: 1,
            fee_bps: p.fee_bps as u64,
            collected: 0,
            unclaimed: 0,
            bids: vec![],
            asks: vec![],
            traders: BTreeMap::new(),
        };
        self.p.log =
            Some(LogExp { ix: T_INIT, seq: 0, ts: self.ts, slot: self.slot, market: mk, signer: who, events: vec![] });
        self.p.mkts.insert(mk, m);
        Ok(())
    }
}

pub fn enc_ret(ids: &[(u64, u64)]) -> Vec<u8> {
    let mut v = (ids.len() as u32).to_le_bytes().to_vec();
    for (p, s) in ids {
        v.extend_from_slice(&p.to_le_bytes());
        v.extend_from_slice(&s.to_le_bytes());
    }
    v
}

pub fn predict(pre: &Chain, ix: &Ix, all: &[Ix], pre_mkts: &dyn Fn(&Pubkey) -> Option<Rc<Mkt>>) -> Pred {
    let mut e = Env {
        pre,
        ix,
        all,
        pre_mkts,
        slot: pre.slot,
        ts: pre.ts,
        p: Pred {
            outcome: Outcome::Ok,
            reasons: vec![],
            ctx: 0,
            accts: BTreeMap::new(),
            mkts: BTreeMap::new(),
            log: None,
            ret: None,
            market: None,
            signer: None,
        },
    };
    let r = e.body();
    if e.p.outcome == Outcome::Any {
        return e.p;
    }
    if let Err(why) = r {
        // an order that may legitimately stop on intermediate overflow may also stop for `why`
        e.p.outcome = Outcome::Fail;
        e.p.reasons.push(why);
    }
    e.p
}
