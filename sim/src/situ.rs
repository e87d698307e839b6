//! Named situations one instruction can meet. They decide nothing: their counts show, in the evidence, how
//! far the search reaches into the corners where a rare fault would hide.
use crate::chain::{Chain, Ix};
use crate::model::Pred;
use crate::parse::*;
use crate::wire::*;

pub const ALL: &[&str] = &[
    "fills>=2", "fills>=4", "fills>=8", "fills>=16", "fills>=32", "fills>=64", "price levels>=2", "price levels>=4",
    "makers>=2", "makers>=4", "events>=16", "events>=33", "events>=65", "log batches>=2", "log batches>=3", "log batches>=5",
    "expired met>=2", "expired met>=8", "expired met after a fill", "expired met, then a fill", "expired met, no fill",
    "own order met before a fill", "own order met after a fill", "own orders met>=2", "own order reduced, not removed",
    "own expired order met", "maker left with a part", "rested after a fill", "rested and evicted after a fill",
    "rested with expiry after a fill", "remainder dropped", "taker unfilled", "taker partly filled",
    "fee rate zero, matched", "fee rate 100%, matched", "fee rounded up", "fee exactly whole",
    "price one", "price >= 2^32", "price largest", "lots >= 2^32", "quote moved >= 2^32", "quote moved >= 2^53",
    "slot >= 2^32", "time >= 2^32", "order number >= 2^32", "order number >= 2^62", "client id >= 2^64", "both deadlines",
    "own side >= 64 deep", "own side >= 256 deep", "other side >= 64 deep", "trader has >= 16 orders", "trader has >= 64 orders",
    "traders >= 64", "placed best", "placed in the middle", "placed worst", "joined another's level", "joined own level",
    "evicted own", "evicted expired", "evicted another's, tied", "evicted a bid", "evicted an ask",
    "cancelled>=2", "cancelled>=8", "cancelled>=32", "cancelled>=64", "cancelled both sides", "cancelled between others'",
    "cancelled expired", "cancel list with duplicates", "cancel list with unknown and valid", "cancel list with foreign and valid",
    "up-to: stopped by count", "up-to: stopped by search", "up-to: tick exactly at a level", "up-to: nothing in reach",
    "reduced by part", "reduced by exactly all", "reduced by more", "reduced by zero", "reduced expired",
    "withdrew both", "withdrew part", "withdrew more than free", "withdrew with nothing free", "withdrew zero",
    "deposited one token", "deposited both", "deposited zero",
    "packet>=8", "packet>=30", "packet one side empty", "packet levels merged", "packet some skipped, some placed",
    "packet amended", "packet with deadlines", "packet with expired entry", "packet evicting", "packet over own orders",
    "wallet paid to the last atom", "free funds paid to the last lot", "free funds paid part, wallet the rest", "free funds paid all",
    "evicted seat with money left", "evicted seat with nothing",
    "fees swept", "fees swept, none due", "fee recipient is a trader of the market",
    "authority trades", "successor trades", "market with resting orders closed", "paused to active", "paused to closed",
    "closed to paused", "closed to post-only", "post-only to closed", "closed to tombstoned", "active to paused",
    "active to post-only", "same status again", "orders resting while paused", "resting order over a deadline",
    "dust: quote worth less than a lot of fee", "bid and ask of one trader", "one lot left",
    "market size not the smallest", "raw units > 1", "base lots per unit 1", "tick is several base lots", "six-digit prices",
];

pub fn of(tag: u8, ix: &Ix, pre: &Chain, m0: Option<&Mkt>, m1: Option<&Mkt>, p: &Pred, batches: usize, mut hit: impl FnMut(&'static str)) {
    let m0 = match m0 {
        Some(m) => m,
        None => return,
    };
    let m1 = m1.unwrap_or(m0);
    let signer = match ix.metas.get(3) {
        Some(m) => m.key,
        None => return,
    };
    let evs: &[Ev] = p.log.as_ref().map(|l| &l.events[..]).unwrap_or(&[]);
    let pl = ix.data.get(1..).unwrap_or(&[]);
    let placing = matches!(tag, T_SWAP | T_SWAP_FF | T_LIMIT | T_LIMIT_FF | T_MULTI | T_MULTI_FF);
    let pk = if matches!(tag, T_SWAP | T_SWAP_FF | T_LIMIT | T_LIMIT_FF) { Packet::dec(pl) } else { None };
    let old = |seq: u64, price: u64| m0.book(seq >> 63 == 1).iter().find(|o| o.seq == seq && o.price == price);
    let dead = |o: &Order| (o.lvs != 0 && o.lvs < pre.slot) || (o.lvt != 0 && o.lvt < pre.ts as u64);
    let at_least = |n: usize, v: &[(usize, &'static str)], hit: &mut dyn FnMut(&'static str)| {
        for (k, s) in v {
            if n >= *k {
                hit(s)
            }
        }
    };
    at_least(evs.len(), &[(16, "events>=16"), (33, "events>=33"), (65, "events>=65")], &mut hit);
    at_least(batches, &[(2, "log batches>=2"), (3, "log batches>=3"), (5, "log batches>=5")], &mut hit);
    if pre.slot >> 32 != 0 {
        hit("slot >= 2^32")
    }
    if pre.ts as u64 >> 32 != 0 {
        hit("time >= 2^32")
    }
    if m0.oseq >> 32 != 0 {
        hit("order number >= 2^32")
    }
    if m0.oseq >> 62 != 0 {
        hit("order number >= 2^62")
    }
    if m0.traders.len() >= 64 {
        hit("traders >= 64")
    }
    if m0.hdr.sizes != CONFIGS[0] {
        hit("market size not the smallest")
    }
    if m0.hdr.raw > 1 {
        hit("raw units > 1")
    }
    if m0.b == 1 {
        hit("base lots per unit 1")
    }
    if m0.t > m0.b {
        hit("tick is several base lots")
    }
    let mine = |b: bool| m0.book(b).iter().filter(|o| o.trader == signer).count();
    let (mb, ma) = (mine(true), mine(false));
    at_least(mb + ma, &[(16, "trader has >= 16 orders"), (64, "trader has >= 64 orders")], &mut hit);
    if mb > 0 && ma > 0 {
        hit("bid and ask of one trader")
    }
    if m0.bids.iter().chain(&m0.asks).any(|o| dead(o)) {
        hit("resting order over a deadline")
    }
    if m0.hdr.status == 3 && !(m0.bids.is_empty() && m0.asks.is_empty()) {
        hit("orders resting while paused")
    }
    if m0.traders.contains_key(&m0.hdr.fee_recipient) {
        hit("fee recipient is a trader of the market")
    }
    if placing && signer == m0.hdr.authority {
        hit("authority trades")
    }
    if placing && signer == m0.hdr.successor && m0.hdr.successor != m0.hdr.authority {
        hit("successor trades")
    }
    // ---------------------------------------------------------------- matching
    let mut fills = 0;
    let (mut own, mut exp, mut reduces) = (0, 0, 0);
    let mut levels = std::collections::BTreeSet::new();
    let mut makers = std::collections::BTreeSet::new();
    let (mut placed, mut evicted) = (0, 0);
    let mut after_exp = false;
    let mut after_own = false;
    for e in evs {
        match e {
            Ev::Fill { maker, price, filled, remaining, .. } => {
                fills += 1;
                levels.insert(*price);
                makers.insert(*maker);
                if *remaining > 0 {
                    hit("maker left with a part")
                }
                if *remaining == 1 {
                    hit("one lot left")
                }
                if after_exp {
                    hit("expired met, then a fill")
                }
                if after_own {
                    hit("own order met before a fill")
                }
                if *price == 1 {
                    hit("price one")
                }
                if *filled >> 32 != 0 {
                    hit("lots >= 2^32")
                }
            }
            Ev::Expired { seq, price, .. } => {
                exp += 1;
                after_exp = true;
                if fills > 0 {
                    hit("expired met after a fill")
                }
                if old(*seq, *price).map(|o| o.trader == signer).unwrap_or(false) {
                    hit("own expired order met")
                }
            }
            Ev::Reduce { seq, price, remaining, .. } => {
                reduces += 1;
                if placing {
                    own += 1;
                    after_own = true;
                    if fills > 0 {
                        hit("own order met after a fill")
                    }
                    if *remaining > 0 {
                        hit("own order reduced, not removed")
                    }
                } else if old(*seq, *price).map(|o| dead(o)).unwrap_or(false) {
                    hit(if matches!(tag, T_REDUCE | T_REDUCE_FF) { "reduced expired" } else { "cancelled expired" })
                }
            }
            Ev::Place { seq, price, lots, cid } => {
                placed += 1;
                if *cid >> 64 != 0 {
                    hit("client id >= 2^64")
                }
                if *price >> 32 != 0 {
                    hit("price >= 2^32")
                }
                if *price == u64::MAX {
                    hit("price largest")
                }
                if *price == 1 {
                    hit("price one")
                }
                if *price >= 100_000 {
                    hit("six-digit prices")
                }
                if *lots >> 32 != 0 {
                    hit("lots >= 2^32")
                }
                let b = m1.book(seq >> 63 == 1);
                if let Some(i) = b.iter().position(|o| o.seq == *seq && o.price == *price) {
                    if b.len() > 1 {
                        hit(if i == 0 { "placed best" } else if i + 1 == b.len() { "placed worst" } else { "placed in the middle" });
                    }
                    let lvl: Vec<_> = b.iter().filter(|o| o.price == *price && o.seq != *seq).collect();
                    if lvl.iter().any(|o| o.trader != signer) {
                        hit("joined another's level")
                    }
                    if lvl.iter().any(|o| o.trader == signer) {
                        hit("joined own level")
                    }
                }
            }
            Ev::Evict { maker, seq, price, .. } => {
                evicted += 1;
                let bid = seq >> 63 == 1;
                hit(if bid { "evicted a bid" } else { "evicted an ask" });
                if *maker == signer {
                    hit("evicted own")
                } else if m0.book(bid).iter().filter(|o| o.price == *price).count() > 1 {
                    hit("evicted another's, tied")
                }
                if old(*seq, *price).map(|o| dead(o)).unwrap_or(false) {
                    hit("evicted expired")
                }
            }
            Ev::Summary { base, quote, fee, .. } => {
                if *base > 0 {
                    match m0.fee_bps {
                        0 => hit("fee rate zero, matched"),
                        10000 => hit("fee rate 100%, matched"),
                        f => {
                            let pure = if pk.as_ref().map(|p| p.bid).unwrap_or(false) { quote.saturating_sub(*fee) } else { quote.saturating_add(*fee) };
                            hit(if pure as u128 * f as u128 % 10000 == 0 { "fee exactly whole" } else { "fee rounded up" });
                            if (pure as u128 * f as u128) < 10000 {
                                hit("dust: quote worth less than a lot of fee")
                            }
                        }
                    }
                }
                if *quote >> 32 != 0 {
                    hit("quote moved >= 2^32")
                }
                if *quote >> 53 != 0 {
                    hit("quote moved >= 2^53")
                }
                if let Some(p) = &pk {
                    if p.kind == Kind::Ioc {
                        if *base == 0 {
                            hit("taker unfilled")
                        } else if p.base > *base {
                            hit("taker partly filled")
                        }
                    } else if p.base > *base && !evs.iter().any(|e| matches!(e, Ev::Place { .. })) {
                        hit("remainder dropped")
                    }
                }
            }
            Ev::Tif { slot, ts, .. } => {
                if *slot != 0 && *ts != 0 {
                    hit("both deadlines")
                }
                if fills > 0 {
                    hit("rested with expiry after a fill")
                }
            }
            Ev::Fee { lots } => hit(if *lots == 0 { "fees swept, none due" } else { "fees swept" }),
        }
    }
    at_least(
        fills,
        &[(2, "fills>=2"), (4, "fills>=4"), (8, "fills>=8"), (16, "fills>=16"), (32, "fills>=32"), (64, "fills>=64")],
        &mut hit,
    );
    at_least(levels.len(), &[(2, "price levels>=2"), (4, "price levels>=4")], &mut hit);
    at_least(makers.len(), &[(2, "makers>=2"), (4, "makers>=4")], &mut hit);
    at_least(exp, &[(2, "expired met>=2"), (8, "expired met>=8")], &mut hit);
    at_least(own, &[(2, "own orders met>=2")], &mut hit);
    if exp > 0 && fills == 0 {
        hit("expired met, no fill")
    }
    if fills > 0 && placed > 0 {
        hit("rested after a fill");
        if evicted > 0 {
            hit("rested and evicted after a fill")
        }
    }
    if placing {
        if let Some(p) = &pk {
            at_least(m0.book(p.bid).len(), &[(64, "own side >= 64 deep"), (256, "own side >= 256 deep")], &mut hit);
            at_least(m0.book(!p.bid).len(), &[(64, "other side >= 64 deep")], &mut hit);
        }
        // how it was paid for
        let (a, b) = (m0.traders.get(&signer), m1.traders.get(&signer));
        if let (Some(a), Some(b)) = (a, b) {
            for (f0, f1, mint) in [(a.qf, b.qf, m0.hdr.quote.mint), (a.bf, b.bf, m0.hdr.base.mint)] {
                if f1 < f0 {
                    if f1 == 0 {
                        hit("free funds paid to the last lot")
                    }
                    let paid = ix.metas.iter().any(|m| {
                        let x = pre.get(&m.key);
                        match (parse_tok(&x.owner, &x.data), p.accts.get(&m.key)) {
                            (Some(t), Some(n)) => {
                                t.mint == mint && t.owner == signer && parse_tok(&n.owner, &n.data).map(|n| n.amount < t.amount).unwrap_or(false)
                            }
                            _ => false,
                        }
                    });
                    hit(if paid { "free funds paid part, wallet the rest" } else { "free funds paid all" });
                }
            }
        }
        for m in ix.metas.iter() {
            let x = pre.get(&m.key);
            if let (Some(t), Some(n)) = (parse_tok(&x.owner, &x.data), p.accts.get(&m.key)) {
                if t.owner == signer && t.amount > 0 && parse_tok(&n.owner, &n.data).map(|n| n.amount == 0).unwrap_or(false) {
                    hit("wallet paid to the last atom")
                }
            }
        }
    }
    // ---------------------------------------------------------------- the rest
    match tag {
        T_REDUCE | T_REDUCE_FF => {
            if let Some((id, n)) = dec_reduce(pl) {
                if let Some(o) = old(id.seq, id.price) {
                    if o.trader == signer {
                        hit(match n {
                            0 => "reduced by zero",
                            n if n < o.lots => "reduced by part",
                            n if n == o.lots => "reduced by exactly all",
                            _ => "reduced by more",
                        })
                    }
                }
            }
        }
        T_CALL | T_CALL_FF | T_CUPTO | T_CUPTO_FF | T_CMULTI | T_CMULTI_FF | T_FORCE => {
            at_least(
                reduces,
                &[(2, "cancelled>=2"), (8, "cancelled>=8"), (32, "cancelled>=32"), (64, "cancelled>=64")],
                &mut hit,
            );
            let side = |b: bool| evs.iter().any(|e| matches!(e, Ev::Reduce { seq, .. } if (seq >> 63 == 1) == b));
            if side(true) && side(false) {
                hit("cancelled both sides");
            }
            for b in [true, false] {
                let gone: Vec<usize> = m0
                    .book(b)
                    .iter()
                    .enumerate()
                    .filter(|(_, o)| evs.iter().any(|e| matches!(e, Ev::Reduce { seq, .. } if *seq == o.seq)))
                    .map(|x| x.0)
                    .collect();
                if gone.len() > 1 && gone[gone.len() - 1] - gone[0] >= gone.len() {
                    hit("cancelled between others'")
                }
            }
            if let (true, Some(l)) = (matches!(tag, T_CMULTI | T_CMULTI_FF), dec_ids(pl)) {
                let valid = |c: &CancelId| old(c.seq, c.price).map(|o| o.trader == signer).unwrap_or(false);
                let some = l.iter().any(valid);
                for (i, c) in l.iter().enumerate() {
                    if l[..i].iter().any(|d| d.seq == c.seq && d.price == c.price) && valid(c) {
                        hit("cancel list with duplicates")
                    }
                    match old(c.seq, c.price) {
                        None if some => hit("cancel list with unknown and valid"),
                        Some(o) if some && o.trader != signer => hit("cancel list with foreign and valid"),
                        _ => {}
                    }
                }
            }
            if let (true, Some(u)) = (matches!(tag, T_CUPTO | T_CUPTO_FF), UpTo::dec(pl)) {
                let left = m1.book(u.bid).iter().filter(|o| o.trader == signer).count();
                if left > 0 && u.cancel.map(|c| c as usize == reduces && c > 0).unwrap_or(false) {
                    hit("up-to: stopped by count")
                }
                if left > 0 && u.search.map(|c| (c as usize) < m0.book(u.bid).len()).unwrap_or(false) {
                    hit("up-to: stopped by search")
                }
                if m0.book(u.bid).iter().any(|o| Some(o.price) == u.tick && o.trader == signer) {
                    hit("up-to: tick exactly at a level")
                }
                if reduces == 0 {
                    hit("up-to: nothing in reach")
                }
            }
        }
        T_WITHDRAW => {
            let mut r = Rd::new(pl);
            let (q, b) = (r.opt64().flatten(), r.opt64().flatten());
            if let Some(t) = m0.traders.get(&signer) {
                if t.qf > 0 && t.bf > 0 && q.is_none() && b.is_none() {
                    hit("withdrew both")
                }
                if q.map(|x| x > 0 && x < t.qf).unwrap_or(false) || b.map(|x| x > 0 && x < t.bf).unwrap_or(false) {
                    hit("withdrew part")
                }
                if q.map(|x| x > t.qf).unwrap_or(false) || b.map(|x| x > t.bf).unwrap_or(false) {
                    hit("withdrew more than free")
                }
                if t.qf == 0 && t.bf == 0 {
                    hit("withdrew with nothing free")
                }
                if q == Some(0) || b == Some(0) {
                    hit("withdrew zero")
                }
            }
        }
        T_DEPOSIT => {
            let mut r = Rd::new(pl);
            if let (Some(q), Some(b)) = (r.u64(), r.u64()) {
                hit(match (q > 0, b > 0) {
                    (true, true) => "deposited both",
                    (false, false) => "deposited zero",
                    _ => "deposited one token",
                })
            }
        }
        T_MULTI | T_MULTI_FF => {
            if let Some(p) = Multi::dec(pl) {
                let n = p.bids.len() + p.asks.len();
                at_least(n, &[(8, "packet>=8"), (30, "packet>=30")], &mut hit);
                if p.bids.is_empty() != p.asks.is_empty() {
                    hit("packet one side empty")
                }
                let all: Vec<_> = p.bids.iter().chain(&p.asks).collect();
                if placed > 0 && placed < n && p.skip() {
                    hit("packet some skipped, some placed")
                }
                if p.ctx_merged() {
                    hit("packet levels merged")
                }
                if evs.iter().any(|e| matches!(e, Ev::Place { price, .. } if !all.iter().any(|c| c.price == *price))) {
                    hit("packet amended")
                }
                if all.iter().any(|c| c.lvs.is_some() || c.lvt.is_some()) {
                    hit("packet with deadlines")
                }
                if all.iter().any(|c| c.lvs.map(|s| s < pre.slot).unwrap_or(false) || c.lvt.map(|t| t < pre.ts as u64).unwrap_or(false)) {
                    hit("packet with expired entry")
                }
                if evicted > 0 {
                    hit("packet evicting")
                }
                if mb + ma > 0 {
                    hit("packet over own orders")
                }
            }
        }
        T_EVICT => {
            if let Some(m) = ix.metas.get(4) {
                if let Some(t) = m0.traders.get(&m.key) {
                    hit(if t.qf + t.bf > 0 { "evicted seat with money left" } else { "evicted seat with nothing" })
                }
            }
        }
        T_STATUS => {
            if m1.hdr.status == 4 && m0.hdr.status != 4 && !(m0.bids.is_empty() && m0.asks.is_empty()) {
                hit("market with resting orders closed")
            }
            match (m0.hdr.status, pl.first().copied().unwrap_or(0)) {
                (3, 1) => hit("paused to active"),
                (3, 4) => hit("paused to closed"),
                (4, 3) => hit("closed to paused"),
                (4, 2) => hit("closed to post-only"),
                (2, 4) => hit("post-only to closed"),
                (4, 5) => hit("closed to tombstoned"),
                (1, 3) => hit("active to paused"),
                (1, 2) => hit("active to post-only"),
                (a, b) if a == b as u64 => hit("same status again"),
                _ => {}
            }
        }
        _ => {}
    }
}

impl Multi {
    fn ctx_merged(&self) -> bool {
        let dup = |v: &Vec<Cond>| v.iter().enumerate().any(|(i, c)| v[..i].iter().any(|d| d.price == c.price));
        dup(&self.bids) || dup(&self.asks)
    }
}
