//! The read-only views phoenix-v1 offers to clients, run for real on the raw account and compared
//! with what the independent reader sees.
use crate::parse::*;
use phoenix::program::dispatch_market::{get_market_size, load_with_dispatch};
use phoenix::program::{MarketHeader, MarketSizeParams};
use phoenix::quantities::WrapperU64;
use phoenix::state::markets::{OrderId, RestingOrder};
use phoenix::state::Side;
use solana_program::pubkey::Pubkey;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn ladder(m: &Mkt, bid: bool, levels: u64, slot: u64, ts: u64) -> Option<Vec<(u64, u64)>> {
    let mut v: Vec<(u64, u64)> = vec![];
    for o in m.book(bid) {
        if o.expired(slot, ts) {
            continue;
        }
        match v.last_mut() {
            Some((p, s)) if *p == o.price => *s = s.checked_add(o.lots)?,
            _ => {
                if v.len() as u64 == levels {
                    break;
                }
                v.push((o.price, o.lots));
            }
        }
    }
    Some(v)
}

pub fn check(data: &[u8], m: &Mkt, slot: u64, ts: u64, salt: u64) -> Vec<String> {
    let r = catch_unwind(AssertUnwindSafe(|| inner(data, m, slot, ts, salt)));
    match r {
        Ok(v) => v,
        Err(_) => vec!["reading the market panicked".into()],
    }
}

fn inner(data: &[u8], m: &Mkt, slot: u64, ts: u64, salt: u64) -> Vec<String> {
    let mut out = vec![];
    // an aligned private copy, as a client that fetched the account has
    let mut buf: Vec<u64> = vec![0; (data.len() + 7) / 8];
    let bytes: &mut [u8] = bytemuck::cast_slice_mut(&mut buf);
    bytes[..data.len()].copy_from_slice(data);
    let bytes = &bytes[..data.len()];
    let h: &MarketHeader = match bytemuck::try_from_bytes(&bytes[..std::mem::size_of::<MarketHeader>()]) {
        Ok(h) => h,
        Err(_) => return vec!["the header does not load".into()],
    };
    let e = &m.hdr;
    let hdr_ok = std::mem::size_of::<MarketHeader>() == HDR
        && h.status == e.status
        && h.market_size_params.bids_size == e.sizes.0
        && h.market_size_params.asks_size == e.sizes.1
        && h.market_size_params.num_seats == e.sizes.2
        && h.authority == e.authority
        && h.successor == e.successor
        && h.fee_recipient == e.fee_recipient
        && h.market_sequence_number == e.msn
        && h.raw_base_units_per_base_unit == e.raw
        && h.base_params.mint_key == e.base.mint
        && h.base_params.vault_key == e.base.vault
        && h.quote_params.mint_key == e.quote.mint
        && h.quote_params.vault_key == e.quote.vault
        && h.base_params.decimals == e.base.dec
        && h.quote_params.decimals == e.quote.dec;
    if !hdr_ok {
        out.push("the header reads differently from the account".into());
    }
    if h.get_base_lot_size().as_u64() != e.base_lot
        || h.get_quote_lot_size().as_u64() != e.quote_lot
        || h.get_tick_size_in_quote_atoms_per_base_unit().as_u64() != e.tick_atoms
    {
        out.push("a header getter disagrees with the account".into());
    }
    if let Some(x) = m.bids.first().or(m.asks.first()) {
        // a raw price of n ticks is n ticks
        if let Some(p) = x.price.checked_mul(e.tick_atoms) {
            if h.price_in_ticks(p) != x.price {
                out.push(format!("price_in_ticks({p}) = {} expected {}", h.price_in_ticks(p), x.price));
            }
            // prices between two ticks belong to the lower one
            if let Some(p) = p.checked_add(e.tick_atoms - 1) {
                if h.price_in_ticks(p) != x.price {
                    out.push(format!("price_in_ticks({p}) = {} expected {}", h.price_in_ticks(p), x.price));
                }
            }
        }
    }
    let sp = MarketSizeParams { bids_size: e.sizes.0, asks_size: e.sizes.1, num_seats: e.sizes.2 };
    match get_market_size(&sp) {
        Ok(n) if n + HDR == market_len(e.sizes) => {}
        x => out.push(format!("get_market_size = {x:?} expected {}", market_len(e.sizes) - HDR)),
    }
    let w = match load_with_dispatch(&sp, &bytes[HDR..]) {
        Ok(w) => w,
        Err(er) => {
            out.push(format!("the market does not load: {er:?}"));
            return out;
        }
    };
    let k = w.inner;
    for (name, got, want) in [
        ("taker fee", k.get_taker_fee_bps(), m.fee_bps),
        ("tick size", k.get_tick_size().as_u64(), m.t),
        ("base lots per unit", k.get_base_lots_per_base_unit().as_u64(), m.b),
        ("sequence number", k.get_sequence_number(), m.oseq),
        ("collected fees", k.get_collected_fee_amount().as_u64(), m.collected),
        ("uncollected fees", k.get_uncollected_fee_amount().as_u64(), m.unclaimed),
    ] {
        if got != want {
            out.push(format!("{name} reads {got} expected {want}"));
        }
    }
    // traders
    let n = k.get_registered_traders().len();
    if n != m.traders.len() {
        out.push(format!("{n} traders listed, {} registered", m.traders.len()));
    }
    for (i, (key, st)) in k.get_registered_traders().iter().enumerate() {
        let same = |t: &Tr, s: &phoenix::state::TraderState| {
            s.quote_lots_locked.as_u64() == t.ql
                && s.quote_lots_free.as_u64() == t.qf
                && s.base_lots_locked.as_u64() == t.bl
                && s.base_lots_free.as_u64() == t.bf
        };
        match m.traders.get(key) {
            None => out.push(format!("trader {key} is listed but not registered")),
            Some(t) => {
                let by_key = k.get_trader_state(key).map(|s| same(t, s)).unwrap_or(false);
                if !same(t, st) || !by_key {
                    out.push(format!("balances of {key} read differently"));
                }
                if i < 8 || (i as u64 ^ salt) % 16 == 0 {
                    let idx = k.get_trader_index(key).unwrap_or(0);
                    if idx == 0 || k.get_trader_id_from_index(idx) != *key || !same(t, k.get_trader_state_from_index(idx)) {
                        out.push(format!("the index of {key} does not lead back to it"));
                    }
                }
            }
        }
    }
    let nobody = Pubkey::new_from_array([0xee; 32]);
    if k.get_trader_state(&nobody).is_some() || k.get_trader_index(&nobody).is_some() {
        out.push("an unknown trader has a balance".into());
    }
    // books
    for bid in [true, false] {
        let side = if bid { Side::Bid } else { Side::Ask };
        let b = k.get_book(side);
        let want = m.book(bid);
        let mut i = 0;
        let mut bad = b.len() != want.len();
        for (id, o) in b.iter() {
            match want.get(i) {
                Some(x)
                    if id.price_in_ticks() == x.price
                        && id.order_sequence_number == x.seq
                        && o.size() == x.lots
                        && o.last_valid_slot() == (x.lvs != 0).then_some(x.lvs)
                        && o.last_valid_unix_timestamp_in_seconds() == (x.lvt != 0).then_some(x.lvt)
                        && o.is_expired(slot, ts) == x.expired(slot, ts)
                        && k.get_trader_id_from_index(o.trader_index as u32) == x.trader =>
                {
                    i += 1
                }
                _ => {
                    bad = true;
                    break;
                }
            }
        }
        // single orders found by their identifier
        for x in want.iter().skip((salt % 7) as usize).step_by(7).take(8) {
            let id = phoenix::state::markets::FIFOOrderId::new(phoenix::quantities::Ticks::new(x.price), x.seq);
            let not = phoenix::state::markets::FIFOOrderId::new(phoenix::quantities::Ticks::new(x.price), x.seq ^ (1 << 40));
            if !b.get(&id).map(|o| o.size() == x.lots).unwrap_or(false) || (b.get(&not).is_some() && !want.iter().any(|y| y.price == x.price && y.seq == x.seq ^ (1 << 40))) {
                out.push(format!("looking up order {} at {} finds something else", x.seq, x.price));
            }
        }
        if bad {
            out.push(format!("the {} listing differs from the account at {i}", if bid { "bid" } else { "ask" }));
        }
        // edges of this side: the deadlines themselves, one before and one after
        let mut clocks = vec![(Some(slot), Some(ts)), (None, None), (Some(slot), None), (None, Some(ts))];
        if let Some(o) = want.iter().filter(|o| o.lvs != 0 || o.lvt != 0).nth((salt % 3) as usize) {
            clocks.push((Some(o.lvs), Some(o.lvt)));
            clocks.push((Some(o.lvs.saturating_add(1)), Some(0)));
            clocks.push((Some(0), Some(o.lvt.saturating_add(1))));
        }
        for (s, t) in clocks {
            // depths a client may ask for: everything, a few, none, and more than 8, 16 or 32 bits hold
            for levels in [u64::MAX, 1 + salt % 4, 0, (1 << (8 << (salt % 3))) + salt % 4] {
                let exp = match (
                    ladder(m, true, levels, s.unwrap_or(0), t.unwrap_or(0)),
                    ladder(m, false, levels, s.unwrap_or(0), t.unwrap_or(0)),
                ) {
                    (Some(a), Some(b)) => (a, b),
                    _ => continue, // sizes beyond 64 bits
                };
                let l = k.get_ladder_with_expiration(levels, s, t);
                let f = |v: &Vec<phoenix::state::markets::LadderOrder>| {
                    v.iter().map(|x| (x.price_in_ticks, x.size_in_base_lots)).collect::<Vec<_>>()
                };
                if (f(&l.bids), f(&l.asks)) != exp {
                    out.push(format!("ladder of {levels} levels at {s:?},{t:?} differs from the book"));
                }
                let l = k.get_typed_ladder_with_expiration(levels, s, t);
                let f = |v: &Vec<phoenix::state::markets::TypedLadderOrder>| {
                    v.iter().map(|x| (x.price_in_ticks.as_u64(), x.size_in_base_lots.as_u64())).collect::<Vec<_>>()
                };
                if (f(&l.bids), f(&l.asks)) != exp {
                    out.push(format!("typed ladder of {levels} levels at {s:?},{t:?} differs from the book"));
                }
                if s.is_none() && t.is_none() {
                    let l = k.get_ladder(levels);
                    let f = |v: &Vec<phoenix::state::markets::LadderOrder>| {
                        v.iter().map(|x| (x.price_in_ticks, x.size_in_base_lots)).collect::<Vec<_>>()
                    };
                    let g = k.get_typed_ladder(levels);
                    let f2 = |v: &Vec<phoenix::state::markets::TypedLadderOrder>| {
                        v.iter().map(|x| (x.price_in_ticks.as_u64(), x.size_in_base_lots.as_u64())).collect::<Vec<_>>()
                    };
                    if (f(&l.bids), f(&l.asks)) != exp || (f2(&g.bids), f2(&g.asks)) != exp {
                        out.push(format!("unfiltered ladder of {levels} levels differs from the book"));
                    }
                }
            }
        }
    }
    if bytes != data {
        out.push("reading the market changed it".into());
    }
    out.truncate(4);
    out
}
