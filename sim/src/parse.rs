//! Independent reader of raw market, seat and token accounts.
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;

pub const MARKET_DISC: u64 = 8167313896524341111;
pub const SEAT_DISC: u64 = 2002603505298356104;
pub const HDR: usize = 576;

#[derive(Clone, Debug, PartialEq)]
pub struct TokP {
    pub dec: u32,
    pub bump: u32,
    pub mint: Pubkey,
    pub vault: Pubkey,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Hdr {
    pub disc: u64,
    pub status: u64,
    pub sizes: (u64, u64, u64),
    pub base: TokP,
    pub base_lot: u64,
    pub quote: TokP,
    pub quote_lot: u64,
    pub tick_atoms: u64,
    pub authority: Pubkey,
    pub fee_recipient: Pubkey,
    pub msn: u64,
    pub successor: Pubkey,
    pub raw: u32,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Order {
    pub price: u64,
    pub seq: u64,
    pub trader: Pubkey,
    pub lots: u64,
    pub lvs: u64,
    pub lvt: u64,
}
impl Order {
    pub fn expired(&self, slot: u64, ts: u64) -> bool {
        (self.lvs != 0 && self.lvs < slot) || (self.lvt != 0 && self.lvt < ts)
    }
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Tr {
    pub ql: u64,
    pub qf: u64,
    pub bl: u64,
    pub bf: u64,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Mkt {
    pub hdr: Hdr,
    pub b: u64,
    pub t: u64,
    pub oseq: u64,
    pub fee_bps: u64,
    pub collected: u64,
    pub unclaimed: u64,
    pub bids: Vec<Order>,
    pub asks: Vec<Order>,
    pub traders: BTreeMap<Pubkey, Tr>,
}
impl Mkt {
    pub fn book(&self, bid: bool) -> &Vec<Order> { if bid { &self.bids } else { &self.asks } }
    pub fn book_mut(&mut self, bid: bool) -> &mut Vec<Order> { if bid { &mut self.bids } else { &mut self.asks } }
    pub fn cap(&self, bid: bool) -> u64 { if bid { self.hdr.sizes.0 } else { self.hdr.sizes.1 } }
}

pub fn g32(d: &[u8], o: usize) -> u32 { u32::from_le_bytes(d[o..o + 4].try_into().unwrap()) }
pub fn g64(d: &[u8], o: usize) -> u64 { u64::from_le_bytes(d[o..o + 8].try_into().unwrap()) }
pub fn gkey(d: &[u8], o: usize) -> Pubkey { Pubkey::new_from_array(d[o..o + 32].try_into().unwrap()) }

pub fn is_market(d: &[u8]) -> bool { d.len() > HDR && g64(d, 0) == MARKET_DISC }

pub fn parse_hdr(d: &[u8]) -> Hdr {
    let tok = |o: usize| TokP { dec: g32(d, o), bump: g32(d, o + 4), mint: gkey(d, o + 8), vault: gkey(d, o + 40) };
    Hdr {
        disc: g64(d, 0),
        status: g64(d, 8),
        sizes: (g64(d, 16), g64(d, 24), g64(d, 32)),
        base: tok(40),
        base_lot: g64(d, 112),
        quote: tok(120),
        quote_lot: g64(d, 192),
        tick_atoms: g64(d, 200),
        authority: gkey(d, 208),
        fee_recipient: gkey(d, 240),
        msn: g64(d, 272),
        successor: gkey(d, 280),
        raw: g32(d, 312),
    }
}

pub const CONFIGS: [(u64, u64, u64); 12] = [
    (512, 512, 128),
    (512, 512, 1025),
    (512, 512, 1153),
    (1024, 1024, 128),
    (1024, 1024, 2049),
    (1024, 1024, 2177),
    (2048, 2048, 128),
    (2048, 2048, 4097),
    (2048, 2048, 4225),
    (4096, 4096, 128),
    (4096, 4096, 8193),
    (4096, 4096, 8321),
];
const ORDER_NODE: usize = 16 + 16 + 32;
const TRADER_NODE: usize = 16 + 32 + 96;
pub fn market_len(s: (u64, u64, u64)) -> usize {
    // forged headers may claim any size; no account holds that much
    let n = |x: u64| x.min(1 << 40) as usize;
    HDR + 256
        + 48
        + (16 + 16 + ORDER_NODE * n(s.0))
        + (16 + 16 + ORDER_NODE * n(s.1))
        + (16 + 16 + TRADER_NODE * n(s.2))
}

pub fn traders_at(s: (u64, u64, u64)) -> usize {
    HDR + 256 + 48 + 32 + ORDER_NODE * s.0.min(1 << 40) as usize + 32 + ORDER_NODE * s.1.min(1 << 40) as usize
}

/// In-order walk of a red-black tree; returns the node indices.
fn walk(d: &[u8], base: usize, cap: usize, node: usize) -> Result<Vec<u32>, String> {
    let root = g32(d, base);
    let size = g64(d, base + 16) as usize;
    if size > cap {
        return Err(format!("tree size {size} exceeds capacity {cap}"));
    }
    let reg = |i: u32, r: usize| -> Result<u32, String> {
        if i == 0 || i as usize > cap {
            return Err(format!("node index {i} out of range"));
        }
        Ok(g32(d, base + 32 + (i as usize - 1) * node + r * 4))
    };
    let mut out = vec![];
    let mut stack: Vec<u32> = vec![];
    let mut cur = root;
    loop {
        while cur != 0 {
            stack.push(cur);
            if stack.len() > cap {
                return Err("tree has a cycle".into());
            }
            cur = reg(cur, 0)?;
        }
        let n = match stack.pop() {
            None => break,
            Some(n) => n,
        };
        out.push(n);
        if out.len() > cap {
            return Err("tree has a cycle".into());
        }
        cur = reg(n, 1)?;
    }
    if out.len() != size {
        return Err(format!("tree reaches {} nodes but reports size {size}", out.len()));
    }
    Ok(out)
}

pub fn parse_market(d: &[u8]) -> Result<Mkt, String> {
    if !is_market(d) {
        return Err("not a market".into());
    }
    let hdr = parse_hdr(d);
    if !CONFIGS.contains(&hdr.sizes) {
        return Err(format!("unsupported size {:?}", hdr.sizes));
    }
    if d.len() < market_len(hdr.sizes) {
        return Err("market account too short".into());
    }
    let o = HDR + 256;
    let bids_at = o + 48;
    let asks_at = bids_at + 32 + ORDER_NODE * hdr.sizes.0 as usize;
    let tr_at = asks_at + 32 + ORDER_NODE * hdr.sizes.1 as usize;
    let mut traders = BTreeMap::new();
    let mut by_index: std::collections::HashMap<u64, Pubkey> = Default::default();
    let mut last: Option<Pubkey> = None;
    for i in walk(d, tr_at, hdr.sizes.2 as usize, TRADER_NODE).map_err(|e| format!("traders: {e}"))? {
        let p = tr_at + 32 + (i as usize - 1) * TRADER_NODE + 16;
        let k = gkey(d, p);
        if last.map(|l| l >= k).unwrap_or(false) {
            return Err("trader tree out of order".into());
        }
        last = Some(k);
        traders.insert(k, Tr { ql: g64(d, p + 32), qf: g64(d, p + 40), bl: g64(d, p + 48), bf: g64(d, p + 56) });
        by_index.insert(i as u64, k);
    }
    let side = |at: usize, cap: u64, name: &str| -> Result<Vec<Order>, String> {
        let mut v = vec![];
        for i in walk(d, at, cap as usize, ORDER_NODE).map_err(|e| format!("{name}: {e}"))? {
            let p = at + 32 + (i as usize - 1) * ORDER_NODE + 16;
            let ti = g64(d, p + 16);
            let trader = *by_index.get(&ti).ok_or(format!("{name}: order of unregistered trader index {ti}"))?;
            v.push(Order {
                price: g64(d, p),
                seq: g64(d, p + 8),
                trader,
                lots: g64(d, p + 24),
                lvs: g64(d, p + 32),
                lvt: g64(d, p + 40),
            });
        }
        Ok(v)
    };
    let bids = side(bids_at, hdr.sizes.0, "bids")?;
    let asks = side(asks_at, hdr.sizes.1, "asks")?;
    Ok(Mkt {
        b: g64(d, o),
        t: g64(d, o + 8),
        oseq: g64(d, o + 16),
        fee_bps: g64(d, o + 24),
        collected: g64(d, o + 32),
        unclaimed: g64(d, o + 40),
        bids,
        asks,
        traders,
        hdr,
    })
}

pub fn aged(d: &[u8], oseq: u64, msn: u64, collected: u64) -> Vec<u8> {
    let mut v = d.to_vec();
    for (at, x) in [(272, msn), (HDR + 256 + 16, oseq), (HDR + 256 + 32, collected)] {
        v[at..at + 8].copy_from_slice(&x.to_le_bytes());
    }
    v
}

#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub mint: Pubkey,
    pub owner: Pubkey,
    pub amount: u64,
    pub state: u8,
}
pub fn parse_tok(owner: &Pubkey, d: &[u8]) -> Option<Tok> {
    if *owner != spl_token::id() || d.len() != 165 {
        return None;
    }
    Some(Tok { mint: gkey(d, 0), owner: gkey(d, 32), amount: g64(d, 64), state: d[108] })
}
pub fn mk_tok(mint: &Pubkey, owner: &Pubkey, amount: u64, state: u8) -> Vec<u8> {
    let mut v = vec![0u8; 165];
    v[0..32].copy_from_slice(mint.as_ref());
    v[32..64].copy_from_slice(owner.as_ref());
    v[64..72].copy_from_slice(&amount.to_le_bytes());
    v[108] = state;
    v
}
pub fn mk_mint(auth: &Pubkey, supply: u64, dec: u8, freeze: bool) -> Vec<u8> {
    let mut v = vec![0u8; 82];
    v[0..4].copy_from_slice(&1u32.to_le_bytes());
    v[4..36].copy_from_slice(auth.as_ref());
    v[36..44].copy_from_slice(&supply.to_le_bytes());
    v[44] = dec;
    v[45] = 1;
    if freeze {
        v[46..50].copy_from_slice(&1u32.to_le_bytes());
        v[50..82].copy_from_slice(auth.as_ref());
    }
    v
}
#[derive(Clone, Debug, PartialEq)]
pub struct Seat {
    pub market: Pubkey,
    pub trader: Pubkey,
    pub status: u64,
}
pub fn parse_seat(owner: &Pubkey, d: &[u8]) -> Option<Seat> {
    if *owner != phoenix::id() || d.len() != 128 || g64(d, 0) != SEAT_DISC {
        return None;
    }
    Some(Seat { market: gkey(d, 8), trader: gkey(d, 40), status: g64(d, 72) })
}
pub fn mk_seat(market: &Pubkey, trader: &Pubkey, status: u64) -> Vec<u8> {
    let mut v = vec![0u8; 128];
    v[0..8].copy_from_slice(&SEAT_DISC.to_le_bytes());
    v[8..40].copy_from_slice(market.as_ref());
    v[40..72].copy_from_slice(trader.as_ref());
    v[72..80].copy_from_slice(&status.to_le_bytes());
    v
}
