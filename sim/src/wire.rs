//! Independent encoders and decoders of the instruction payloads and of the event log, written
//! from the published IDL. Nothing here uses phoenix-v1's own (de)serialisation.
use solana_program::pubkey::Pubkey;

pub const T_SWAP: u8 = 0;
pub const T_SWAP_FF: u8 = 1;
pub const T_LIMIT: u8 = 2;
pub const T_LIMIT_FF: u8 = 3;
pub const T_REDUCE: u8 = 4;
pub const T_REDUCE_FF: u8 = 5;
pub const T_CALL: u8 = 6;
pub const T_CALL_FF: u8 = 7;
pub const T_CUPTO: u8 = 8;
pub const T_CUPTO_FF: u8 = 9;
pub const T_CMULTI: u8 = 10;
pub const T_CMULTI_FF: u8 = 11;
pub const T_WITHDRAW: u8 = 12;
pub const T_DEPOSIT: u8 = 13;
pub const T_REQSEAT: u8 = 14;
pub const T_LOG: u8 = 15;
pub const T_MULTI: u8 = 16;
pub const T_MULTI_FF: u8 = 17;
pub const T_INIT: u8 = 100;
pub const T_CLAIM: u8 = 101;
pub const T_NAME: u8 = 102;
pub const T_STATUS: u8 = 103;
pub const T_SEATSTATUS: u8 = 104;
pub const T_REQSEAT_AUTH: u8 = 105;
pub const T_EVICT: u8 = 106;
pub const T_FORCE: u8 = 107;
pub const T_COLLECT: u8 = 108;
pub const T_FEEREC: u8 = 109;
pub const ALL_TAGS: [u8; 28] = [
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109,
];
pub fn tag_name(t: u8) -> &'static str {
    match t {
        0 => "Swap",
        1 => "SwapWithFreeFunds",
        2 => "PlaceLimitOrder",
        3 => "PlaceLimitOrderWithFreeFunds",
        4 => "ReduceOrder",
        5 => "ReduceOrderWithFreeFunds",
        6 => "CancelAllOrders",
        7 => "CancelAllOrdersWithFreeFunds",
        8 => "CancelUpTo",
        9 => "CancelUpToWithFreeFunds",
        10 => "CancelMultipleOrdersById",
        11 => "CancelMultipleOrdersByIdWithFreeFunds",
        12 => "WithdrawFunds",
        13 => "DepositFunds",
        14 => "RequestSeat",
        15 => "Log",
        16 => "PlaceMultiplePostOnlyOrders",
        17 => "PlaceMultiplePostOnlyOrdersWithFreeFunds",
        100 => "InitializeMarket",
        101 => "ClaimAuthority",
        102 => "NameSuccessor",
        103 => "ChangeMarketStatus",
        104 => "ChangeSeatStatus",
        105 => "RequestSeatAuthorized",
        106 => "EvictSeat",
        107 => "ForceCancelOrders",
        108 => "CollectFees",
        109 => "ChangeFeeRecipient",
        _ => "unknown",
    }
}

pub struct Rd<'a> {
    pub d: &'a [u8],
    pub o: usize,
}
impl<'a> Rd<'a> {
    pub fn new(d: &'a [u8]) -> Self { Rd { d, o: 0 } }
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        let r = self.d.get(self.o..self.o.checked_add(n)?)?;
        self.o += n;
        Some(r)
    }
    pub fn u8(&mut self) -> Option<u8> { Some(self.take(1)?[0]) }
    pub fn u16(&mut self) -> Option<u16> { Some(u16::from_le_bytes(self.take(2)?.try_into().ok()?)) }
    pub fn u32(&mut self) -> Option<u32> { Some(u32::from_le_bytes(self.take(4)?.try_into().ok()?)) }
    pub fn u64(&mut self) -> Option<u64> { Some(u64::from_le_bytes(self.take(8)?.try_into().ok()?)) }
    pub fn i64(&mut self) -> Option<i64> { Some(i64::from_le_bytes(self.take(8)?.try_into().ok()?)) }
    pub fn u128(&mut self) -> Option<u128> { Some(u128::from_le_bytes(self.take(16)?.try_into().ok()?)) }
    pub fn key(&mut self) -> Option<Pubkey> { Some(Pubkey::new_from_array(self.take(32)?.try_into().ok()?)) }
    pub fn boolean(&mut self) -> Option<bool> {
        match self.u8()? {
            0 => Some(false),
            1 => Some(true),
            _ => None,
        }
    }
    pub fn en(&mut self, n: u8) -> Option<u8> { self.u8().filter(|v| *v < n) }
    pub fn opt64(&mut self) -> Option<Option<u64>> {
        Some(if self.boolean()? { Some(self.u64()?) } else { None })
    }
    pub fn opt32(&mut self) -> Option<Option<u32>> {
        Some(if self.boolean()? { Some(self.u32()?) } else { None })
    }
    pub fn end(&self) -> Option<()> { (self.o == self.d.len()).then_some(()) }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Post,
    Limit,
    Ioc,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Packet {
    pub kind: Kind,
    pub bid: bool,
    pub price: Option<u64>,
    pub base: u64,
    pub quote: u64,
    pub min_base: u64,
    pub min_quote: u64,
    pub stb: u8,
    pub match_limit: Option<u64>,
    pub cid: u128,
    pub reject: bool,
    pub free: bool,
    pub lvs: Option<u64>,
    pub lvt: Option<u64>,
    pub silent: bool,
}
impl Packet {
    pub fn new(kind: Kind, bid: bool) -> Packet {
        Packet {
            kind,
            bid,
            price: Some(0),
            base: 0,
            quote: 0,
            min_base: 0,
            min_quote: 0,
            stb: 0,
            match_limit: None,
            cid: 0,
            reject: true,
            free: false,
            lvs: None,
            lvt: None,
            silent: false,
        }
    }
    fn dec_strict(d: &[u8]) -> Option<Packet> {
        let mut r = Rd::new(d);
        let kind = match r.u8()? {
            0 => Kind::Post,
            1 => Kind::Limit,
            2 => Kind::Ioc,
            _ => return None,
        };
        let bid = r.en(2)? == 0;
        let mut p = Packet::new(kind, bid);
        match kind {
            Kind::Post => {
                p.price = Some(r.u64()?);
                p.base = r.u64()?;
                p.cid = r.u128()?;
                p.reject = r.boolean()?;
                p.free = r.boolean()?;
                p.lvs = r.opt64()?;
                p.lvt = r.opt64()?;
                p.silent = r.boolean()?;
            }
            Kind::Limit => {
                p.price = Some(r.u64()?);
                p.base = r.u64()?;
                p.stb = r.en(3)?;
                p.match_limit = r.opt64()?;
                p.cid = r.u128()?;
                p.free = r.boolean()?;
                p.lvs = r.opt64()?;
                p.lvt = r.opt64()?;
                p.silent = r.boolean()?;
            }
            Kind::Ioc => {
                p.price = r.opt64()?;
                p.base = r.u64()?;
                p.quote = r.u64()?;
                p.min_base = r.u64()?;
                p.min_quote = r.u64()?;
                p.stb = r.en(3)?;
                p.match_limit = r.opt64()?;
                p.cid = r.u128()?;
                p.free = r.boolean()?;
                p.lvs = r.opt64()?;
                p.lvt = r.opt64()?;
            }
        }
        r.end()?;
        Some(p)
    }
    /// A full packet, or one whose absent trailing optional fields are filled with zero bytes.
    pub fn dec(d: &[u8]) -> Option<Packet> {
        if let Some(p) = Packet::dec_strict(d) {
            return Some(p);
        }
        let mut v = d.to_vec();
        v.extend_from_slice(&[0, 0, 0]);
        for _ in 0..3 {
            if let Some(p) = Packet::dec_strict(&v) {
                return Some(p);
            }
            v.pop();
        }
        None
    }
    pub fn enc(&self) -> Vec<u8> {
        let mut v = vec![];
        let o64 = |v: &mut Vec<u8>, x: Option<u64>| match x {
            None => v.push(0),
            Some(x) => {
                v.push(1);
                v.extend_from_slice(&x.to_le_bytes());
            }
        };
        v.push(match self.kind {
            Kind::Post => 0,
            Kind::Limit => 1,
            Kind::Ioc => 2,
        });
        v.push(if self.bid { 0 } else { 1 });
        match self.kind {
            Kind::Post => {
                v.extend_from_slice(&self.price.unwrap_or(0).to_le_bytes());
                v.extend_from_slice(&self.base.to_le_bytes());
                v.extend_from_slice(&self.cid.to_le_bytes());
                v.push(self.reject as u8);
            }
            Kind::Limit => {
                v.extend_from_slice(&self.price.unwrap_or(0).to_le_bytes());
                v.extend_from_slice(&self.base.to_le_bytes());
                v.push(self.stb);
                o64(&mut v, self.match_limit);
                v.extend_from_slice(&self.cid.to_le_bytes());
            }
            Kind::Ioc => {
                o64(&mut v, self.price);
                v.extend_from_slice(&self.base.to_le_bytes());
                v.extend_from_slice(&self.quote.to_le_bytes());
                v.extend_from_slice(&self.min_base.to_le_bytes());
                v.extend_from_slice(&self.min_quote.to_le_bytes());
                v.push(self.stb);
                o64(&mut v, self.match_limit);
                v.extend_from_slice(&self.cid.to_le_bytes());
            }
        }
        v.push(self.free as u8);
        o64(&mut v, self.lvs);
        o64(&mut v, self.lvt);
        if self.kind != Kind::Ioc {
            v.push(self.silent as u8);
        }
        v
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Cond {
    pub price: u64,
    pub size: u64,
    pub lvs: Option<u64>,
    pub lvt: Option<u64>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Multi {
    pub bids: Vec<Cond>,
    pub asks: Vec<Cond>,
    pub cid: Option<u128>,
    pub behaviour: u8,
}
impl Multi {
    pub fn amend(&self) -> bool { self.behaviour == 0 || self.behaviour == 2 }
    pub fn skip(&self) -> bool { self.behaviour >= 2 }
    pub fn dec(d: &[u8]) -> Option<Multi> {
        let mut r = Rd::new(d);
        let list = |r: &mut Rd| -> Option<Vec<Cond>> {
            let n = r.u32()?;
            let mut v = vec![];
            for _ in 0..n {
                v.push(Cond { price: r.u64()?, size: r.u64()?, lvs: r.opt64()?, lvt: r.opt64()? });
            }
            Some(v)
        };
        let bids = list(&mut r)?;
        let asks = list(&mut r)?;
        let cid = if r.boolean()? { Some(r.u128()?) } else { None };
        let behaviour = r.en(4)?;
        r.end()?;
        Some(Multi { bids, asks, cid, behaviour })
    }
    pub fn enc(&self) -> Vec<u8> {
        let mut v = vec![];
        for l in [&self.bids, &self.asks] {
            v.extend_from_slice(&(l.len() as u32).to_le_bytes());
            for c in l {
                v.extend_from_slice(&c.price.to_le_bytes());
                v.extend_from_slice(&c.size.to_le_bytes());
                eo64(&mut v, c.lvs);
                eo64(&mut v, c.lvt);
            }
        }
        match self.cid {
            None => v.push(0),
            Some(c) => {
                v.push(1);
                v.extend_from_slice(&c.to_le_bytes());
            }
        }
        v.push(self.behaviour);
        v
    }
}
pub fn eo64(v: &mut Vec<u8>, x: Option<u64>) {
    match x {
        None => v.push(0),
        Some(x) => {
            v.push(1);
            v.extend_from_slice(&x.to_le_bytes());
        }
    }
}
pub fn eo32(v: &mut Vec<u8>, x: Option<u32>) {
    match x {
        None => v.push(0),
        Some(x) => {
            v.push(1);
            v.extend_from_slice(&x.to_le_bytes());
        }
    }
}
pub fn with_tag(t: u8, d: &[u8]) -> Vec<u8> {
    let mut v = vec![t];
    v.extend_from_slice(d);
    v
}
#[derive(Clone, Debug, PartialEq)]
pub struct CancelId {
    pub bid: bool,
    pub price: u64,
    pub seq: u64,
}
pub fn enc_ids(l: &[CancelId]) -> Vec<u8> {
    let mut v = (l.len() as u32).to_le_bytes().to_vec();
    for c in l {
        v.push(if c.bid { 0 } else { 1 });
        v.extend_from_slice(&c.price.to_le_bytes());
        v.extend_from_slice(&c.seq.to_le_bytes());
    }
    v
}
pub fn dec_id(r: &mut Rd) -> Option<CancelId> {
    Some(CancelId { bid: r.en(2)? == 0, price: r.u64()?, seq: r.u64()? })
}
pub fn dec_ids(d: &[u8]) -> Option<Vec<CancelId>> {
    let mut r = Rd::new(d);
    let n = r.u32()?;
    let mut v = vec![];
    for _ in 0..n {
        v.push(dec_id(&mut r)?);
    }
    r.end()?;
    Some(v)
}
pub fn enc_reduce(c: &CancelId, size: u64) -> Vec<u8> {
    let mut v = vec![if c.bid { 0 } else { 1 }];
    v.extend_from_slice(&c.price.to_le_bytes());
    v.extend_from_slice(&c.seq.to_le_bytes());
    v.extend_from_slice(&size.to_le_bytes());
    v
}
pub fn dec_reduce(d: &[u8]) -> Option<(CancelId, u64)> {
    let mut r = Rd::new(d);
    let c = dec_id(&mut r)?;
    let s = r.u64()?;
    r.end()?;
    Some((c, s))
}
#[derive(Clone, Debug, PartialEq)]
pub struct UpTo {
    pub bid: bool,
    pub tick: Option<u64>,
    pub search: Option<u32>,
    pub cancel: Option<u32>,
}
impl UpTo {
    pub fn enc(&self) -> Vec<u8> {
        let mut v = vec![if self.bid { 0 } else { 1 }];
        eo64(&mut v, self.tick);
        eo32(&mut v, self.search);
        eo32(&mut v, self.cancel);
        v
    }
    pub fn dec(d: &[u8]) -> Option<UpTo> {
        let mut r = Rd::new(d);
        let u = UpTo { bid: r.en(2)? == 0, tick: r.opt64()?, search: r.opt32()?, cancel: r.opt32()? };
        r.end()?;
        Some(u)
    }
}
/// init parameters: (bids, asks, seats), quote lots, tick size, base lots, fee bps, recipient, raw
#[derive(Clone, Debug, PartialEq)]
pub struct InitP {
    pub sizes: (u64, u64, u64),
    pub num_quote_lots: u64,
    pub tick: u64,
    pub num_base_lots: u64,
    pub fee_bps: u16,
    pub recipient: Pubkey,
    pub raw: Option<u32>,
}
impl InitP {
    pub fn enc(&self) -> Vec<u8> {
        let mut v = vec![];
        for x in [self.sizes.0, self.sizes.1, self.sizes.2, self.num_quote_lots, self.tick, self.num_base_lots] {
            v.extend_from_slice(&x.to_le_bytes());
        }
        v.extend_from_slice(&self.fee_bps.to_le_bytes());
        v.extend_from_slice(self.recipient.as_ref());
        eo32(&mut v, self.raw);
        v
    }
    pub fn dec(d: &[u8]) -> Option<InitP> {
        let mut r = Rd::new(d);
        let p = InitP {
            sizes: (r.u64()?, r.u64()?, r.u64()?),
            num_quote_lots: r.u64()?,
            tick: r.u64()?,
            num_base_lots: r.u64()?,
            fee_bps: r.u16()?,
            recipient: r.key()?,
            raw: r.opt32()?,
        };
        r.end()?;
        Some(p)
    }
}

// ---------------------------------------------------------------- event log
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Fill { maker: Pubkey, seq: u64, price: u64, filled: u64, remaining: u64 },
    Place { seq: u64, cid: u128, price: u64, lots: u64 },
    Reduce { seq: u64, price: u64, removed: u64, remaining: u64 },
    Evict { maker: Pubkey, seq: u64, price: u64, lots: u64 },
    Summary { cid: u128, base: u64, quote: u64, fee: u64 },
    Fee { lots: u64 },
    Tif { seq: u64, slot: u64, ts: u64 },
    Expired { maker: Pubkey, seq: u64, price: u64, removed: u64 },
}
#[derive(Clone, Debug, PartialEq)]
pub struct LogHdr {
    pub ix: u8,
    pub seq: u64,
    pub ts: i64,
    pub slot: u64,
    pub market: Pubkey,
    pub signer: Pubkey,
    pub count: u16,
}
/// One log call: its header and its (index, event) pairs.
pub fn dec_log(d: &[u8]) -> Option<(LogHdr, Vec<(u16, Ev)>)> {
    let mut r = Rd::new(d);
    if r.u8()? != T_LOG || r.u8()? != 1 {
        return None;
    }
    let h = LogHdr {
        ix: r.u8()?,
        seq: r.u64()?,
        ts: r.i64()?,
        slot: r.u64()?,
        market: r.key()?,
        signer: r.key()?,
        count: r.u16()?,
    };
    let mut v = vec![];
    for _ in 0..h.count {
        let tag = r.u8()?;
        let idx = r.u16()?;
        let e = match tag {
            2 => Ev::Fill { maker: r.key()?, seq: r.u64()?, price: r.u64()?, filled: r.u64()?, remaining: r.u64()? },
            3 => Ev::Place { seq: r.u64()?, cid: r.u128()?, price: r.u64()?, lots: r.u64()? },
            4 => Ev::Reduce { seq: r.u64()?, price: r.u64()?, removed: r.u64()?, remaining: r.u64()? },
            5 => Ev::Evict { maker: r.key()?, seq: r.u64()?, price: r.u64()?, lots: r.u64()? },
            6 => Ev::Summary { cid: r.u128()?, base: r.u64()?, quote: r.u64()?, fee: r.u64()? },
            7 => Ev::Fee { lots: r.u64()? },
            8 => Ev::Tif { seq: r.u64()?, slot: r.u64()?, ts: r.u64()? },
            9 => Ev::Expired { maker: r.key()?, seq: r.u64()?, price: r.u64()?, removed: r.u64()? },
            _ => return None,
        };
        v.push((idx, e));
    }
    r.end()?;
    Some((h, v))
}
