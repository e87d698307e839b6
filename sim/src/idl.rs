//! A client that knows nothing but the published IDL: it writes instructions and reads the event
//! log, market headers and seats from the JSON file alone.
use crate::chain::*;
use crate::client::roles;
use crate::parse::*;
use crate::wire::*;
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> { if let J::Str(s) = self { Some(s) } else { None } }
    pub fn arr(&self) -> Option<&Vec<J>> { if let J::Arr(s) = self { Some(s) } else { None } }
    pub fn num(&self) -> Option<u64> { if let J::Num(s) = self { Some(*s as u64) } else { None } }
    pub fn yes(&self) -> bool { matches!(self, J::Bool(true)) }
}
struct P<'a> {
    s: &'a [u8],
    i: usize,
}
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() {
            self.i += 1
        }
    }
    fn val(&mut self) -> Option<J> {
        self.ws();
        match *self.s.get(self.i)? {
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    self.ws();
                    if *self.s.get(self.i)? == b'}' {
                        self.i += 1;
                        return Some(J::Obj(v));
                    }
                    if *self.s.get(self.i)? == b',' {
                        self.i += 1;
                        continue;
                    }
                    let k = match self.val()? {
                        J::Str(s) => s,
                        _ => return None,
                    };
                    self.ws();
                    if *self.s.get(self.i)? != b':' {
                        return None;
                    }
                    self.i += 1;
                    v.push((k, self.val()?));
                }
            }
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    self.ws();
                    match *self.s.get(self.i)? {
                        b']' => {
                            self.i += 1;
                            return Some(J::Arr(v));
                        }
                        b',' => self.i += 1,
                        _ => v.push(self.val()?),
                    }
                }
            }
            b'"' => {
                self.i += 1;
                let mut out = vec![];
                loop {
                    let c = *self.s.get(self.i)?;
                    self.i += 1;
                    match c {
                        b'"' => return Some(J::Str(String::from_utf8_lossy(&out).into_owned())),
                        b'\\' => {
                            let e = *self.s.get(self.i)?;
                            self.i += 1;
                            match e {
                                b'n' => out.push(b'\n'),
                                b't' => out.push(b'\t'),
                                b'u' => {
                                    self.i += 4;
                                    out.push(b'?');
                                }
                                c => out.push(c),
                            }
                        }
                        c => out.push(c),
                    }
                }
            }
            b't' => {
                self.i += 4;
                Some(J::Bool(true))
            }
            b'f' => {
                self.i += 5;
                Some(J::Bool(false))
            }
            b'n' => {
                self.i += 4;
                Some(J::Null)
            }
            _ => {
                let a = self.i;
                while self.i < self.s.len() && matches!(self.s[self.i], b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') {
                    self.i += 1
                }
                std::str::from_utf8(&self.s[a..self.i]).ok()?.parse().ok().map(J::Num)
            }
        }
    }
}

/// A value to be written with, or read by, the IDL's types.
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    U(u128),
    B(bool),
    K(Pubkey),
    E(String, Vec<(String, V)>),
    S(Vec<(String, V)>),
    O(Option<Box<V>>),
    L(Vec<V>),
}
fn norm(s: &str) -> String { s.chars().filter(|c| *c != '_').flat_map(|c| c.to_lowercase()).collect() }
fn u(x: u64) -> V { V::U(x as u128) }
fn o(x: Option<u64>) -> V { V::O(x.map(|x| Box::new(u(x)))) }
fn s(v: Vec<(&str, V)>) -> V { V::S(v.into_iter().map(|(n, x)| (n.to_string(), x)).collect()) }
fn e(n: &str) -> V { V::E(n.into(), vec![]) }

pub struct Idl {
    ixs: BTreeMap<u8, J>,
    types: BTreeMap<String, J>,
}
impl Idl {
    pub fn load(path: &str) -> Option<Idl> {
        let t = std::fs::read(path).ok()?;
        let j = P { s: &t, i: 0 }.val()?;
        let mut ixs = BTreeMap::new();
        for i in j.get("instructions")?.arr()? {
            ixs.insert(i.get("discriminant")?.get("value")?.num()? as u8, i.clone());
        }
        let mut types = BTreeMap::new();
        for t in j.get("types")?.arr()? {
            types.insert(t.get("name")?.str()?.to_string(), t.get("type")?.clone());
        }
        Some(Idl { ixs, types })
    }

    fn fields(&self, fs: &[J], v: &[(String, V)], out: &mut Vec<u8>) -> Result<(), String> {
        if fs.len() != v.len() {
            return Err(format!("{} fields published, {} needed", fs.len(), v.len()));
        }
        for f in fs {
            let n = f.get("name").and_then(|x| x.str()).ok_or("field without name")?;
            let (_, x) = v.iter().find(|(k, _)| norm(k) == norm(n)).ok_or(format!("field {n} is unknown"))?;
            self.enc(f.get("type").ok_or("field without type")?, x, out)?;
        }
        Ok(())
    }
    fn enc(&self, t: &J, v: &V, out: &mut Vec<u8>) -> Result<(), String> {
        let bad = || Err(format!("type {t:?} cannot hold {v:?}"));
        match t {
            J::Str(n) => {
                let w = match n.as_str() {
                    "u8" => 1,
                    "u16" => 2,
                    "u32" => 4,
                    "u64" => 8,
                    "u128" => 16,
                    "bool" => {
                        return match v {
                            V::B(b) => {
                                out.push(*b as u8);
                                Ok(())
                            }
                            _ => bad(),
                        }
                    }
                    "publicKey" => {
                        return match v {
                            V::K(k) => {
                                out.extend_from_slice(k.as_ref());
                                Ok(())
                            }
                            _ => bad(),
                        }
                    }
                    _ => return bad(),
                };
                match v {
                    V::U(x) if w == 16 || *x < 1u128 << (8 * w) => {
                        out.extend_from_slice(&x.to_le_bytes()[..w]);
                        Ok(())
                    }
                    _ => bad(),
                }
            }
            J::Obj(_) => {
                if let Some(n) = t.get("defined").and_then(|x| x.str()) {
                    let d = self.types.get(n).ok_or(format!("type {n} is not published"))?;
                    match (d.get("kind").and_then(|x| x.str()), v) {
                        (Some("struct"), V::S(f)) => {
                            self.fields(d.get("fields").and_then(|x| x.arr()).ok_or("no fields")?, f, out)
                        }
                        (Some("enum"), V::E(name, f)) => {
                            let vs = d.get("variants").and_then(|x| x.arr()).ok_or("no variants")?;
                            let i = vs
                                .iter()
                                .position(|x| x.get("name").and_then(|x| x.str()) == Some(name))
                                .ok_or(format!("variant {name} is not published"))?;
                            out.push(i as u8);
                            let none = vec![];
                            self.fields(vs[i].get("fields").and_then(|x| x.arr()).unwrap_or(&none), f, out)
                        }
                        _ => bad(),
                    }
                } else if let Some(i) = t.get("option") {
                    match v {
                        V::O(None) => {
                            out.push(0);
                            Ok(())
                        }
                        V::O(Some(x)) => {
                            out.push(1);
                            self.enc(i, x, out)
                        }
                        _ => bad(),
                    }
                } else if let Some(i) = t.get("vec") {
                    match v {
                        V::L(l) => {
                            out.extend_from_slice(&(l.len() as u32).to_le_bytes());
                            for x in l {
                                self.enc(i, x, out)?;
                            }
                            Ok(())
                        }
                        _ => bad(),
                    }
                } else {
                    bad()
                }
            }
            _ => bad(),
        }
    }
    fn dec(&self, t: &J, r: &mut Rd) -> Option<V> {
        match t {
            J::Str(n) => Some(match n.as_str() {
                "u8" => V::U(r.u8()? as u128),
                "u16" => V::U(r.u16()? as u128),
                "u32" => V::U(r.u32()? as u128),
                "u64" => V::U(r.u64()? as u128),
                "i64" => V::U(r.u64()? as u128),
                "u128" => V::U(r.u128()?),
                "bool" => V::B(r.boolean()?),
                "publicKey" => V::K(r.key()?),
                _ => return None,
            }),
            J::Obj(_) => {
                if let Some(n) = t.get("defined").and_then(|x| x.str()) {
                    let d = self.types.get(n)?;
                    match d.get("kind")?.str()? {
                        "struct" => {
                            let mut v = vec![];
                            for f in d.get("fields")?.arr()? {
                                v.push((f.get("name")?.str()?.to_string(), self.dec(f.get("type")?, r)?));
                            }
                            Some(V::S(v))
                        }
                        _ => {
                            let i = r.u8()? as usize;
                            let x = d.get("variants")?.arr()?.get(i)?;
                            let mut v = vec![];
                            if let Some(fs) = x.get("fields").and_then(|x| x.arr()) {
                                for f in fs {
                                    match f.get("type") {
                                        Some(t) => v.push((f.get("name")?.str()?.to_string(), self.dec(t, r)?)),
                                        // a tuple variant
                                        None => match self.dec(f, r)? {
                                            V::S(mut w) => v.append(&mut w),
                                            w => v.push((String::new(), w)),
                                        },
                                    }
                                }
                            }
                            Some(V::E(x.get("name")?.str()?.to_string(), v))
                        }
                    }
                } else if let Some(i) = t.get("option") {
                    Some(V::O(if r.boolean()? { Some(Box::new(self.dec(i, r)?)) } else { None }))
                } else if let Some(a) = t.get("array").and_then(|x| x.arr()) {
                    let n = a.get(1)?.num()?;
                    let mut v = vec![];
                    for _ in 0..n {
                        v.push(self.dec(&a[0], r)?);
                    }
                    Some(V::L(v))
                } else {
                    None
                }
            }
            _ => None,
        }
    }

    /// The instruction an IDL client would send for the same intent. Its own key pays the fee, so
    /// it signs and is writable whatever the list says.
    pub fn instruction(&self, ix: &Ix, hdr: Option<&Hdr>) -> Option<Result<Ix, String>> {
        let (r, rest) = roles(ix, hdr)?;
        let tag = ix.data[0];
        let args = args(tag, &ix.data[1..])?;
        Some(self.write(tag, &r, &rest, &args))
    }
    fn write(&self, tag: u8, r: &BTreeMap<&'static str, Pubkey>, rest: &[Pubkey], args: &[V]) -> Result<Ix, String> {
        let name = tag_name(tag);
        let i = self.ixs.get(&tag).ok_or(format!("{name} is not published"))?;
        if i.get("name").and_then(|x| x.str()) != Some(name) {
            return Err(format!("instruction {tag} is published as {:?}, not {name}", i.get("name")));
        }
        let mut metas = vec![];
        for a in i.get("accounts").and_then(|x| x.arr()).ok_or("no accounts")? {
            let n = a.get("name").and_then(|x| x.str()).ok_or("account without name")?;
            let key = *r.get(n).ok_or(format!("{name}: published account {n} has no role"))?;
            metas.push(Meta {
                key,
                signer: a.get("isSigner").map(|x| x.yes()).unwrap_or(false),
                writable: a.get("isMut").map(|x| x.yes()).unwrap_or(false),
            });
        }
        if let Some(m) = metas.iter_mut().find(|m| m.signer) {
            m.writable = true;
        }
        for k in rest {
            metas.push(Meta { key: *k, signer: tag == T_FEEREC, writable: true });
        }
        let fs = i.get("args").and_then(|x| x.arr()).ok_or("no args")?;
        if fs.len() != args.len() {
            return Err(format!("{name}: {} arguments published, {} needed", fs.len(), args.len()));
        }
        let mut data = vec![tag];
        for (f, v) in fs.iter().zip(args) {
            self.enc(f.get("type").ok_or("argument without type")?, v, &mut data).map_err(|x| format!("{name}: {x}"))?;
        }
        Ok(Ix { program: phoenix_id(), metas, data })
    }

    /// Read a log call the way an IDL client does and compare with the independent reader.
    pub fn log(&self, d: &[u8]) -> Result<(), String> {
        let (h, evs) = match dec_log(d) {
            Some(x) => x,
            None => return Ok(()), // judged elsewhere
        };
        let t = J::Obj(vec![("defined".into(), J::Str("PhoenixMarketEvent".into()))]);
        let mut r = Rd::new(&d[1..]);
        let mut got = vec![];
        while r.end().is_none() {
            got.push(self.dec(&t, &mut r).ok_or("the event log does not decode with the published types")?);
        }
        let ev = |n: &str, f: Vec<(&str, V)>| V::E(n.into(), f.into_iter().map(|(k, v)| (k.to_string(), v)).collect());
        let mut want = vec![ev(
            "Header",
            vec![
                ("instruction", u(h.ix as u64)),
                ("sequenceNumber", u(h.seq)),
                ("timestamp", u(h.ts as u64)),
                ("slot", u(h.slot)),
                ("market", V::K(h.market)),
                ("signer", V::K(h.signer)),
                ("totalEvents", u(h.count as u64)),
            ],
        )];
        for (i, x) in evs {
            let i = ("index", u(i as u64));
            want.push(match x {
                Ev::Fill { maker, seq, price, filled, remaining } => ev(
                    "Fill",
                    vec![
                        i,
                        ("makerId", V::K(maker)),
                        ("orderSequenceNumber", u(seq)),
                        ("priceInTicks", u(price)),
                        ("baseLotsFilled", u(filled)),
                        ("baseLotsRemaining", u(remaining)),
                    ],
                ),
                Ev::Place { seq, cid, price, lots } => ev(
                    "Place",
                    vec![
                        i,
                        ("orderSequenceNumber", u(seq)),
                        ("clientOrderId", V::U(cid)),
                        ("priceInTicks", u(price)),
                        ("baseLotsPlaced", u(lots)),
                    ],
                ),
                Ev::Reduce { seq, price, removed, remaining } => ev(
                    "Reduce",
                    vec![
                        i,
                        ("orderSequenceNumber", u(seq)),
                        ("priceInTicks", u(price)),
                        ("baseLotsRemoved", u(removed)),
                        ("baseLotsRemaining", u(remaining)),
                    ],
                ),
                Ev::Evict { maker, seq, price, lots } => ev(
                    "Evict",
                    vec![
                        i,
                        ("makerId", V::K(maker)),
                        ("orderSequenceNumber", u(seq)),
                        ("priceInTicks", u(price)),
                        ("baseLotsEvicted", u(lots)),
                    ],
                ),
                Ev::Summary { cid, base, quote, fee } => ev(
                    "FillSummary",
                    vec![
                        i,
                        ("clientOrderId", V::U(cid)),
                        ("totalBaseLotsFilled", u(base)),
                        ("totalQuoteLotsFilled", u(quote)),
                        ("totalFeeInQuoteLots", u(fee)),
                    ],
                ),
                Ev::Fee { lots } => ev("Fee", vec![i, ("feesCollectedInQuoteLots", u(lots))]),
                Ev::Tif { seq, slot, ts } => ev(
                    "TimeInForce",
                    vec![
                        i,
                        ("orderSequenceNumber", u(seq)),
                        ("lastValidSlot", u(slot)),
                        ("lastValidUnixTimestampInSeconds", u(ts)),
                    ],
                ),
                Ev::Expired { maker, seq, price, removed } => ev(
                    "ExpiredOrder",
                    vec![
                        i,
                        ("makerId", V::K(maker)),
                        ("orderSequenceNumber", u(seq)),
                        ("priceInTicks", u(price)),
                        ("baseLotsRemoved", u(removed)),
                    ],
                ),
            });
        }
        if got != want {
            return Err(format!("the event log reads differently with the published types: {got:?}, not {want:?}"));
        }
        Ok(())
    }

    /// Read a market header the way an IDL client does.
    pub fn header(&self, d: &[u8]) -> Result<(), String> {
        let h = parse_hdr(d);
        let t = J::Obj(vec![("defined".into(), J::Str("MarketHeader".into()))]);
        let mut r = Rd::new(d);
        let f = match self.dec(&t, &mut r) {
            Some(V::S(f)) => f,
            _ => return Err("a market header does not decode with the published types".into()),
        };
        if r.o != HDR {
            return Err(format!("a published market header takes {} bytes", r.o));
        }
        let tok = |t: &TokP| {
            s(vec![
                ("decimals", u(t.dec as u64)),
                ("vaultBump", u(t.bump as u64)),
                ("mintKey", V::K(t.mint)),
                ("vaultKey", V::K(t.vault)),
            ])
        };
        let want = vec![
            ("discriminant", u(h.disc)),
            ("status", u(h.status)),
            (
                "marketSizeParams",
                s(vec![("bidsSize", u(h.sizes.0)), ("asksSize", u(h.sizes.1)), ("numSeats", u(h.sizes.2))]),
            ),
            ("baseParams", tok(&h.base)),
            ("baseLotSize", u(h.base_lot)),
            ("quoteParams", tok(&h.quote)),
            ("quoteLotSize", u(h.quote_lot)),
            ("tickSizeInQuoteAtomsPerBaseUnit", u(h.tick_atoms)),
            ("authority", V::K(h.authority)),
            ("feeRecipient", V::K(h.fee_recipient)),
            ("marketSequenceNumber", u(h.msn)),
            ("successor", V::K(h.successor)),
            ("rawBaseUnitsPerBaseUnit", u(h.raw as u64)),
        ];
        for (n, v) in want {
            match f.iter().find(|(k, _)| k == n) {
                Some((_, x)) if *x == v => {}
                x => return Err(format!("{n} of the market header reads as {x:?} with the published types, not {v:?}")),
            }
        }
        Ok(())
    }
}

fn args(tag: u8, d: &[u8]) -> Option<Vec<V>> {
    let sd = |b: bool| e(if b { "Bid" } else { "Ask" });
    let st = |x: u8| e(["Abort", "CancelProvide", "DecrementTake"][x as usize]);
    let cid = |c: &CancelId| s(vec![("side", sd(c.bid)), ("priceInTicks", u(c.price)), ("orderSequenceNumber", u(c.seq))]);
    Some(match tag {
        T_SWAP | T_SWAP_FF | T_LIMIT | T_LIMIT_FF => {
            let p = Packet::dec(d)?;
            let tail = |v: &mut Vec<(&str, V)>| {
                v.push(("client_order_id", V::U(p.cid)));
                v.push(("use_only_deposited_funds", V::B(p.free)));
                v.push(("last_valid_slot", o(p.lvs)));
                v.push(("last_valid_unix_timestamp_in_seconds", o(p.lvt)));
                if p.kind != Kind::Ioc {
                    v.push(("fail_silently_on_insufficient_funds", V::B(p.silent)));
                }
            };
            let (n, mut v) = match p.kind {
                Kind::Post => (
                    "PostOnly",
                    vec![
                        ("side", sd(p.bid)),
                        ("price_in_ticks", u(p.price?)),
                        ("num_base_lots", u(p.base)),
                        ("reject_post_only", V::B(p.reject)),
                    ],
                ),
                Kind::Limit => (
                    "Limit",
                    vec![
                        ("side", sd(p.bid)),
                        ("price_in_ticks", u(p.price?)),
                        ("num_base_lots", u(p.base)),
                        ("self_trade_behavior", st(p.stb)),
                        ("match_limit", o(p.match_limit)),
                    ],
                ),
                Kind::Ioc => (
                    "ImmediateOrCancel",
                    vec![
                        ("side", sd(p.bid)),
                        ("price_in_ticks", o(p.price)),
                        ("num_base_lots", u(p.base)),
                        ("num_quote_lots", u(p.quote)),
                        ("min_base_lots_to_fill", u(p.min_base)),
                        ("min_quote_lots_to_fill", u(p.min_quote)),
                        ("self_trade_behavior", st(p.stb)),
                        ("match_limit", o(p.match_limit)),
                    ],
                ),
            };
            tail(&mut v);
            vec![V::E(n.into(), v.into_iter().map(|(k, x)| (k.to_string(), x)).collect())]
        }
        T_MULTI | T_MULTI_FF => {
            let m = Multi::dec(d)?;
            let l = |v: &Vec<Cond>| {
                V::L(
                    v.iter()
                        .map(|c| {
                            s(vec![
                                ("priceInTicks", u(c.price)),
                                ("sizeInBaseLots", u(c.size)),
                                ("lastValidSlot", o(c.lvs)),
                                ("lastValidUnixTimestampInSeconds", o(c.lvt)),
                            ])
                        })
                        .collect(),
                )
            };
            vec![s(vec![
                ("bids", l(&m.bids)),
                ("asks", l(&m.asks)),
                ("clientOrderId", V::O(m.cid.map(|c| Box::new(V::U(c))))),
                (
                    "failedMultipleLimitOrderBehavior",
                    e([
                        "FailOnInsufficientFundsAndAmendOnCross",
                        "FailOnInsufficientFundsAndFailOnCross",
                        "SkipOnInsufficientFundsAndAmendOnCross",
                        "SkipOnInsufficientFundsAndFailOnCross",
                    ][m.behaviour as usize]),
                ),
            ])]
        }
        T_REDUCE | T_REDUCE_FF => {
            let (c, size) = dec_reduce(d)?;
            vec![s(vec![("baseParams", cid(&c)), ("size", u(size))])]
        }
        T_CUPTO | T_CUPTO_FF | T_FORCE => {
            let p = UpTo::dec(d)?;
            vec![s(vec![
                ("side", sd(p.bid)),
                ("tickLimit", o(p.tick)),
                ("numOrdersToSearch", o(p.search.map(|x| x as u64))),
                ("numOrdersToCancel", o(p.cancel.map(|x| x as u64))),
            ])]
        }
        T_CMULTI | T_CMULTI_FF => vec![s(vec![("orders", V::L(dec_ids(d)?.iter().map(cid).collect()))])],
        T_WITHDRAW => {
            let mut r = Rd::new(d);
            let (q, b) = (r.opt64()?, r.opt64()?);
            r.end()?;
            vec![s(vec![("quoteLotsToWithdraw", o(q)), ("baseLotsToWithdraw", o(b))])]
        }
        T_DEPOSIT => {
            let mut r = Rd::new(d);
            let (q, b) = (r.u64()?, r.u64()?);
            r.end()?;
            vec![s(vec![("quoteLotsToDeposit", u(q)), ("baseLotsToDeposit", u(b))])]
        }
        T_INIT => {
            let p = InitP::dec(d)?;
            vec![s(vec![
                (
                    "marketSizeParams",
                    s(vec![("bidsSize", u(p.sizes.0)), ("asksSize", u(p.sizes.1)), ("numSeats", u(p.sizes.2))]),
                ),
                ("numQuoteLotsPerQuoteUnit", u(p.num_quote_lots)),
                ("tickSizeInQuoteLotsPerBaseUnit", u(p.tick)),
                ("numBaseLotsPerBaseUnit", u(p.num_base_lots)),
                ("takerFeeBps", u(p.fee_bps as u64)),
                ("feeCollector", V::K(p.recipient)),
                ("rawBaseUnitsPerBaseUnit", o(p.raw.map(|x| x as u64))),
            ])]
        }
        T_NAME => {
            let mut r = Rd::new(d);
            let k = r.key()?;
            r.end()?;
            vec![V::K(k)]
        }
        T_STATUS if d.len() == 1 => {
            vec![e(["Uninitialized", "Active", "PostOnly", "Paused", "Closed", "Tombstoned"].get(d[0] as usize)?)]
        }
        T_SEATSTATUS if d.len() == 1 => vec![e(["NotApproved", "Approved", "Retired"].get(d[0] as usize)?)],
        T_CALL | T_CALL_FF | T_REQSEAT | T_CLAIM | T_REQSEAT_AUTH | T_EVICT | T_COLLECT | T_FEEREC if d.is_empty() => vec![],
        _ => return None,
    })
}
