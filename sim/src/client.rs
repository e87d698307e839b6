//! Clients that use what phoenix-v1 publishes for them: the shipped instruction builders and order
//! packet constructors, and the IDL. What they produce for an intent is executed, on a fork of
//! the ledger, next to what the independent encoder produced for the same intent.
use crate::chain::*;
use crate::parse::*;
use crate::wire::*;
use crate::world::{log_authority, seat_addr, vault_addr};
use phoenix::program::cancel_multiple_orders::{CancelMultipleOrdersByIdParams, CancelUpToParams};
use phoenix::program::deposit::DepositParams;
use phoenix::program::initialize::InitializeParams;
use phoenix::program::instruction_builders::*;
use phoenix::program::new_order::{CondensedOrder, FailedMultipleLimitOrderBehavior, MultipleOrderPacket};
use phoenix::program::reduce_order::{CancelOrderParams, ReduceOrderParams};
use phoenix::program::status::{MarketStatus, SeatApprovalStatus};
use phoenix::program::withdraw::WithdrawParams;
use phoenix::program::MarketSizeParams;
use phoenix::quantities::{BaseLots, QuoteLots, Ticks, WrapperU64};
use phoenix::state::{OrderPacket, SelfTradeBehavior, Side};
use solana_program::{instruction::Instruction, pubkey::Pubkey, system_program};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub fn ata_program() -> Pubkey {
    use std::str::FromStr;
    Pubkey::from_str("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL").unwrap()
}
pub fn ata(owner: &Pubkey, mint: &Pubkey) -> Pubkey {
    find_pda(&[owner.as_ref(), spl_token::id().as_ref(), mint.as_ref()], &ata_program()).0
}

/// One way a client expresses an intent, and the reference it is compared with.
pub struct Case {
    pub name: &'static str,
    pub got: Vec<Ix>,
    pub want: Vec<Ix>,
    /// accounts that may legitimately end differently
    pub except: Vec<Pubkey>,
    /// the market account has still to be made (by the got instructions)
    pub unmade: Option<Pubkey>,
}

fn conv(i: Instruction) -> Ix {
    Ix {
        program: i.program_id,
        metas: i.accounts.iter().map(|m| Meta { key: m.pubkey, signer: m.is_signer, writable: m.is_writable }).collect(),
        data: i.data,
    }
}
fn side(bid: bool) -> Side { if bid { Side::Bid } else { Side::Ask } }
fn stb(x: u8) -> SelfTradeBehavior {
    match x {
        0 => SelfTradeBehavior::Abort,
        1 => SelfTradeBehavior::CancelProvide,
        _ => SelfTradeBehavior::DecrementTake,
    }
}
fn behaviour(x: u8) -> FailedMultipleLimitOrderBehavior {
    match x {
        0 => FailedMultipleLimitOrderBehavior::FailOnInsufficientFundsAndAmendOnCross,
        1 => FailedMultipleLimitOrderBehavior::FailOnInsufficientFundsAndFailOnCross,
        2 => FailedMultipleLimitOrderBehavior::SkipOnInsufficientFundsAndAmendOnCross,
        _ => FailedMultipleLimitOrderBehavior::SkipOnInsufficientFundsAndFailOnCross,
    }
}

/// Every shipped way to write this order packet.
fn packets(p: &Packet) -> Vec<(&'static str, OrderPacket)> {
    let s = side(p.bid);
    let price = p.price.unwrap_or(0);
    let plain = p.lvs.is_none() && p.lvt.is_none() && !p.silent;
    let mut v = vec![];
    match p.kind {
        Kind::Post => {
            v.push((
                "OrderPacket::PostOnly",
                OrderPacket::PostOnly {
                    side: s,
                    price_in_ticks: Ticks::new(price),
                    num_base_lots: BaseLots::new(p.base),
                    client_order_id: p.cid,
                    reject_post_only: p.reject,
                    use_only_deposited_funds: p.free,
                    last_valid_slot: p.lvs,
                    last_valid_unix_timestamp_in_seconds: p.lvt,
                    fail_silently_on_insufficient_funds: p.silent,
                },
            ));
            if plain {
                v.push(("new_post_only", OrderPacket::new_post_only(s, price, p.base, p.cid, p.reject, p.free)));
                if !p.free && p.reject {
                    v.push((
                        "new_post_only_default_with_client_order_id",
                        OrderPacket::new_post_only_default_with_client_order_id(s, price, p.base, p.cid),
                    ));
                    if p.cid == 0 {
                        v.push(("new_post_only_default", OrderPacket::new_post_only_default(s, price, p.base)));
                    }
                }
                if !p.free && !p.reject {
                    v.push((
                        "new_adjustable_post_only_default_with_client_order_id",
                        OrderPacket::new_adjustable_post_only_default_with_client_order_id(s, price, p.base, p.cid),
                    ));
                }
            }
        }
        Kind::Limit => {
            v.push((
                "OrderPacket::Limit",
                OrderPacket::Limit {
                    side: s,
                    price_in_ticks: Ticks::new(price),
                    num_base_lots: BaseLots::new(p.base),
                    self_trade_behavior: stb(p.stb),
                    match_limit: p.match_limit,
                    client_order_id: p.cid,
                    use_only_deposited_funds: p.free,
                    last_valid_slot: p.lvs,
                    last_valid_unix_timestamp_in_seconds: p.lvt,
                    fail_silently_on_insufficient_funds: p.silent,
                },
            ));
            if plain {
                v.push((
                    "new_limit_order",
                    OrderPacket::new_limit_order(s, price, p.base, stb(p.stb), p.match_limit, p.cid, p.free),
                ));
                if p.stb == 1 && p.match_limit.is_none() && !p.free {
                    v.push((
                        "new_limit_order_default_with_client_order_id",
                        OrderPacket::new_limit_order_default_with_client_order_id(s, price, p.base, p.cid),
                    ));
                    if p.cid == 0 {
                        v.push(("new_limit_order_default", OrderPacket::new_limit_order_default(s, price, p.base)));
                    }
                }
            }
        }
        Kind::Ioc => {
            v.push((
                "OrderPacket::ImmediateOrCancel",
                OrderPacket::ImmediateOrCancel {
                    side: s,
                    price_in_ticks: p.price.map(Ticks::new),
                    num_base_lots: BaseLots::new(p.base),
                    num_quote_lots: QuoteLots::new(p.quote),
                    min_base_lots_to_fill: BaseLots::new(p.min_base),
                    min_quote_lots_to_fill: QuoteLots::new(p.min_quote),
                    self_trade_behavior: stb(p.stb),
                    match_limit: p.match_limit,
                    client_order_id: p.cid,
                    use_only_deposited_funds: p.free,
                    last_valid_slot: p.lvs,
                    last_valid_unix_timestamp_in_seconds: p.lvt,
                },
            ));
            v.push((
                "new_ioc",
                OrderPacket::new_ioc(
                    s, p.price, p.base, p.quote, p.min_base, p.min_quote, stb(p.stb), p.match_limit, p.cid, p.free, p.lvs, p.lvt,
                ),
            ));
            if plain {
                if let Some(x) = p.price {
                    let (q, b, st, ml, c, f) = (p.quote, p.base, stb(p.stb), p.match_limit, p.cid, p.free);
                    if q == 0 && p.min_quote == 0 && p.min_base == b {
                        v.push(if p.bid {
                            ("new_fok_buy_with_limit_price", OrderPacket::new_fok_buy_with_limit_price(x, b, st, ml, c, f))
                        } else {
                            ("new_fok_sell_with_limit_price", OrderPacket::new_fok_sell_with_limit_price(x, b, st, ml, c, f))
                        });
                    }
                    if p.min_quote == 0 && p.min_base == 0 {
                        if q == 0 {
                            v.push(("new_ioc_by_lots", OrderPacket::new_ioc_by_lots(s, x, b, st, ml, c, f)));
                            if !p.bid {
                                v.push((
                                    "new_ioc_sell_with_limit_price",
                                    OrderPacket::new_ioc_sell_with_limit_price(x, b, st, ml, c, f),
                                ));
                            }
                        }
                        if b == 0 && p.bid {
                            v.push((
                                "new_ioc_buy_with_limit_price",
                                OrderPacket::new_ioc_buy_with_limit_price(x, q, st, ml, c, f),
                            ));
                        }
                    }
                } else if p.stb == 1 && p.match_limit.is_none() && p.cid == 0 && !p.free {
                    if p.bid && p.base == 0 && p.min_quote == 0 {
                        v.push((
                            "new_ioc_buy_with_slippage",
                            OrderPacket::new_ioc_buy_with_slippage(p.quote, p.min_base),
                        ));
                    }
                    if !p.bid && p.quote == 0 && p.min_base == 0 {
                        v.push((
                            "new_ioc_sell_with_slippage",
                            OrderPacket::new_ioc_sell_with_slippage(p.base, p.min_quote),
                        ));
                    }
                }
            }
        }
    }
    v
}
fn multis(m: &Multi) -> Vec<(&'static str, MultipleOrderPacket)> {
    let list = |l: &Vec<Cond>| -> Vec<CondensedOrder> {
        l.iter()
            .map(|c| {
                if c.lvs.is_none() && c.lvt.is_none() {
                    CondensedOrder::new_default(c.price, c.size)
                } else {
                    CondensedOrder {
                        price_in_ticks: c.price,
                        size_in_base_lots: c.size,
                        last_valid_slot: c.lvs,
                        last_valid_unix_timestamp_in_seconds: c.lvt,
                    }
                }
            })
            .collect()
    };
    let (b, a) = (list(&m.bids), list(&m.asks));
    let mut v = vec![(
        "MultipleOrderPacket::new_with_failure_behavior",
        MultipleOrderPacket::new_with_failure_behavior(b.clone(), a.clone(), m.cid, behaviour(m.behaviour)),
    )];
    if m.behaviour < 2 {
        v.push(("MultipleOrderPacket::new", MultipleOrderPacket::new(b.clone(), a.clone(), m.cid, m.behaviour == 1)));
    }
    if m.behaviour == 1 && m.cid.is_none() {
        v.push(("MultipleOrderPacket::new_default", MultipleOrderPacket::new_default(b, a)));
    }
    v
}
fn cid_params(c: &CancelId) -> CancelOrderParams {
    CancelOrderParams { side: side(c.bid), price_in_ticks: c.price, order_sequence_number: c.seq }
}
fn upto(u: &UpTo) -> CancelUpToParams {
    CancelUpToParams {
        side: side(u.bid),
        tick_limit: u.tick,
        num_orders_to_search: u.search,
        num_orders_to_cancel: u.cancel,
    }
}

/// The accounts of an instruction by the name its role has in the IDL, or None when it is not the
/// instruction an honest client would send.
pub fn roles(ix: &Ix, hdr: Option<&Hdr>) -> Option<(BTreeMap<&'static str, Pubkey>, Vec<Pubkey>)> {
    let tag = *ix.data.first()?;
    let names: &[&'static str] = match tag {
        T_SWAP | T_REDUCE | T_CALL | T_CUPTO | T_CMULTI | T_WITHDRAW => {
            &["trader", "baseAccount", "quoteAccount", "baseVault", "quoteVault", "tokenProgram"]
        }
        T_LIMIT | T_MULTI | T_DEPOSIT => {
            &["trader", "seat", "baseAccount", "quoteAccount", "baseVault", "quoteVault", "tokenProgram"]
        }
        T_SWAP_FF | T_LIMIT_FF | T_MULTI_FF => &["trader", "seat"],
        T_REDUCE_FF | T_CALL_FF | T_CUPTO_FF | T_CMULTI_FF => &["trader"],
        T_REQSEAT => &["payer", "seat", "systemProgram"],
        T_INIT => {
            &["marketCreator", "baseMint", "quoteMint", "baseVault", "quoteVault", "systemProgram", "tokenProgram"]
        }
        T_CLAIM => &["successor"],
        T_NAME | T_STATUS => &["marketAuthority"],
        T_SEATSTATUS => &["marketAuthority", "seat"],
        T_REQSEAT_AUTH => &["marketAuthority", "payer", "trader", "seat", "systemProgram"],
        T_EVICT | T_FORCE => {
            &["marketAuthority", "trader", "seat", "baseAccount", "quoteAccount", "baseVault", "quoteVault", "tokenProgram"]
        }
        T_COLLECT => &["sweeper", "feeRecipient", "quoteVault", "tokenProgram"],
        T_FEEREC => &["marketAuthority", "newFeeRecipient"],
        _ => return None,
    };
    let extra = match tag {
        T_STATUS | T_FEEREC => 1,
        _ => 0,
    };
    let n = 3 + names.len();
    if ix.metas.len() < n || ix.metas.len() > n + extra {
        return None;
    }
    let k = |i: usize| ix.metas[i].key;
    if k(0) != phoenix_id() || k(1) != log_authority() || !ix.metas[2].writable || !ix.metas[3].signer {
        return None;
    }
    let mut r = BTreeMap::new();
    r.insert("phoenixProgram", k(0));
    r.insert("logAuthority", k(1));
    r.insert("market", k(2));
    for (i, nm) in names.iter().enumerate() {
        let m = &ix.metas[3 + i];
        let w = matches!(*nm, "baseAccount" | "quoteAccount" | "baseVault" | "quoteVault" | "feeRecipient")
            || (*nm == "seat" && matches!(tag, T_REQSEAT | T_REQSEAT_AUTH | T_SEATSTATUS))
            || matches!(*nm, "payer" | "marketCreator");
        if w && !m.writable || *nm == "payer" && !m.signer {
            return None;
        }
        r.insert(nm, m.key);
    }
    if tag == T_STATUS && ix.metas.len() == n && !ix.metas[3].writable {
        return None;
    }
    let market = k(2);
    if tag == T_INIT {
        let (b, q) = (r["baseMint"], r["quoteMint"]);
        if r["baseVault"] != vault_addr(&market, &b) || r["quoteVault"] != vault_addr(&market, &q) {
            return None;
        }
    } else {
        let h = hdr?;
        if r.get("baseVault").map(|v| *v != vault_addr(&market, &h.base.mint)).unwrap_or(false)
            || r.get("quoteVault").map(|v| *v != vault_addr(&market, &h.quote.mint)).unwrap_or(false)
        {
            return None;
        }
    }
    if let Some(s) = r.get("seat") {
        if let Some(t) = r.get("trader").or(r.get("payer")) {
            if *s != seat_addr(&market, t) {
                return None;
            }
        }
    }
    if r.get("tokenProgram").map(|t| *t != spl_token::id()).unwrap_or(false)
        || r.get("systemProgram").map(|t| *t != system_program::id()).unwrap_or(false)
    {
        return None;
    }
    let rest: Vec<Pubkey> = ix.metas[n..].iter().map(|m| m.key).collect();
    if tag == T_FEEREC && rest.len() == 1 && !ix.metas[n].signer {
        return None;
    }
    if tag == T_STATUS && rest.len() == 1 && !ix.metas[n].writable {
        return None;
    }
    Some((r, rest))
}

/// Every shipped builder that expresses the intent of this instruction.
pub fn cases(ix: &Ix, hdr: Option<&Hdr>, chain: &Chain) -> Vec<Case> {
    build(ix, hdr, chain).unwrap_or_default()
}
fn build(ix: &Ix, hdr: Option<&Hdr>, chain: &Chain) -> Option<Vec<Case>> {
    let (r, rest) = roles(ix, hdr)?;
    let tag = ix.data[0];
    let d = &ix.data[1..];
    let m = r["market"];
    let signer = ix.metas[3].key;
    let z = Pubkey::default();
    let (bm, qm) = hdr.map(|h| (h.base.mint, h.quote.mint)).unwrap_or((z, z));
    let (ba, qa) = (r.get("baseAccount").copied().unwrap_or(z), r.get("quoteAccount").copied().unwrap_or(z));
    // whose token accounts they are
    let t = r.get("trader").copied().unwrap_or(signer);
    let is_ata = !r.contains_key("baseAccount") || (ba == ata(&t, &bm) && qa == ata(&t, &qm));
    let mut out: Vec<Case> = vec![];
    let mut add = |name: &'static str, i: Instruction| {
        out.push(Case { name, got: vec![conv(i)], want: vec![ix.clone()], except: vec![], unmade: None })
    };
    match tag {
        T_SWAP | T_LIMIT => {
            let p = Packet::dec(d)?;
            if (p.kind == Kind::Ioc) != (tag == T_SWAP) {
                return None;
            }
            for (n, o) in packets(&p) {
                add(n, create_new_order_instruction_with_custom_token_accounts(&m, &t, &ba, &qa, &bm, &qm, &o));
                if is_ata {
                    add("create_new_order_instruction", create_new_order_instruction(&m, &t, &bm, &qm, &o));
                }
            }
        }
        T_SWAP_FF | T_LIMIT_FF => {
            let p = Packet::dec(d)?;
            if (p.kind == Kind::Ioc) != (tag == T_SWAP_FF) {
                return None;
            }
            for (_, o) in packets(&p) {
                add("create_new_order_with_free_funds_instruction", create_new_order_with_free_funds_instruction(&m, &t, &o));
            }
        }
        T_MULTI => {
            for (n, o) in multis(&Multi::dec(d)?) {
                add(n, create_new_multiple_order_instruction_with_custom_token_accounts(&m, &t, &ba, &qa, &bm, &qm, &o));
                if is_ata {
                    add(
                        "create_new_multiple_order_instruction",
                        create_new_multiple_order_instruction(&m, &t, &bm, &qm, &o),
                    );
                }
            }
        }
        T_MULTI_FF => {
            for (n, o) in multis(&Multi::dec(d)?) {
                add(n, create_new_multiple_order_with_free_funds_instruction(&m, &t, &o));
            }
        }
        T_CALL if d.is_empty() => {
            add(
                "create_cancel_all_orders_instruction_with_custom_token_accounts",
                create_cancel_all_orders_instruction_with_custom_token_accounts(&m, &t, &ba, &qa, &bm, &qm),
            );
            if is_ata {
                add("create_cancel_all_orders_instruction", create_cancel_all_orders_instruction(&m, &t, &bm, &qm));
            }
        }
        T_CALL_FF if d.is_empty() => add(
            "create_cancel_all_order_with_free_funds_instruction",
            create_cancel_all_order_with_free_funds_instruction(&m, &t),
        ),
        T_CUPTO => {
            let u = upto(&UpTo::dec(d)?);
            add(
                "create_cancel_up_to_instruction_with_custom_token_accounts",
                create_cancel_up_to_instruction_with_custom_token_accounts(&m, &t, &ba, &qa, &bm, &qm, &u),
            );
            if is_ata {
                add("create_cancel_up_to_instruction", create_cancel_up_to_instruction(&m, &t, &bm, &qm, &u));
            }
        }
        T_CUPTO_FF => add(
            "create_cancel_up_to_with_free_funds_instruction",
            create_cancel_up_to_with_free_funds_instruction(&m, &t, &upto(&UpTo::dec(d)?)),
        ),
        T_CMULTI | T_CMULTI_FF => {
            let p = CancelMultipleOrdersByIdParams { orders: dec_ids(d)?.iter().map(cid_params).collect() };
            if tag == T_CMULTI_FF {
                add(
                    "create_cancel_multiple_orders_by_id_with_free_funds_instruction",
                    create_cancel_multiple_orders_by_id_with_free_funds_instruction(&m, &t, &p),
                );
            } else {
                add(
                    "create_cancel_multiple_orders_by_id_instruction_with_custom_token_accounts",
                    create_cancel_multiple_orders_by_id_instruction_with_custom_token_accounts(
                        &m, &t, &ba, &qa, &bm, &qm, &p,
                    ),
                );
                if is_ata {
                    add(
                        "create_cancel_multiple_orders_by_id_instruction",
                        create_cancel_multiple_orders_by_id_instruction(&m, &t, &bm, &qm, &p),
                    );
                }
            }
        }
        T_REDUCE | T_REDUCE_FF => {
            let (c, size) = dec_reduce(d)?;
            let p = ReduceOrderParams { base_params: cid_params(&c), size };
            if tag == T_REDUCE_FF {
                add(
                    "create_reduce_order_with_free_funds_instruction",
                    create_reduce_order_with_free_funds_instruction(&m, &t, &p),
                );
            } else {
                add(
                    "create_reduce_order_instruction_with_custom_token_accounts",
                    create_reduce_order_instruction_with_custom_token_accounts(&m, &t, &ba, &qa, &bm, &qm, &p),
                );
                if is_ata {
                    add("reduce_order_instruction", reduce_order_instruction(&m, &t, &bm, &qm, &p));
                }
            }
        }
        T_WITHDRAW => {
            let mut rd = Rd::new(d);
            let (q, b) = (rd.opt64()?, rd.opt64()?);
            rd.end()?;
            let p = WithdrawParams { quote_lots_to_withdraw: q, base_lots_to_withdraw: b };
            add(
                "create_withdraw_funds_with_custom_amounts_instruction_with_custom_token_accounts",
                create_withdraw_funds_with_custom_amounts_instruction_with_custom_token_accounts(
                    &m, &t, &ba, &qa, &bm, &qm, &p,
                ),
            );
            match (q, b) {
                (None, None) => {
                    add(
                        "create_withdraw_funds_instruction_with_custom_token_accounts",
                        create_withdraw_funds_instruction_with_custom_token_accounts(&m, &t, &ba, &qa, &bm, &qm),
                    );
                    if is_ata {
                        add("create_withdraw_funds_instruction", create_withdraw_funds_instruction(&m, &t, &bm, &qm));
                    }
                }
                (Some(q), Some(b)) if is_ata => add(
                    "create_withdraw_funds_with_custom_amounts_instruction",
                    create_withdraw_funds_with_custom_amounts_instruction(&m, &t, &bm, &qm, b, q),
                ),
                _ => {}
            }
        }
        T_DEPOSIT => {
            let mut rd = Rd::new(d);
            let p = DepositParams { quote_lots_to_deposit: rd.u64()?, base_lots_to_deposit: rd.u64()? };
            rd.end()?;
            add(
                "create_deposit_funds_instruction_with_custom_token_accounts",
                create_deposit_funds_instruction_with_custom_token_accounts(&m, &t, &r["seat"], &ba, &qa, &bm, &qm, &p),
            );
            if is_ata {
                add("create_deposit_funds_instruction", create_deposit_funds_instruction(&m, &t, &bm, &qm, &p));
            }
        }
        T_REQSEAT if d.is_empty() => {
            add("create_request_seat_instruction", create_request_seat_instruction(&signer, &m))
        }
        T_CLAIM if d.is_empty() => {
            add("create_claim_authority_instruction", create_claim_authority_instruction(&signer, &m))
        }
        T_NAME => {
            let mut rd = Rd::new(d);
            let k = rd.key()?;
            rd.end()?;
            add("create_name_successor_instruction", create_name_successor_instruction(&signer, &m, &k))
        }
        T_STATUS if rest.is_empty() && d.len() == 1 => {
            let s = match d[0] {
                1 => MarketStatus::Active,
                2 => MarketStatus::PostOnly,
                3 => MarketStatus::Paused,
                4 => MarketStatus::Closed,
                5 => MarketStatus::Tombstoned,
                _ => return None,
            };
            add("create_change_market_status_instruction", create_change_market_status_instruction(&signer, &m, s))
        }
        T_SEATSTATUS if d.len() == 1 => {
            let s = match d[0] {
                0 => SeatApprovalStatus::NotApproved,
                1 => SeatApprovalStatus::Approved,
                2 => SeatApprovalStatus::Retired,
                _ => return None,
            };
            let seat = chain.accts.get(&r["seat"])?;
            let st = parse_seat(&seat.owner, &seat.data)?;
            if r["seat"] != seat_addr(&m, &st.trader) {
                return None;
            }
            add(
                "create_change_seat_status_instruction",
                create_change_seat_status_instruction(&signer, &m, &st.trader, s),
            )
        }
        T_REQSEAT_AUTH if d.is_empty() => add(
            "create_request_seat_authorized_instruction",
            create_request_seat_authorized_instruction(&signer, &r["payer"], &m, &t),
        ),
        T_EVICT if d.is_empty() && is_ata => {
            add("create_evict_seat_instruction", create_evict_seat_instruction(&signer, &m, &t, &bm, &qm))
        }
        T_FORCE if is_ata => {
            let u = UpTo::dec(d)?;
            if u.tick.is_some() || u.search.is_some() || u.cancel.is_some() {
                return None;
            }
            let got = create_force_cancel_orders_instructions(&m, &t, &signer, &bm, &qm).into_iter().map(conv).collect();
            let mut want = vec![];
            for bid in [true, false] {
                let mut i = ix.clone();
                i.data = with_tag(T_FORCE, &UpTo { bid, ..u.clone() }.enc());
                want.push(i);
            }
            out.push(Case { name: "create_force_cancel_orders_instructions", got, want, except: vec![], unmade: None });
        }
        T_COLLECT if d.is_empty() => {
            let to = r["feeRecipient"];
            add("create_collect_fees_instruction", create_collect_fees_instruction(&m, &signer, &to, &qm));
            let rec = hdr?.fee_recipient;
            if to == ata(&rec, &qm) {
                add(
                    "create_collect_fees_instruction_default",
                    create_collect_fees_instruction_default(&m, &signer, &rec, &qm),
                );
            }
        }
        T_FEEREC if d.is_empty() => match rest.first() {
            None => add(
                "create_change_fee_recipient_instruction",
                create_change_fee_recipient_instruction(&signer, &m, &r["newFeeRecipient"]),
            ),
            Some(old) => add(
                "create_change_fee_recipient_with_unclaimed_fees_instruction",
                create_change_fee_recipient_with_unclaimed_fees_instruction(&signer, &m, &r["newFeeRecipient"], old),
            ),
        },
        T_INIT => {
            let p = InitP::dec(d)?;
            let sz = || MarketSizeParams { bids_size: p.sizes.0, asks_size: p.sizes.1, num_seats: p.sizes.2 };
            let (bm, qm) = (r["baseMint"], r["quoteMint"]);
            add(
                "create_initialize_market_instruction",
                create_initialize_market_instruction(
                    &m, &bm, &qm, &signer, sz(), p.num_quote_lots, p.num_base_lots, p.tick, p.fee_bps, &p.recipient, p.raw,
                ),
            );
            // together with the creation of the account
            let a = chain.accts.get(&m)?;
            if a.owner == phoenix_id() && a.data.iter().all(|x| *x == 0) && a.data.len() == market_len(p.sizes) {
                let mut all = vec![];
                if let Ok(v) = create_initialize_market_instructions(
                    &m, &bm, &qm, &signer, sz(), p.num_quote_lots, p.num_base_lots, p.tick, p.fee_bps, &p.recipient, p.raw,
                ) {
                    all.push(("create_initialize_market_instructions", v));
                }
                if p.recipient == signer {
                    if let Ok(v) = create_initialize_market_instructions_default(
                        &m, &bm, &qm, &signer, sz(), p.num_quote_lots, p.num_base_lots, p.tick, p.fee_bps, p.raw,
                    ) {
                        all.push(("create_initialize_market_instructions_default", v));
                    }
                }
                for (name, v) in all {
                    out.push(Case {
                        name,
                        got: v.into_iter().map(conv).collect(),
                        want: vec![ix.clone()],
                        except: vec![signer],
                        unmade: Some(m),
                    });
                }
            }
            let _ = std::mem::size_of::<InitializeParams>();
        }
        _ => {}
    }
    Some(out)
}

/// Execute instructions atomically on a fork.
fn fork(chain: &Chain, ixs: &[Ix]) -> (bool, Chain, Vec<Vec<u8>>, Option<Vec<u8>>, String) {
    let mut c = chain.clone();
    let mut logs = vec![];
    let mut ret = None;
    for i in ixs {
        let r = c.exec_ix(i, ixs, None);
        if !r.ok {
            return (false, chain.clone(), vec![], None, r.err);
        }
        logs.extend(r.logs);
        ret = r.ret;
    }
    c.settle();
    (true, c, logs, ret, String::new())
}

/// Run both and say how they differ.
pub fn differ(chain: &Chain, c: &Case) -> Option<String> {
    let mut start = chain.clone();
    if let Some(k) = c.unmade {
        start.accts.remove(&k);
    }
    let (ok_g, cg, lg, rg, eg) = fork(&start, &c.got);
    let (ok_w, cw, lw, rw, ew) = fork(chain, &c.want);
    if ok_g != ok_w {
        return Some(if ok_w {
            format!("{}: refused ({eg}), though the same intent written independently is accepted", c.name)
        } else {
            format!("{}: accepted, though the same intent written independently is refused ({ew})", c.name)
        });
    }
    if !ok_w {
        return None;
    }
    // nobody whose signature the intent does not need is asked for one (most accounts have no key)
    let signs = |v: &[Ix]| -> BTreeSet<Pubkey> { v.iter().flat_map(|i| &i.metas).filter(|m| m.signer).map(|m| m.key).collect() };
    let allowed = signs(&c.want);
    if let Some(k) = signs(&c.got).into_iter().find(|k| !allowed.contains(k) && c.unmade != Some(*k)) {
        return Some(format!("{}: asks for the signature of {k}, which the same intent written independently does not need", c.name));
    }
    if lg != lw {
        return Some(format!("{}: events differ from those of the same intent written independently", c.name));
    }
    if rg != rw {
        return Some(format!("{}: returned order identifiers differ", c.name));
    }
    for k in cg.accts.keys().chain(cw.accts.keys()) {
        if c.except.contains(k) {
            continue;
        }
        let (x, y) = (cg.accts.get(k), cw.accts.get(k));
        let same = match (x, y) {
            (Some(x), Some(y)) => {
                let lam = x.lamports == y.lamports || c.unmade == Some(*k);
                lam && x.owner == y.owner && (Rc::ptr_eq(&x.data, &y.data) || x.data == y.data)
            }
            (None, None) => true,
            _ => false,
        };
        if !same {
            return Some(format!("{}: account {k} ends differently from the same intent written independently", c.name));
        }
    }
    None
}
