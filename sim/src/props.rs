//! Which property a violation belongs to, what each property's runs look like, and what counts
//! as an evaluation of it.
use crate::exec::Viol;
use crate::model::*;
use crate::wire::*;
use crate::world::*;
use std::sync::atomic::{AtomicU32, Ordering};

pub const NP: u32 = 28;
pub static PROP: AtomicU32 = AtomicU32::new(0);

pub fn parse_id(s: &str) -> Option<u32> {
    let n: u32 = s.strip_prefix('P')?.parse().ok()?;
    if (1..=NP).contains(&n) { Some(n) } else { None }
}
pub fn id(n: u32) -> String { format!("P{n:02}") }

fn set(v: &[u32]) -> u32 { v.iter().fold(0, |a, x| a | 1 << x) }

fn placing(tag: u8) -> bool { matches!(tag, T_SWAP | T_SWAP_FF | T_LIMIT | T_LIMIT_FF | T_MULTI | T_MULTI_FF) }
fn cancels(tag: u8) -> bool { (T_REDUCE..=T_CMULTI_FF).contains(&tag) }
fn multi(tag: u8) -> bool { matches!(tag, T_MULTI | T_MULTI_FF) }

/// The properties that say what this instruction, in these circumstances, must do.
fn functional(tag: u8, ctx: u32) -> u32 {
    let has = |m: u32| ctx & m != 0;
    let mut p = 0;
    if placing(tag) {
        if !multi(tag) {
            p |= set(&[5]);
        }
        if has(C_MATCHED | C_FEE) {
            p |= set(&[9, 10]);
        }
        if has(C_SELF) {
            p |= set(&[8]);
        }
        if has(C_EXPIRED | C_INEXP | C_TIF | C_EDGE) {
            p |= set(&[7]);
        }
        if has(C_IOC | C_MLIM | C_QBUD | C_MIN) {
            p |= set(&[9]);
        }
        if has(C_POST | C_AMEND | C_CROSS) || multi(tag) {
            p |= set(&[11]);
        }
        if multi(tag) || has(C_SILENT | C_SKIPPED | C_MERGED) {
            p |= set(&[25]);
        }
        if has(C_EVICT | C_FULL) {
            p |= set(&[13, 23]);
        }
        if has(C_FREE | C_FREEUSED) || !matches!(tag, T_SWAP | T_SWAP_FF) {
            p |= set(&[15]);
        }
        if has(C_REST) {
            p |= set(&[12]);
        }
    }
    if cancels(tag) {
        p |= set(&[14]);
    }
    p |= match tag {
        T_WITHDRAW | T_DEPOSIT => set(&[15]),
        T_REQSEAT | T_SEATSTATUS | T_REQSEAT_AUTH => set(&[17]),
        T_EVICT => set(&[17, 22]),
        T_FORCE => set(&[14, 17, 22]),
        T_CLAIM | T_NAME => set(&[18]),
        T_STATUS => set(&[16]),
        T_COLLECT | T_FEEREC => set(&[10]),
        T_INIT => set(&[21]),
        T_LOG => set(&[19]),
        _ => 0,
    };
    if has(C_OLDWIRE) {
        p |= set(&[27]);
    }
    if has(C_TABFULL) {
        p |= set(&[23]);
    }
    p
}

/// Properties whose statement a violation contradicts.
pub fn props_of(v: &Viol) -> u32 {
    let f = functional(v.tag, v.ctx);
    let status_gated = placing(v.tag) || cancels(v.tag) || matches!(v.tag, T_WITHDRAW | T_DEPOSIT | T_FORCE | T_EVICT);
    let has = |m: u32| v.ctx & m != 0;
    match v.cat {
        "swallowed" => set(&[4, 1, 15, 19]) | f,
        "hang" | "crash" => set(&[4, 22, 23]) | f,
        "accepted" => {
            let mut p = 0;
            for r in &v.reasons {
                p |= match *r {
                    "accounts_missing" | "not_token_account" | "wrong_mint" | "wrong_token_program" | "wrong_program_account"
                    | "wrong_market_owner" | "not_a_market" | "wrong_system_program" | "not_writable" => set(&[20]),
                    "wrong_log_authority" => set(&[20, 19]),
                    "missing_signature" => set(&[3, 20]),
                    "wrong_token_owner" => set(&[3, 20]),
                    "wrong_vault" => set(&[20, 24, 1, 3, 21]),
                    "amount_too_large" => set(&[23, 1]),
                    "token_account_frozen" | "insufficient_tokens" => set(&[1, 4, 15, 25]),
                    "not_a_seat" => set(&[17, 20]),
                    "wrong_seat" => set(&[17, 20, 24]),
                    "seat_status" => {
                        set(&[17]) | if matches!(v.tag, T_EVICT | T_FORCE) { set(&[3]) } else { 0 }
                    }
                    "account_in_use" => set(&[17, 21]),
                    "overflow" => set(&[23]) | if multi(v.tag) { set(&[25]) } else if matches!(v.tag, T_DEPOSIT | T_WITHDRAW) { set(&[1, 15]) } else { 0 },
                    "internal" => set(&[2, 23]),
                    "trader_table_full" | "sequence_exhausted" => set(&[23, 17]),
                    "zero_price" | "zero_size" => set(&[2, 5, 23, 27]),
                    "two_budgets" => set(&[9]),
                    "post_only_cross" => set(&[11]) | if multi(v.tag) { set(&[25]) } else { 0 },
                    "self_trade" => set(&[8]),
                    "min_fill" => set(&[9]),
                    "book_full" => set(&[13, 23]),
                    "insufficient_free_funds" => set(&[15, 25]),
                    "not_registered" => set(&[14, 15, 23, 17, 5]),
                    "status" => set(&[16]) | if placing(v.tag) { set(&[11]) } else { 0 },
                    "malformed" => set(&[27, 23]),
                    "wrong_order_type" => set(&[27, 16, 9, 17]),
                    "self_crossing_packet" => set(&[25]),
                    "not_owner" => set(&[14, 3]),
                    "not_authority" => {
                        set(&[18, 3])
                            | match v.tag {
                                T_COLLECT | T_FEEREC => set(&[10]),
                                T_STATUS => set(&[16]),
                                T_SEATSTATUS | T_REQSEAT_AUTH | T_EVICT | T_FORCE => set(&[17]),
                                _ => 0,
                            }
                    }
                    "seat_transition" => set(&[17]),
                    "has_orders" => set(&[17, 22, 2]),
                    "not_successor" => set(&[18]),
                    "status_transition" | "not_empty" => set(&[16]) | if *r == "not_empty" { set(&[22, 10]) } else { 0 },
                    "receiver" => set(&[16]),
                    "old_recipient_consent" => set(&[10, 3]),
                    "already_initialized" | "vault_in_use" | "bad_parameters" | "unsupported_size" => set(&[21]),
                    _ => f,
                };
            }
            // a fee sweep to anybody else's account
            if v.tag == T_COLLECT && v.reasons.iter().any(|r| matches!(*r, "wrong_token_owner" | "wrong_mint")) {
                p |= set(&[10]);
            }
            if matches!(v.tag, T_WITHDRAW | T_EVICT | T_FORCE) && v.reasons.contains(&"wrong_token_owner") {
                p |= set(&[3]);
            }
            if v.tag == T_INIT {
                p |= set(&[21]);
            }
            if v.tag == T_LOG {
                p |= set(&[19]);
            }
            // success reported for an order the engine cannot have carried out
            if v.reasons.iter().any(|r| matches!(*r, "post_only_cross" | "self_trade" | "min_fill" | "book_full" | "insufficient_free_funds")) {
                p |= set(&[4]);
            }
            if has(C_OLDWIRE) {
                p |= set(&[27]);
            }
            p
        }
        "refused" => {
            let mut p = f;
            if has(C_LOGFAIL) {
                p |= set(&[19]);
            }
            if status_gated {
                p |= set(&[16]);
            }
            if placing(v.tag) && !matches!(v.tag, T_SWAP | T_SWAP_FF) {
                p |= set(&[17, 25]);
            }
            if v.tag == T_DEPOSIT {
                p |= set(&[17]);
            }
            if cancels(v.tag) || matches!(v.tag, T_WITHDRAW | T_EVICT | T_FORCE | T_COLLECT | T_STATUS | T_SEATSTATUS) {
                p |= set(&[22]);
            }
            if matches!(v.tag, T_FEEREC | T_NAME | T_CLAIM) {
                p |= set(&[18]);
            }
            if placing(v.tag) {
                p |= set(&[27]);
            }
            if (placing(v.tag) && has(C_REST)) || v.tag == T_DEPOSIT {
                p |= set(&[23]);
            }
            p
        }
        "trapped" => set(&[22]) | f,
        "frame" | "account" => set(&[3, 4, 20]) | f,
        "lamports" => set(&[3, 4]) | f,
        "corrupt" => set(&[23, 2, 4]) | f,
        "tokens" => set(&[1, 3, 4, 15]) | f,
        "seat" => set(&[17, 4]),
        "isolation" => set(&[24, 3]),
        "ret" => set(&[12, 4]) | if multi(v.tag) { set(&[25]) } else { 0 },
        "log_header" => set(&[19, 27]),
        "log_missing" | "log_index" | "log_seq" | "msn" => set(&[19]) | if v.tag == T_LOG { set(&[18]) } else { 0 },
        "events" => set(&[19]) | if has(C_AMEND | C_CROSS) { set(&[11]) } else { 0 } | f & set(&[7, 10, 13]),
        "event_cid" => set(&[19, 27]),
        "replica" => set(&[19]),
        "replica_fee" => set(&[19, 10]),
        "debit" => set(&[3]) | f & set(&[5, 8, 13, 14, 15, 17]),
        "misdirected" => set(&[3, 1]) | f & set(&[10, 14, 15]),
        "conservation" => set(&[1]),
        "vault" => set(&[1]) | f & set(&[10, 14, 15, 21]),
        "ids" => set(&[12]),
        "oseq" => set(&[12]),
        "zero_order" => set(&[2, 5]),
        "locked" => set(&[2]) | f & set(&[7, 8, 13, 14]),
        "sorted" => set(&[6, 5]),
        "crossed" => set(&[6]) | f & set(&[5, 7, 11]),
        "views" => set(&[26]),
        "client" => set(&[28]),
        "status" => set(&[16, 4]) | f,
        "authority" => set(&[18, 4]) | f,
        "fee_recipient" => set(&[10, 4]) | f,
        "params" => set(&[21, 4]),
        "fees" => set(&[10, 1, 4]) | f,
        "book" => set(&[4]) | f | if cancels(v.tag) { set(&[2]) } else { 0 },
        "book_ids" => set(&[12, 5]) | if multi(v.tag) { set(&[25]) } else { 0 },
        "book_expiry" => set(&[7]) | if multi(v.tag) { set(&[25]) } else { 0 } | if placing(v.tag) { set(&[27]) } else { 0 },
        "registry" => set(&[17, 23, 4]) | f,
        "balance" => set(&[4, 15, 1]) | f,
        _ => 0,
    }
}

/// What counts as an evaluation of the property under check.
pub fn relevant(tag: u8, ctx: u32, ok: bool, reasons: &[&'static str]) -> bool {
    let has = |m: u32| ctx & m != 0;
    let why = |v: &[&str]| reasons.iter().any(|r| v.contains(r));
    match PROP.load(Ordering::Relaxed) {
        1 => ok && (placing(tag) || cancels(tag) || matches!(tag, T_WITHDRAW | T_DEPOSIT | T_EVICT | T_FORCE | T_COLLECT)),
        2 => ok && (placing(tag) || cancels(tag) || tag == T_FORCE),
        3 => true,
        4 => true,
        5 => placing(tag) && !multi(tag) && has(C_MATCHED),
        6 => placing(tag) && has(C_REST | C_MATCHED | C_CROSS),
        7 => placing(tag) && has(C_EXPIRED | C_INEXP | C_TIF | C_EDGE),
        8 => has(C_SELF),
        9 => has(C_IOC | C_MLIM),
        10 => has(C_FEE) || matches!(tag, T_COLLECT | T_FEEREC),
        11 => has(C_POST) || multi(tag) || (placing(tag) && why(&["status"])),
        12 => ok && placing(tag) && has(C_REST),
        13 => has(C_FULL | C_EVICT) || why(&["book_full"]),
        14 => cancels(tag) || tag == T_FORCE,
        15 => matches!(tag, T_WITHDRAW | T_DEPOSIT) || (placing(tag) && ok) || why(&["insufficient_tokens", "insufficient_free_funds"]),
        16 => tag == T_STATUS || why(&["status"]) || (ok && (placing(tag) || cancels(tag))),
        17 => matches!(tag, T_REQSEAT | T_REQSEAT_AUTH | T_SEATSTATUS | T_EVICT | T_FORCE) || why(&["wrong_seat", "not_a_seat", "seat_status", "has_orders"]),
        18 => tag >= 100,
        19 => ok || tag == T_LOG,
        20 => why(&[
            "accounts_missing", "not_token_account", "wrong_mint", "wrong_token_program", "wrong_program_account",
            "wrong_market_owner", "not_a_market", "wrong_system_program", "not_writable", "wrong_log_authority",
            "missing_signature", "wrong_token_owner", "wrong_vault", "not_a_seat", "wrong_seat", "already_initialized",
        ]),
        21 => tag == T_INIT,
        22 => ok && (cancels(tag) || matches!(tag, T_WITHDRAW | T_STATUS | T_EVICT | T_FORCE | T_COLLECT | T_SEATSTATUS)),
        23 => has(C_FULL | C_EVICT | C_TABFULL) || why(&[
            "overflow", "book_full", "trader_table_full", "sequence_exhausted", "amount_too_large", "malformed", "zero_price", "zero_size",
        ]),
        24 => ok,
        25 => multi(tag) || has(C_SILENT | C_SKIPPED),
        26 => ok,
        28 => has(C_CLIENT),
        27 => has(C_OLDWIRE) || why(&["malformed", "wrong_order_type"]) || (ok && placing(tag)),
        _ => true,
    }
}

/// what else is looked at: 1 the read-only views, 2 the published clients
pub fn mode(p: u32) -> u8 {
    match p {
        26 => 1,
        28 => 2,
        _ => 0,
    }
}

/// How this property's runs differ from the general mix. `i` is the run index: the mix rotates
/// through several settings so that a property is looked at from different sides.
pub fn profile(p: u32, i: u64) -> Profile {
    let d = Profile::default();
    let boost = |v: &[(usize, u64)]| v.to_vec();
    let trade = [(O_LIMIT, 2), (O_IOC, 2), (O_POST, 2)];
    let mut q = match p {
        1 => Profile { boost: boost(&[(O_WITHDRAW, 3), (O_COLLECT, 3), (O_CUPTO, 2)]), fault: 60, ..d },
        2 => Profile { boost: boost(&trade), tif: 300, ..d },
        3 => Profile { hostile: 150, privs: 80, boost: boost(&[(O_EVICT, 3), (O_FORCE, 3), (O_WITHDRAW, 2), (O_COLLECT, 2)]), ..d },
        4 => Profile { fault: 300, sweep: 60, bundle: 200, steps: (50, 100), ..d },
        5 => Profile { deep: 150, boost: boost(&trade), net: 60, ..d },
        6 => Profile { deep: 100, boost: boost(&trade), tif: 350, back: 0, net: 80, ..d },
        7 => Profile { late: 300, deep: 100, boost: boost(&[(O_CLOCK, 3), (O_LIMIT, 2), (O_IOC, 2)]), tif: 700, back: 60, ..d },
        8 => Profile { deep: 120, boost: boost(&[(O_LIMIT, 3), (O_IOC, 3)]), traders: (1, 3), ..d },
        9 => Profile { deep: 120, rich: 100, boost: boost(&[(O_IOC, 5), (O_LIMIT, 2)]), min: 600, ..d },
        10 => Profile { rich: 100, boost: boost(&[(O_COLLECT, 5), (O_FEEREC, 5), (O_IOC, 3), (O_LIMIT, 2)]), ..d },
        11 => Profile { boost: boost(&[(O_POST, 4), (O_MULTI, 3), (O_STATUS, 2), (O_LIMIT, 2)]), tif: 300, ..d },
        12 => Profile { boost: boost(&[(O_POST, 2), (O_LIMIT, 2), (O_MULTI, 3)]), fork: 40, aged: 200, ..d },
        13 => Profile { fill: 850, boost: boost(&[(O_POST, 3), (O_LIMIT, 3), (O_MULTI, 2)]), steps: (60, 120), tif: 250, ..d },
        14 => Profile { boost: boost(&[(O_CALL, 3), (O_CUPTO, 4), (O_CMULTI, 4), (O_REDUCE, 4), (O_FORCE, 3), (O_POST, 2)]), ..d },
        15 => Profile { boost: boost(&[(O_DEPOSIT, 4), (O_WITHDRAW, 4), (O_LIMIT, 2)]), poor: 700, ff: 400, ..d },
        16 => Profile { boost: boost(&[(O_STATUS, 6), (O_COLLECT, 2)]), wrong_status: 600, winddown: 500, ..d },
        17 => Profile { boost: boost(&[(O_REQSEAT, 5), (O_SEATST, 6), (O_EVICT, 5), (O_FORCE, 3), (O_PREFUND, 3)]), winddown: 400, ..d },
        18 => Profile { boost: boost(&[(O_AUTH, 8), (O_STATUS, 3), (O_FEEREC, 3), (O_SEATST, 2), (O_COLLECT, 2), (O_EVICT, 2), (O_FORCE, 2)]), net: 300, ..d },
        19 => Profile { deep: 150, boost: boost(&[(O_LOG, 4), (O_IOC, 2), (O_CUPTO, 2)]), fill: 60, aged: 150, ..d },
        20 => Profile { hostile: 350, privs: 120, markets: (2, 3), ..d },
        21 => Profile { decimals: 250, boost: boost(&[(O_INIT, 20), (O_PREFUND, 3)]), steps: (60, 120), winddown: 400, ..d },
        22 => Profile { winddown: 1000, steps: (40, 100), boost: boost(&[(O_WALLET, 2)]), ..d },
        23 => match i % 4 {
            0 => Profile { fill: 900, steps: (60, 120), ..d },
            1 => Profile { huge: 900, decimals: 100, boost: boost(&trade), ..d },
            2 => Profile { table: 900, steps: (60, 120), boost: boost(&[(O_EVICT, 3), (O_WITHDRAW, 2), (O_DEPOSIT, 3)]), ..d },
            _ => Profile { payload: 250, ..d },
        },
        24 => Profile { markets: (2, 3), bundle: 250, hostile: 120, boost: boost(&[(O_COLLECT, 2), (O_EVICT, 2)]), ..d },
        25 => Profile { boost: boost(&[(O_MULTI, 8), (O_POST, 2), (O_LIMIT, 2)]), poor: 800, ..d },
        26 => Profile { tif: 400, big: 60, boost: boost(&[(O_CLOCK, 2)]), ..d },
        28 => Profile { shaped: 500, ..d },
        27 => Profile { old_wire: 400, payload: 250, ..d },
        _ => d,
    };
    // a slice of every check's runs visits the corners of capacity and magnitude
    match i % 40 {
        7 => q.fill = q.fill.max(800),
        17 => q.huge = q.huge.max(800),
        27 => q.table = q.table.max(800),
        37 if i % 120 == 37 || p == 26 || p == 23 => {
            q.big = 1000;
            q.crowd = if p == 23 { 900 } else { 700 };
            q.fill = 300;
            q.markets = (1, 1);
            if p == 23 {
                // the last places of the registry, given, given up and given again
                q.fill = 0;
                q.traders = (6, 12);
                q.boost = boost(&[(O_EVICT, 6), (O_SEATST, 6), (O_REQSEAT, 2), (O_WITHDRAW, 3), (O_DEPOSIT, 2)]);
            }
        }
        _ => {}
    }
    q
}
/// Runs of the quick tier.
pub fn quick_runs(p: u32) -> u64 {
    match p {
        13 => 3600,
        23 => 4500,
        26 => 6000,
        28 => 3600,
        _ => 9000,
    }
}
