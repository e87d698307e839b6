BUGS = []


def bug(id, property, needs, what, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, what_it_breaks=what, edits=edits, demo=demo))


FIFO = 'state/markets/fifo.rs'
TOK = 'program/token_utils.rs'
GOV = 'program/processor/governance.rs'
NEW = 'program/processor/new_order.rs'
RED = 'program/processor/reduce_order.rs'
INIT = 'program/processor/initialize.rs'
LD = 'program/validation/loaders.rs'
CK = 'program/validation/checkers/phoenix_checkers.rs'
DISP = 'program/dispatch_market.rs'
OP = 'state/order_schema/order_packet.rs'
MB = 'program/instruction_builders/market_instructions.rs'
AB = 'program/instruction_builders/market_authority_instructions.rs'
STAT = 'program/status.rs'

bug('payout-skips-frozen-wallet', 'P01',
    'a trader whose token wallet is frozen by the mint when funds are paid out to it',
    'a payout to a frozen wallet is skipped although the balance was already debited, so the tokens are stranded in the vault',
    [(TOK, '''        maybe_invoke_withdraw(
            market_key,
            &params.mint_key,
''', '''        // A frozen wallet must not keep the market from being wound down
        if spl_token::state::Account::unpack(&withdraw_account.try_borrow_data()?)?.is_frozen() {
            continue;
        }
        maybe_invoke_withdraw(
            market_key,
            &params.mint_key,
'''), (TOK, '''    program::{invoke, invoke_signed},
''', '''    program::{invoke, invoke_signed},
    program_pack::Pack,
''')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    assert!(l.deposit(&m, &a, 700, 300));
    let d = mk_tok(&l.mints[1], &a, 5, 2);
    l.c.put(Lab::wallet(&a, 1), Acct { lamports: 2_039_280, owner: spl_token::id(), data: Rc::new(d), executable: false });
    l.withdraw(&m, &a, None, None);
    l.balanced(&m);
''')

bug('nothing-of-one-token-ends-payout', 'P04',
    'a payout of base lots alone (no quote lots due)',
    'a payout stops at the first token of which nothing is due, after the balances of both were debited',
    [(TOK, '''        maybe_invoke_withdraw(
            market_key,
            &params.mint_key,
''', '''        if withdraw_amount == 0 {
            return Ok(());
        }
        maybe_invoke_withdraw(
            market_key,
            &params.mint_key,
''')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    assert!(l.deposit(&m, &a, 0, 300));
    assert!(l.withdraw(&m, &a, None, None));
    assert_eq!(l.has(&a, 0), RICH, "the base lots were paid");
''')

bug('exact-quote-budget-leaves-husk', 'P05',
    'a taker whose remaining quote budget equals the value of the next resting order to the lot',
    'an order bought out to the last lot stays on the book with size zero',
    [(FIFO, '''                    num_adjusted_quote_lots_quoted <= inflight_order.adjusted_quote_lot_budget;
''', '''                    num_adjusted_quote_lots_quoted < inflight_order.adjusted_quote_lot_budget;
''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 0, &[a, b]);
    assert!(l.order(&m, &a, &Lab::limit(false, 100, 50)));
    assert!(l.order(&m, &b, &Lab::ioc(true, Some(100), 0, 5000)));
    assert!(l.book(&m, false).is_empty(), "the filled order is gone");
    l.balanced(&m);
''')

bug('expired-own-order-aborts', 'P08',
    'a taker with abort-on-self-trade whose own, already expired order is at the top of the other side',
    'an expired order of the taker is treated as a self-trade and fails the whole instruction',
    [(FIFO, '''            if (last_valid_slot != 0 && last_valid_slot < current_slot)
                || (last_valid_unix_timestamp_in_seconds != 0
                    && last_valid_unix_timestamp_in_seconds < current_unix_timestamp)
            {
''', '''            let is_self_trade = trader_index == current_trader_index as u64;
            if is_self_trade
                && matches!(
                    inflight_order.self_trade_behavior,
                    SelfTradeBehavior::Abort
                )
            {
                return None;
            }
            if (last_valid_slot != 0 && last_valid_slot < current_slot)
                || (last_valid_unix_timestamp_in_seconds != 0
                    && last_valid_unix_timestamp_in_seconds < current_unix_timestamp)
            {
''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 0, &[a, b]);
    assert!(l.order(&m, &a, &Packet { lvs: Some(105), ..Lab::limit(false, 100, 50) }));
    assert!(l.order(&m, &b, &Lab::limit(false, 100, 50)));
    l.c.slot = 110;
    assert!(l.order(&m, &a, &Packet { stb: 0, ..Lab::limit(true, 100, 20) }), "an expired order is no self-trade");
    assert_eq!(l.book(&m, false).iter().map(|o| o.lots).sum::<u64>(), 30);
''')

bug('sell-fees-rounded-down', 'P10',
    'a sell whose fee is not a whole number of quote lots',
    'fees of sellers are rounded down to a whole quote lot, so small sells are free',
    [(FIFO, '''        inflight_order.quote_lot_fees = self
            .round_adjusted_quote_lots_up(self.compute_fee(total_matched_adjusted_quote_lots))
            / self.base_lots_per_base_unit;
''', '''        let adjusted_fee = self.compute_fee(total_matched_adjusted_quote_lots);
        inflight_order.quote_lot_fees = match inflight_order.side {
            Side::Bid => self.round_adjusted_quote_lots_up(adjusted_fee),
            Side::Ask => self.round_adjusted_quote_lots_down(adjusted_fee),
        } / self.base_lots_per_base_unit;
''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 7, &[a, b]);
    assert!(l.order(&m, &a, &Lab::limit(true, 101, 50)));
    assert!(l.order(&m, &b, &Lab::ioc(false, Some(101), 3, 0)));
    // 303 quote lots at 7 bps: 0.2121, a whole lot
    assert_eq!(l.mkt(&m).unclaimed, 1, "fees are rounded up");
''')

bug('own-evicted-funds-bypassed', 'P15',
    'a full book whose worst order belongs to the trader placing the better order that evicts it',
    'the free balance is read before the eviction, so the funds it released are not used before the wallet',
    [(FIFO, '''                placed_order_id = Some(order_id);
                if book_full {
''', '''                placed_order_id = Some(order_id);
                let (free_quote_lots, free_base_lots) = {
                    let state = self.get_trader_state_from_index(trader_index);
                    (state.quote_lots_free, state.base_lots_free)
                };
                if book_full {
'''), (FIFO, '''                        let quote_lots_free_to_use =
                            quote_lots_to_lock.min(trader_state.quote_lots_free);
''', '''                        let quote_lots_free_to_use = quote_lots_to_lock.min(free_quote_lots);
'''), (FIFO, '''                        let base_lots_free_to_use =
                            resting_order.num_base_lots.min(trader_state.base_lots_free);
''', '''                        let base_lots_free_to_use =
                            resting_order.num_base_lots.min(free_base_lots);
''')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    for i in 0..512 {
        assert!(l.order(&m, &a, &Lab::post(false, 1000 + i, 10)));
    }
    let before = l.has(&a, 0);
    assert!(l.order(&m, &a, &Lab::post(false, 900, 10)));
    assert_eq!(l.book(&m, false).len(), 512);
    assert_eq!(l.has(&a, 0), before, "the evicted order's funds pay for the new one");
''')

bug('fee-rate-above-the-whole', 'P21',
    'a market initialized with a fee above 10000 basis points',
    'initialization accepts fees of more than the traded value',
    [(INIT, '''        taker_fee_bps <= 10000,
''', '''        taker_fee_bps < 10100,
''')],
    '''
    let mut l = Lab::new();
    let m = key(3, 0);
    l.zero_account(m, market_len((512, 512, 128)));
    let p = l.init_p(10_001);
    assert!(!l.init(&m, &p), "a fee above the whole is refused");
''')

bug('raw-units-wrap', 'P21',
    'a base mint with many decimals and a raw-units multiplier whose product exceeds 64 bits',
    'the size of a base unit wraps around, so a market comes up with lots of the wrong size',
    [(INIT, '''        10u64.pow(base_mint.decimals as u32) * raw_base_units_per_base_unit.unwrap_or(1) as u64,
''', '''        10u64
            .pow(base_mint.decimals as u32)
            .wrapping_mul(raw_base_units_per_base_unit.unwrap_or(1) as u64),
''')],
    '''
    let mut l = Lab::new();
    let m = key(3, 0);
    l.c.put(l.mints[0], Acct { lamports: 1_461_600, owner: spl_token::id(), data: Rc::new(mk_mint(&key(1, 9), 0, 18, true)), executable: false });
    l.zero_account(m, market_len((512, 512, 128)));
    let p = InitP { num_base_lots: 1 << 10, tick: 1 << 10, raw: Some(1 << 20), ..l.init_p(0) };
    assert!(!l.init(&m, &p), "a base unit beyond 64 bits is refused");
''')

bug('reduce-ignores-trailing-bytes', 'P23',
    'a reduce instruction whose data carries bytes after a complete message',
    'over-long instruction data is executed instead of refused',
    [(RED, '''ReduceOrderParams::try_from_slice(data)?;
''', '''ReduceOrderParams::deserialize(&mut &data[..])?;
''')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    assert!(l.order(&m, &a, &Lab::post(false, 100, 50)));
    let id = Lab::id(&l.book(&m, false)[0], false);
    let mut d = enc_reduce(&id, 5);
    d.push(0);
    assert!(!l.tx(T_REDUCE_FF, &m, &a, vec![], &d), "over-long data is refused");
''')

bug('read-loader-one-size-short', 'P26',
    'a market of the 2048/2048/4225 size read through the read-only loader with more traders than fit the smaller size',
    'the read-only loader maps one market size to a smaller layout than the writing loader',
    [(DISP, '''        (2048, 2048, 4225) => fifo_market!(2048, 2048, 4225, bytes),
''', '''        (2048, 2048, 4225) => fifo_market!(2048, 2048, 4097, bytes),
''')],
    '''
    use phoenix::program::{dispatch_market::load_with_dispatch, MarketSizeParams};
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = key(3, 0);
    l.zero_account(m, market_len((2048, 2048, 4225)));
    let p = InitP { sizes: (2048, 2048, 4225), ..l.init_p(0) };
    assert!(l.init(&m, &p));
    l.actor(a);
    assert!(l.request(&m, &a) && l.seat_status(&m, &a, 1));
    let d = l.c.get(&m).data.clone();
    let params = MarketSizeParams { bids_size: 2048, asks_size: 2048, num_seats: 4225 };
    let v = load_with_dispatch(&params, &d[576..]).unwrap().inner;
    assert_eq!(v.get_registered_traders().capacity(), 4225, "same data through either loader");
''')

bug('merge-ignores-timestamp', 'P25',
    'a multi-order packet with two orders at one price and slot but different expiry timestamps',
    'orders that differ only in expiry timestamp are merged under the first one\'s expiry',
    [(NEW, '''                .group_by(|o| {
                    (
                        o.price_in_ticks,
                        o.last_valid_slot,
                        o.last_valid_unix_timestamp_in_seconds,
                    )
                })
                .into_iter()
                .map(
                    |(
                        (price_in_ticks, last_valid_slot, last_valid_unix_timestamp_in_seconds),
                        level,
                    )| CondensedOrder {
                        price_in_ticks,
                        size_in_base_lots: level.fold(0, |acc, o| acc + o.size_in_base_lots),
                        last_valid_slot,
                        last_valid_unix_timestamp_in_seconds,
                    },
                )
''', '''                .group_by(|o| (o.price_in_ticks, o.last_valid_slot))
                .into_iter()
                .map(|((price_in_ticks, last_valid_slot), level)| {
                    let level = level.collect::<Vec<_>>();
                    CondensedOrder {
                        price_in_ticks,
                        size_in_base_lots: level.iter().fold(0, |acc, o| acc + o.size_in_base_lots),
                        last_valid_slot,
                        last_valid_unix_timestamp_in_seconds: level[0]
                            .last_valid_unix_timestamp_in_seconds,
                    }
                })
''')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    let c = |t| Cond { price: 100, size: 5, lvs: None, lvt: t };
    let p = Multi { bids: vec![c(Some(2000)), c(None)], asks: vec![], cid: None, behaviour: 0 };
    assert!(l.multi(&m, &a, &p, false));
    assert_eq!(l.book(&m, true).len(), 2, "orders of different expiry stay apart");
''')

bug('packet-cross-check-first-only', 'P25',
    'a multi-order packet whose orders are not sorted and cross only between later entries',
    'only the first bid and the first ask are compared, so self-crossing packets pass when amended',
    [(NEW, '''    let highest_bid = bids
        .iter()
        .map(|bid| bid.price_in_ticks)
        .max_by(|bid1, bid2| bid1.cmp(&bid2))
        .unwrap_or(0);
''', '''    let highest_bid = bids
        .first()
        .map(|bid| bid.price_in_ticks)
        .unwrap_or(0);
''')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    let p = Multi { bids: vec![Lab::cond(90, 5), Lab::cond(110, 5)], asks: vec![Lab::cond(105, 5)], cid: None, behaviour: 0 };
    assert!(!l.multi(&m, &a, &p, false), "a self-crossing packet is refused");
''')

bug('tombstone-keeps-data-until-swept', 'P16',
    'a transaction that tombstones a market and, in a later instruction, sends lamports back to its address',
    'tombstoning only drains the account and relies on the runtime to purge it, so the market survives when refunded in time',
    [(GOV, '''            market_info.assign(&system_program::id());
            market_info.realloc(0, false)?;
''', ''''''), (GOV, '''    pubkey::Pubkey, system_program,
''', '''    pubkey::Pubkey,
''')],
    '''
    let mut l = Lab::new();
    let m = l.market(0, 0, &[]);
    assert!(l.status(&m, 3) && l.status(&m, 4));
    let auth = l.auth;
    let retire = Ix {
        program: phoenix_id(),
        metas: vec![ro(phoenix_id()), ro(log_authority()), wr(m), sg(auth)],
        data: with_tag(T_STATUS, &[5]),
    };
    let sys = solana_program::system_program::id();
    let mut d = vec![2, 0, 0, 0];
    d.extend(5_000_000u64.to_le_bytes());
    let refund = Ix { program: sys, metas: vec![sg(auth), wr(m)], data: d };
    assert!(l.bundle(&[retire, refund]), "retired, and lamports sent to the address");
    let a = l.c.get(&m);
    assert!(a.owner == sys && a.data.is_empty(), "the market is gone");
''')

bug('named-successor-may-administer', 'P18',
    'a successor that has been named and acts before claiming',
    'the named successor already passes as the authority',
    [(CK, '''            &header.authority == authority,
''', '''            &header.authority == authority
                || header.status == MarketStatus::Closed as u64 && &header.successor == authority,
''')],
    '''
    let mut l = Lab::new();
    let a = l.actor(key(4, 1));
    let m = l.market(0, 0, &[]);
    let old = l.auth;
    assert!(l.status(&m, 3) && l.status(&m, 4));
    assert!(l.tx(T_NAME, &m, &old, vec![], a.as_ref()));
    assert!(!l.tx(T_STATUS, &m, &a, vec![], &[2]), "a successor must claim first");
''')

bug('closed-market-force-cancels-approved', 'P03',
    'a closed market and a trader whose seat is still approved',
    'in a closed market the authority may cancel the orders of approved traders too',
    [(LD, '''        market_info.assert_valid_authority(authority.key)?;
        let (base_params, quote_params) = {
            let header = market_info.get_header()?;
            (header.base_params, header.quote_params)
        };
        let market_key = *market_info.key;
''', '''        market_info.assert_valid_authority(authority.key)?;
        let (base_params, quote_params, closed) = {
            let header = market_info.get_header()?;
            (
                header.base_params,
                header.quote_params,
                MarketStatus::from(header.status).authority_can_cancel(),
            )
        };
        let market_key = *market_info.key;
'''), (LD, '''                trader_info.key,
                false,
            )?,
''', '''                trader_info.key,
                closed && accounts[1].data_len() > 0 && seat_is_approved(&accounts[1])?,
            )?,
'''), (LD, '''pub(crate) struct AuthorizedActionContext<'a, 'info> {
''', '''fn seat_is_approved(seat: &AccountInfo) -> Result<bool, ProgramError> {
    use sokoban::node_allocator::ZeroCopy;
    let bytes = seat.try_borrow_data()?;
    let seat = crate::program::Seat::load_bytes(&bytes).ok_or(ProgramError::InvalidAccountData)?;
    Ok(seat.approval_status == 1)
}

pub(crate) struct AuthorizedActionContext<'a, 'info> {
'''), (LD, '''    program::{
        validation::checkers::{EmptyAccount, Program, Signer},
''', '''    program::{
        status::MarketStatus,
        validation::checkers::{EmptyAccount, Program, Signer},
''')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    assert!(l.order(&m, &a, &Lab::post(false, 100, 50)));
    assert!(l.status(&m, 3) && l.status(&m, 4));
    l.force_cancel(&m, &a, &Lab::all(false));
    assert_eq!(l.book(&m, false).len(), 1, "an approved trader's order stays");
''')

bug('builder-force-cancel-one-side', 'P28',
    'a trader with resting asks whose orders the authority cancels with the shipped builder',
    'the builder for forced cancellation produces the same side twice',
    [(AB, '''            Side::Ask,
        ),
    ]
''', '''            Side::Bid,
        ),
    ]
''')],
    '''
    use phoenix::program::instruction_builders::create_force_cancel_orders_instructions;
    let k = |n| key(7, n);
    let v = create_force_cancel_orders_instructions(&k(0), &k(1), &k(2), &k(3), &k(4));
    let mut sides: Vec<u8> = v.iter().map(|i| i.data[1]).collect();
    sides.sort();
    assert_eq!(sides, vec![0, 1], "both sides are cancelled");
''')

bug('builder-withdraw-amounts-swapped', 'P28',
    'the shipped builder for withdrawals with custom amounts, with different base and quote amounts',
    'the builder exchanges the two amounts',
    [(MB, '''            quote_lots_to_withdraw: Some(quote_lots),
            base_lots_to_withdraw: Some(base_lots),
''', '''            quote_lots_to_withdraw: Some(base_lots),
            base_lots_to_withdraw: Some(quote_lots),
''')],
    '''
    use phoenix::program::instruction_builders::create_withdraw_funds_with_custom_amounts_instruction;
    let k = |n| key(7, n);
    let i = create_withdraw_funds_with_custom_amounts_instruction(&k(0), &k(1), &k(2), &k(3), 5, 9);
    let mut d = vec![];
    eo64(&mut d, Some(9));
    eo64(&mut d, Some(5));
    assert_eq!(i.data[1..], d[..], "quote then base");
''')

bug('constructor-drops-match-limit', 'P28',
    'a fill-or-kill sell built with the shipped constructor and a match limit',
    'the constructor ignores the match limit it is given',
    [(OP, '''        Self::new_ioc(
            Side::Ask,
            Some(target_price_in_ticks),
            base_lot_budget,
            0,
            base_lot_budget,
            0,
            self_trade_behavior,
            match_limit,
''', '''        Self::new_ioc(
            Side::Ask,
            Some(target_price_in_ticks),
            base_lot_budget,
            0,
            base_lot_budget,
            0,
            self_trade_behavior,
            match_limit.filter(|_| use_only_deposited_funds),
''')],
    '''
    use phoenix::state::{OrderPacket, SelfTradeBehavior};
    let p = OrderPacket::new_fok_sell_with_limit_price(10, 20, SelfTradeBehavior::Abort, Some(3), 0, false);
    let want = Packet { min_base: 20, match_limit: Some(3), stb: 0, ..Lab::ioc(false, Some(10), 20, 0) };
    let got = borsh::BorshSerialize::try_to_vec(&p).unwrap();
    assert_eq!(got, want.enc(), "the match limit is kept");
''')

bug('evict-on-almost-full', 'P13',
    'a side with exactly one free place and a new order better than the worst one',
    'an order is evicted although one place was left',
    [(FIFO, '''                    self.bids.len() == self.bids.capacity(),
''', '''                    self.bids.len() + 1 >= self.bids.capacity(),
''')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    for i in 0..512 {
        assert!(l.order(&m, &a, &Lab::post(true, 100 + i, 10)));
    }
    assert_eq!(l.book(&m, true).len(), 512, "no order is evicted before the side is full");
''')
