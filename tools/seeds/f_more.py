BUGS = []


def bug(id, property, needs, what, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, what_it_breaks=what, edits=edits, demo=demo))


FIFO = 'state/markets/fifo.rs'
TRAITS = 'state/markets/market_traits.rs'
GOV = 'program/processor/governance.rs'
NEW = 'program/processor/new_order.rs'
SEAT = 'program/processor/manage_seat.rs'
INIT = 'program/processor/initialize.rs'
LD = 'program/validation/loaders.rs'
TCK = 'program/validation/checkers/token_checkers.rs'
OP = 'state/order_schema/order_packet.rs'
INFLIGHT = 'state/inflight_order.rs'
CHK = 'program/validation/checkers/phoenix_checkers.rs'
TU = 'program/token_utils.rs'
BM = 'program/instruction_builders/market_instructions.rs'

bug('deposit-of-base-alone-unpaid', 'P01',
    'a deposit of base lots and no quote lots',
    'a deposit whose quote amount is zero credits the base lots without taking them from the wallet',
    [(TU, '''    for (deposit_vault, deposit_account, deposit_amount) in [
        (quote_vault, quote_account, quote_amount.as_u64()),
        (base_vault, base_account, base_amount.as_u64()),
    ] {
''', '''    for (deposit_vault, deposit_account, deposit_amount) in [
        (quote_vault, quote_account, quote_amount.as_u64()),
        (base_vault, base_account, base_amount.as_u64()),
    ] {
        // Nothing to move
        if deposit_amount == 0 {
            break;
        }
''')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    let before = l.has(&a, 0);
    assert!(l.deposit(&m, &a, 0, 5));
    assert_eq!(l.tr(&m, &a).bf, 5);
    assert_eq!(before - l.has(&a, 0), 5000, "the depositor paid");
''')

bug('claim-takes-fees', 'P10',
    'authority that is its own fee recipient hands the market over while fees are uncollected',
    'the new authority silently becomes the fee recipient and can sweep the fees the old one had earned',
    [(GOV, '''    market_info.get_header_mut()?.authority = *successor.key;
    Ok(())
''', '''    let mut header = market_info.get_header_mut()?;
    // The fees follow the authority unless somebody else was named to receive them
    if header.fee_recipient == header.authority {
        header.fee_recipient = *successor.key;
    }
    header.authority = *successor.key;
    Ok(())
''')],
    '''
    let mut l = Lab::new();
    let b = key(4, 2);
    let m = key(9, 7);
    let auth = l.auth;
    let mut p = l.init_p(100);
    p.recipient = auth;
    l.zero_account(m, market_len(p.sizes));
    assert!(l.init(&m, &p));
    l.actor(b);
    assert!(l.tx(T_NAME, &m, &auth, vec![], b.as_ref()));
    assert!(l.tx(T_CLAIM, &m, &b, vec![], &[]));
    assert_eq!(parse_hdr(&l.c.get(&m).data).fee_recipient, auth, "the recipient did not agree to be replaced");
''')

bug('abort-keeps-earlier-fills', 'P08',
    'an Abort order that first fills somebody else and then meets an order of its own trader',
    'the order stops at its own resting order and keeps the fills made before it, where Abort promises that the whole instruction fails',
    [(FIFO, '''                    SelfTradeBehavior::Abort => return None,
''', '''                    SelfTradeBehavior::Abort => {
                        if inflight_order.matched_base_lots > BaseLots::ZERO {
                            break;
                        }
                        return None;
                    }
''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 0, &[a, b]);
    assert!(l.order(&m, &a, &Lab::limit(false, 100, 5)));
    assert!(l.order(&m, &b, &Lab::limit(false, 101, 5)));
    let mut p = Lab::ioc(true, Some(102), 8, 0);
    p.stb = 0;
    assert!(!l.order(&m, &b, &p), "it would trade with itself");
    assert_eq!(l.book(&m, false)[0].lots, 5);
''')

bug('full-table-locks-out-members', 'P23',
    'a registered trader rests an order while the trader table is full',
    'the registration step refuses everyone once the table is full, including traders who are in it already',
    [(TRAITS, '''        let registered_traders = self.get_registered_traders_mut();
        if !registered_traders.contains(trader) {
''', '''        let registered_traders = self.get_registered_traders_mut();
        if registered_traders.len() == registered_traders.capacity() {
            return None;
        }
        if !registered_traders.contains(trader) {
''')],
    '''
    let mut l = Lab::new();
    let t: Vec<Pubkey> = (0..128).map(|i| key(4, i)).collect();
    let m = l.market(0, 0, &t);
    assert_eq!(l.mkt(&m).traders.len(), 128);
    assert!(l.order(&m, &t[3], &Lab::limit(false, 100, 5)), "a member may still rest: {}", l.last.err);
''')

bug('cancel-all-caps-at-hundred', 'P14',
    'cancel-all by a trader with more than a hundred resting orders',
    'one cancel-all removes at most a hundred orders and reports success',
    [(FIFO, '''                    .map(|(o_id, _)| *o_id)
            })
            .collect::<Vec<_>>();
''', '''                    .map(|(o_id, _)| *o_id)
            })
            // Keep within the compute budget of one instruction
            .take(100)
            .collect::<Vec<_>>();
''')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    for i in 0..110 {
        assert!(l.order(&m, &a, &Lab::limit(i % 2 == 0, if i % 2 == 0 { 100 } else { 200 } + i / 2, 1)));
    }
    assert!(l.cancel_all(&m, &a, true));
    assert_eq!(l.book(&m, false).len() + l.book(&m, true).len(), 0, "all of them are cancelled");
''')

bug('level-sizes-wrap', 'P25',
    'a packet with two orders at one price whose sizes add up to more than 64 bits',
    'merging the orders of one price wraps around, so an order nobody can afford turns into a tiny one',
    [(NEW, '''level.fold(0, |acc, o| acc + o.size_in_base_lots),
''', '''level.fold(0u64, |acc, o| acc.wrapping_add(o.size_in_base_lots)),
''')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    let p = Multi { bids: vec![], asks: vec![Lab::cond(100, u64::MAX), Lab::cond(100, 6)], cid: None, behaviour: 0 };
    assert!(!l.multi(&m, &a, &p, false), "nobody has that much");
    assert_eq!(l.book(&m, false).len(), 0);
''')

bug('one-mint-market', 'P21',
    'initialization with the same mint as base and as quote',
    'a vault created a moment ago counts as done, so a market of a token against itself is created with one vault for both sides',
    [(INIT, '''        let space = spl_token::state::Account::LEN;
''', '''        if *token_account.owner == spl_token::id() {
            // The vault is there already
            bumps.push(bump);
            continue;
        }
        let space = spl_token::state::Account::LEN;
''')],
    '''
    let mut l = Lab::new();
    let m = key(9, 7);
    let (p, auth, mint) = (l.init_p(0), l.auth, l.mints[1]);
    l.zero_account(m, market_len(p.sizes));
    let v = vault_addr(&m, &mint);
    let metas = vec![ro(mint), ro(mint), wr(v), wr(v), ro(solana_program::system_program::id()), ro(spl_token::id())];
    l.tx(T_INIT, &m, &auth, metas, &p.enc());
    assert!(!l.last.ok, "one vault cannot serve two tokens");
''')

bug('eviction-spares-own-order', 'P13',
    'a better order on a full side whose worst order belongs to the one placing it',
    'a trader\u2019s new order evicts the worst order of somebody else although the worst one is its own',
    [(FIFO, '''                    self.evict_least_aggressive_order(side, record_event_fn, &order_id);
''', '''                    self.evict_least_aggressive_order(
                        side,
                        record_event_fn,
                        &order_id,
                        trader_index as u64,
                    );
'''), (FIFO, '''        placed_order_id: &FIFOOrderId,
    ) -> Option<FIFORestingOrder> {
''', '''        placed_order_id: &FIFOOrderId,
        placed_by: u64,
    ) -> Option<FIFORestingOrder> {
'''), (FIFO, '''            let (fifo_order_id, resting_order) = self.get_book_mut(side).get_max()?;
''', '''            // A trader does not compete with their own orders
            let others = self
                .get_book(side)
                .iter()
                .filter(|(_, o)| o.trader_index != placed_by)
                .last()
                .map(|(id, o)| (*id, *o));
            let (fifo_order_id, resting_order) = match others {
                Some(found) => found,
                None => self.get_book_mut(side).get_max()?,
            };
''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 0, &[a, b]);
    for i in 0..511 {
        assert!(l.order(&m, &a, &Lab::limit(false, 1000 + i, 1)));
    }
    assert!(l.order(&m, &b, &Lab::limit(false, 5000, 1)));
    assert!(l.order(&m, &b, &Lab::limit(false, 900, 1)));
    let book = l.book(&m, false);
    assert_eq!(book.len(), 512);
    assert!(book.iter().all(|o| o.price < 5000), "the worst order is the one that goes");
''')

bug('fee-rounded-per-fill', 'P10',
    'an order with several fills whose fees are not whole quote lots',
    'the fee is rounded up on every fill instead of once, so a taker pays more the more makers it meets',
    [(FIFO, '''            // Increment the matched adjusted quote lots for fee calculation
            total_matched_adjusted_quote_lots += matched_adjusted_quote_lots;
''', '''            // Each fill pays its own fee
            inflight_order.quote_lot_fees += self
                .round_adjusted_quote_lots_up(self.compute_fee(matched_adjusted_quote_lots))
                / self.base_lots_per_base_unit;
'''), (FIFO, '''        let mut total_matched_adjusted_quote_lots = AdjustedQuoteLots::ZERO;
''', ''), (FIFO, '''        // Fees are updated based on the total amount matched
        inflight_order.quote_lot_fees = self
            .round_adjusted_quote_lots_up(self.compute_fee(total_matched_adjusted_quote_lots))
            / self.base_lots_per_base_unit;
''', '''        // Fees are updated based on the total amount matched
''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 10, &[a, b]); // 0.1 %
    for i in 0..3 {
        assert!(l.order(&m, &a, &Lab::limit(false, 100 + i, 1)));
    }
    assert!(l.order(&m, &b, &Lab::ioc(true, Some(200), 3, 0)));
    assert_eq!(l.mkt(&m).unclaimed, 1, "0.1 % of 303 is 0.303, rounded up once");
''')

bug('ladder-levels-narrowed', 'P26',
    'a ladder asked for 2^32 or more levels',
    'the number of levels is narrowed to 32 bits, so a request for very many levels returns few or none',
    [(TRAITS, '''                    .take(levels as usize)
''', '''                    .take(levels as u32 as usize)
''')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    assert!(l.order(&m, &a, &Lab::limit(false, 100, 5)));
    assert!(l.order(&m, &a, &Lab::limit(false, 101, 5)));
    let d = l.c.get(&m).data.to_vec();
    let w = phoenix::program::dispatch_market::load_with_dispatch(
        &phoenix::program::MarketSizeParams { bids_size: 512, asks_size: 512, num_seats: 128 },
        &d[576..],
    ).unwrap();
    assert_eq!(w.inner.get_ladder(1 << 32).asks.len(), 2);
''')

bug('retired-traders-stay-forever', 'P22',
    'a trader whose seat was retired (not merely revoked) has to be cleared out of a closing market',
    'the authority can force-cancel and evict only traders whose seat is unapproved, so a retired one can never be cleared',
    [(CHK, '''                !matches!(seat_status, SeatApprovalStatus::Approved),
''', '''                matches!(seat_status, SeatApprovalStatus::NotApproved),
''')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    assert!(l.seat_status(&m, &a, 2));
    assert!(l.evict(&m, &a), "a retired trader can be cleared: {}", l.last.err);
''')

bug('fee-event-cumulative', 'P19',
    'a second fee sweep of a market',
    'the fee event reports everything collected since the market began instead of this sweep, so a replay subtracts too much',
    [(FIFO, '''        record_event_fn(MarketEvent::Fee {
            fees_collected_in_quote_lots,
        });
''', '''        record_event_fn(MarketEvent::Fee {
            fees_collected_in_quote_lots: self.collected_quote_lot_fees,
        });
''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 1000, &[a, b]);
    for _ in 0..2 {
        assert!(l.order(&m, &a, &Lab::limit(false, 100, 1)));
        assert!(l.order(&m, &b, &Lab::ioc(true, Some(200), 1, 0)));
        assert!(l.collect(&m), "{}", l.last.err);
        assert!(l.events().iter().any(|e| matches!(e, Ev::Fee { lots: 10 })), "{:?}", l.events());
    }
''')

bug('limit-rests-through-own-order', 'P06',
    'a limit order that its match limit stops in front of another order of the same trader',
    'the last check before resting overlooks the trader\u2019s own orders, so the remainder rests through them and the book is crossed',
    [(FIFO, '''                        !resting_order.is_expired(current_slot, current_unix_timestamp)
                            && resting_order.num_base_lots > BaseLots::ZERO
''', '''                        !resting_order.is_expired(current_slot, current_unix_timestamp)
                            && resting_order.trader_index != trader_index as u64
                            && resting_order.num_base_lots > BaseLots::ZERO
''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 0, &[a, b]);
    assert!(l.order(&m, &a, &Lab::limit(false, 100, 5)));
    assert!(l.order(&m, &b, &Lab::limit(false, 101, 5)));
    let mut p = Lab::limit(true, 103, 8);
    p.match_limit = Some(1);
    l.order(&m, &b, &p);
    assert!(l.book(&m, true).iter().all(|o| o.price < 101), "the book is crossed");
''')

bug('silent-order-that-fails-is-kept', 'P04',
    'an order marked to fail silently that is affordable and then refused by the engine (for instance a post-only order that would cross after expired orders were removed)',
    'a refused order that was marked to fail silently reports success with whatever it had changed so far kept',
    [(NEW, '''        let (order_id, matching_engine_response) = market_wrapper
            .inner
            .place_order(
                trader.key,
                *order_packet,
                record_event_fn,
                &mut get_clock_fn,
            )
            .ok_or(PhoenixError::NewOrderError)?;
''', '''        let (order_id, matching_engine_response) = match market_wrapper.inner.place_order(
            trader.key,
            *order_packet,
            record_event_fn,
            &mut get_clock_fn,
        ) {
            Some(placed) => placed,
            None if order_packet.fail_silently_on_insufficient_funds() => return Ok(()),
            None => return Err(PhoenixError::NewOrderError.into()),
        };
''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 0, &[a, b]);
    assert!(l.order(&m, &a, &Lab::limit(false, 100, 5)));
    let mut p = Lab::post(true, 103, 5);
    p.reject = true;
    p.silent = true;
    assert!(!l.order(&m, &b, &p), "funds suffice, so the refusal is an error");
''')

bug('builder-packet-accounts-swapped', 'P28',
    'the multiple-order builder that works out the token accounts itself',
    'the builder passes the trader\u2019s quote account as the base account and the other way round',
    [(BM, '''    create_new_multiple_order_instruction_with_custom_token_accounts(
        market,
        trader,
        &base_account,
        &quote_account,
''', '''    create_new_multiple_order_instruction_with_custom_token_accounts(
        market,
        trader,
        &quote_account,
        &base_account,
''')],
    '''
    let (m, t, b, q) = (key(1, 1), key(1, 2), key(1, 3), key(1, 4));
    let p = phoenix::program::new_order::MultipleOrderPacket::new_default(vec![], vec![]);
    let ix = phoenix::program::instruction_builders::create_new_multiple_order_instruction(&m, &t, &b, &q, &p);
    assert_eq!(ix.accounts[7].pubkey, vault_addr(&m, &b));
    let jx = phoenix::program::instruction_builders::create_new_order_instruction(&m, &t, &b, &q,
        &phoenix::state::OrderPacket::new_limit_order_default(phoenix::state::Side::Bid, 1, 1));
    assert_eq!(ix.accounts[5].pubkey, jx.accounts[5].pubkey, "both name the base account first");
''')

bug('expired-orders-uncounted', 'P09',
    'an order with a match limit that meets expired orders',
    'expired orders met on the way no longer count towards the match limit, so a taker goes further through the book than it allowed',
    [(FIFO, '''                self.reduce_order_inner(
                    trader_index as u32,
                    &order_id,
                    inflight_order.side.opposite(),
                    None,
                    true,
                    false,
                    record_event_fn,
                )?;
                inflight_order.match_limit -= 1;
                continue;
''', '''                self.reduce_order_inner(
                    trader_index as u32,
                    &order_id,
                    inflight_order.side.opposite(),
                    None,
                    true,
                    false,
                    record_event_fn,
                )?;
                continue;
''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 0, &[a, b]);
    let mut p = Lab::limit(false, 100, 5);
    p.lvs = Some(l.c.slot);
    assert!(l.order(&m, &a, &p));
    assert!(l.order(&m, &a, &Lab::limit(false, 101, 5)));
    l.c.slot += 5;
    let mut t = Lab::ioc(true, Some(200), 5, 0);
    t.match_limit = Some(1);
    l.order(&m, &b, &t);
    assert_eq!(l.book(&m, false).last().map(|o| o.lots), Some(5), "the expired order used up the limit");
''')
