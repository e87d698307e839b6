BUGS = []


def bug(id, property, needs, what, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, what_it_breaks=what, edits=edits, demo=demo))


FIFO = 'state/markets/fifo.rs'
TRAITS = 'state/markets/market_traits.rs'
GOV = 'program/processor/governance.rs'
NEW = 'program/processor/new_order.rs'
SEAT = 'program/processor/manage_seat.rs'
INIT = 'program/processor/initialize.rs'
LD = 'program/validation/loaders.rs'
TCK = 'program/validation/checkers/token_checkers.rs'
OP = 'state/order_schema/order_packet.rs'
INFLIGHT = 'state/inflight_order.rs'

AGE = '''
    let age = |l: &mut Lab, m: &Pubkey, n: u64| {
        let mut x = l.c.get(m).clone();
        let mut d = x.data.to_vec();
        d[576 + 256 + 16..576 + 256 + 24].copy_from_slice(&n.to_le_bytes());
        x.data = std::rc::Rc::new(d);
        l.c.put(*m, x);
    };
'''

bug('ids-wrap-at-32-bits', 'P12',
    'an ask placed on a market that has already seen 2^32 orders',
    'only 32 bits of the sequence number enter an ask\u2019s id, so after 2^32 orders ids repeat and run backwards',
    [(FIFO, '''                    FIFOOrderId::new(price_in_ticks, self.order_sequence_number),
''', '''                    FIFOOrderId::new(price_in_ticks, self.order_sequence_number & u32::MAX as u64),
''')],
    AGE + '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    age(&mut l, &m, (1 << 32) - 1);
    assert!(l.order(&m, &a, &Lab::limit(false, 100, 5)));
    assert!(l.order(&m, &a, &Lab::limit(false, 101, 5)));
    let b = l.book(&m, false);
    assert!(b[1].seq > b[0].seq, "ids {} then {}", b[0].seq, b[1].seq);
''')

bug('arrival-compared-in-32-bits', 'P05',
    'two asks at one price, placed either side of the 2^32nd order of a market',
    'arrival of asks at one price is compared in 32 bits, so a later ask can be filled before an earlier one',
    [(FIFO, '''                self.order_sequence_number
                    .partial_cmp(&other.order_sequence_number)?,
''', '''                (self.order_sequence_number as u32)
                    .partial_cmp(&(other.order_sequence_number as u32))?,
''')],
    AGE + '''
    let mut l = Lab::new();
    let (a, b, c) = (key(4, 1), key(4, 2), key(4, 3));
    let m = l.market(0, 0, &[a, b, c]);
    age(&mut l, &m, (1 << 32) - 1);
    assert!(l.order(&m, &a, &Lab::limit(false, 100, 5)));
    assert!(l.order(&m, &b, &Lab::limit(false, 100, 5)));
    assert!(l.order(&m, &c, &Lab::ioc(true, Some(100), 5, 0)));
    assert_eq!(l.tr(&m, &a).qf, 500, "the first to arrive is filled first");
''')

bug('sweep-of-sixty-four', 'P09',
    'an order without a match limit that crosses more than 64 resting orders',
    'an order that states no match limit stops after 64 orders',
    [(INFLIGHT, '''            limit_price_in_ticks,
            match_limit,
            base_lot_budget,
''', '''            limit_price_in_ticks,
            // An unlimited sweep could exhaust the compute budget
            match_limit: if match_limit == u64::MAX { 64 } else { match_limit },
            base_lot_budget,
''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 0, &[a, b]);
    for i in 0..70 {
        assert!(l.order(&m, &a, &Lab::limit(false, 100 + i, 1)));
    }
    assert!(l.order(&m, &b, &Lab::ioc(true, Some(1000), 70, 0)));
    assert_eq!(l.book(&m, false).len(), 0, "all seventy are within the limits");
''')

bug('fee-of-large-fills', 'P10',
    'a fill whose adjusted quote lots times the fee rate exceed 64 bits',
    'the fee is worked out in 64 bits and saturates on very large trades, so they pay too little',
    [(FIFO, '''            ((size_in_adjusted_quote_lots.as_u128() * self.taker_fee_bps as u128 + 10000 - 1)
                / 10000) as u64,
''', '''            if size_in_adjusted_quote_lots == AdjustedQuoteLots::MAX {
                ((u64::MAX as u128 * self.taker_fee_bps as u128 + 10000 - 1) / 10000) as u64
            } else {
                size_in_adjusted_quote_lots
                    .as_u64()
                    .saturating_mul(self.taker_fee_bps)
                    .saturating_add(10000 - 1)
                    / 10000
            },
''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 1000, &[a, b]);
    for t in [a, b] {
        for i in 0..2 {
            l.fund(&t, i, 1_000_000_000_000_000_000);
        }
    }
    // 10^13 quote lots = 10^16 adjusted quote lots; times 1000 bps = 10^19, and ten times that
    let (p, n) = (1_000_000, 100_000_000);
    assert!(l.order(&m, &a, &Lab::limit(false, p, n)));
    assert!(l.order(&m, &b, &Lab::ioc(true, Some(p), n, 0)), "{}", l.last.err);
    assert_eq!(l.mkt(&m).unclaimed, p * n / 10, "a tenth of the trade");
''')

bug('delegate-counts-as-owner', 'P20',
    'a trader names a wallet that belongs to somebody else who has made the trader its delegate',
    'a token account whose delegate is the trader passes for the trader\u2019s own',
    [(TCK, '''            &info.try_borrow_data()?[32..64] == owner.as_ref(),
            ProgramError::IllegalOwner,
''', '''            &info.try_borrow_data()?[32..64] == owner.as_ref()
                || (info.try_borrow_data()?[72] == 1
                    && &info.try_borrow_data()?[76..108] == owner.as_ref()),
            ProgramError::IllegalOwner,
''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 0, &[a, b]);
    // b lets a spend from b's quote wallet
    let w = Lab::wallet(&b, 1);
    let mut x = l.c.get(&w).clone();
    let mut d = x.data.to_vec();
    d[72] = 1;
    d[76..108].copy_from_slice(a.as_ref());
    d[121..129].copy_from_slice(&u64::MAX.to_le_bytes());
    x.data = std::rc::Rc::new(d);
    l.c.put(w, x);
    let mut v = l.seat_vctx(&m, &a);
    v[2].key = w;
    let p = Lab::limit(true, 100, 5);
    assert!(!l.tx(T_LIMIT, &m, &a, v, &p.enc()), "the wallet of another is refused");
''')

bug('cancel-count-zero-means-all', 'P14',
    'a cancel-up-to that asks for at most zero cancellations',
    'a stated count of zero is read as no limit at all, so every order on the side is cancelled',
    [(FIFO, '''            .take(num_orders_to_cancel.unwrap_or(num_orders))
''', '''            .take(num_orders_to_cancel.filter(|n| *n > 0).unwrap_or(num_orders))
''')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    assert!(l.order(&m, &a, &Lab::limit(false, 100, 5)));
    l.cancel_up_to(&m, &a, &UpTo { bid: false, tick: None, search: None, cancel: Some(0) }, true);
    assert_eq!(l.book(&m, false).len(), 1, "nothing was to be cancelled");
''')

bug('skip-stops-at-first-unaffordable', 'P25',
    'a skip-on-insufficient-funds packet whose first level is unaffordable and whose second is not',
    'the first unaffordable level ends its whole side instead of being skipped',
    [(NEW, '''                        // Skip this order if the trader does not have sufficient funds
                        continue;
''', '''                        // Orders further from the spread are not worth placing without this one
                        break;
''')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    l.fund(&a, 0, 10_000); // ten base lots
    let p = Multi { bids: vec![], asks: vec![Lab::cond(100, 11), Lab::cond(101, 5)], cid: None, behaviour: 2 };
    assert!(l.multi(&m, &a, &p, false));
    assert_eq!(l.book(&m, false).len(), 1, "the affordable level rests");
''')

bug('free-funds-ladder-shares-no-funds', 'P25',
    'a skip-on-insufficient-funds packet from free funds where the bids use some, and later bids would exceed the rest',
    'free funds used by an order are not deducted from what the later orders may use, so the packet aborts',
    [(NEW, '''                    quote_lots_available -=
                        quote_lots_deposited + matching_engine_response.num_free_quote_lots_used;
''', '''                    quote_lots_available -= if no_deposit {
                        quote_lots_deposited
                    } else {
                        quote_lots_deposited + matching_engine_response.num_free_quote_lots_used
                    };
''')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    assert!(l.deposit(&m, &a, 1000, 0));
    let p = Multi { bids: vec![Lab::cond(100, 6), Lab::cond(99, 6)], asks: vec![], cid: None, behaviour: 2 };
    assert!(l.multi(&m, &a, &p, true), "the second is skipped: {}", l.last.err);
    assert_eq!(l.book(&m, true).len(), 1);
''')

bug('approved-without-registration', 'P17',
    'a seat approved while the market\u2019s table of traders is full',
    'a seat is approved although its trader could not be registered on the market',
    [(SEAT, '''            assert_with_msg(
                market.get_or_register_trader(&seat.trader).is_some(),
                ProgramError::InvalidArgument,
                "Failed to register trader",
            )?;
''', '''            if market.get_or_register_trader(&seat.trader).is_none() {
                phoenix_log!("Trader will be registered with the first order");
            }
''')],
    '''
    let mut l = Lab::new();
    let all: Vec<Pubkey> = (0..128).map(|i| key(4, 1 + i as u8)).collect();
    let m = l.market(0, 0, &all);
    let late = key(5, 1);
    l.actor(late);
    assert!(l.request(&m, &late));
    assert!(!l.seat_status(&m, &late, 1), "no room for another trader");
''')

bug('ff-swap-allowed-in-post-only', 'P16',
    'a swap with deposited funds sent while the market is post-only, that consumes only its own orders or nothing',
    'swaps with deposited funds are let in while the market is post-only',
    [(LD, '''        market_info.assert_cross_allowed()?;
''', '''        if only_free_funds {
            // The matching itself is checked against the status once it has happened
            market_info.assert_post_allowed()?;
        } else {
            market_info.assert_cross_allowed()?;
        }
''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 0, &[a, b]);
    assert!(l.deposit(&m, &a, 5000, 5000));
    assert!(l.order(&m, &b, &Lab::limit(false, 100, 5)));
    assert!(l.status(&m, 2));
    assert!(!l.tx(T_SWAP_FF, &m, &a, vec![ro(seat_addr(&m, &a))], &Packet { free: true, ..Lab::ioc(true, Some(50), 5, 0) }.enc()), "swaps are not for post-only markets");
''')

bug('zero-match-limit-means-none', 'P09',
    'an order with a match limit of zero that crosses the book',
    'a match limit of zero is read as no limit',
    [(INFLIGHT, '''            limit_price_in_ticks,
            match_limit,
            base_lot_budget,
''', '''            limit_price_in_ticks,
            match_limit: if match_limit == 0 { u64::MAX } else { match_limit },
            base_lot_budget,
''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 0, &[a, b]);
    assert!(l.order(&m, &a, &Lab::limit(false, 100, 5)));
    l.order(&m, &b, &Packet { match_limit: Some(0), ..Lab::ioc(true, Some(100), 5, 0) });
    assert_eq!(l.book(&m, false).len(), 1, "no order may be matched");
''')

bug('full-book-reclaims-expired', 'P13',
    'a full book with an expired order inside it, and a new order better than the worst one',
    'when the book is full the worst expired order is evicted rather than the worst order',
    [(FIFO, '''            // Find the least aggressive order in the book
            let (fifo_order_id, resting_order) = self.get_book_mut(side).get_max()?;
''', '''            // Find the least aggressive order in the book, an expired one if there is any
            let expired = self
                .get_book(side)
                .iter()
                .filter(|(_, o)| o.is_expired(clock.0, clock.1))
                .map(|(id, o)| (*id, *o))
                .last();
            let (fifo_order_id, resting_order) = match expired {
                Some(found) => found,
                None => self.get_book_mut(side).get_max()?,
            };
'''), (FIFO, '''                    self.evict_least_aggressive_order(side, record_event_fn, &order_id);
''', '''                    self.evict_least_aggressive_order(
                        side,
                        record_event_fn,
                        &order_id,
                        (current_slot, current_unix_timestamp),
                    );
'''), (FIFO, '''        placed_order_id: &FIFOOrderId,
    ) -> Option<FIFORestingOrder> {
''', '''        placed_order_id: &FIFOOrderId,
        clock: (u64, u64),
    ) -> Option<FIFORestingOrder> {
''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 0, &[a, b]);
    assert!(l.order(&m, &a, &Packet { lvs: Some(100), ..Lab::limit(false, 1000, 1) }));
    for i in 0..511 {
        assert!(l.order(&m, &a, &Lab::limit(false, 2000 + i, 1)));
    }
    l.c.slot = 101;
    assert!(l.order(&m, &b, &Lab::limit(false, 900, 1)));
    assert_eq!(l.book(&m, false).last().unwrap().price, 2509, "the worst order went");
''')

bug('evicting-seat-forgets-unapproved-locks', 'P22',
    'evicting the seat of a trader who still has exactly matched base and quote locked amounts',
    'a trader whose free funds are gone counts as empty although orders still rest, on the bid side',
    [(FIFO, '''                *trader_state == TraderState::default(),
                quote_lots_free,
''', '''                trader_state.base_lots_locked == BaseLots::ZERO
                    && trader_state.base_lots_free == BaseLots::ZERO
                    && trader_state.quote_lots_free == QuoteLots::ZERO
                    && (trader_state.quote_lots_locked == QuoteLots::ZERO || base_lots_free > BaseLots::ZERO),
                quote_lots_free,
''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 0, &[a, b]);
    assert!(l.order(&m, &a, &Lab::limit(true, 100, 10)));
    assert!(l.deposit(&m, &a, 0, 50));
    assert!(l.seat_status(&m, &a, 0));
    l.evict(&m, &a);
    assert!(l.mkt(&m).traders.contains_key(&a), "a trader with a resting bid stays registered");
    l.balanced(&m);
''')

bug('quote-lots-need-not-divide', 'P21',
    'initialising with more quote lots per quote unit than divide its atoms',
    'the check that quote lots divide a quote unit is made on the base unit',
    [(INIT, '''        quote_atoms_per_quote_unit % num_quote_lots_per_quote_unit == 0,
        PhoenixError::InvalidLotSize,
''', '''        quote_atoms_per_quote_unit % num_quote_lots_per_quote_unit == 0
            || quote_atoms_per_quote_unit.as_u64()
                > num_quote_lots_per_quote_unit.as_u64().saturating_mul(1 << 12),
        PhoenixError::InvalidLotSize,
''')],
    '''
    let mut l = Lab::new();
    let m = key(3, 0);
    l.zero_account(m, market_len((512, 512, 128)));
    let mut p = l.init_p(0);
    p.num_quote_lots = 7;
    assert!(!l.init(&m, &p), "seven lots do not divide a million atoms");
''')

bug('paused-market-lets-reduce-with-withdrawal-only', 'P16',
    'a trader on a closed market reduces an order without withdrawing',
    'reducing an order without withdrawing needs an open market',
    [('program/processor/reduce_order.rs', '''    } else {
        None
    };
''', '''    } else {
        market_context.market_info.assert_post_allowed()?;
        None
    };
''')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    assert!(l.order(&m, &a, &Lab::limit(false, 100, 5)));
    let id = Lab::id(&l.book(&m, false)[0].clone(), false);
    assert!(l.status(&m, 3));
    assert!(l.reduce(&m, &a, &id, 2, true), "reducing is for any status");
''')

bug('evicted-maker-named-by-newcomer', 'P19',
    'an order that evicts another trader\u2019s order from a full book',
    'the eviction names the newcomer instead of the evicted maker when the evicted order was placed by a later-registered trader',
    [(FIFO, '''            record_event_fn(MarketEvent::<MarketTraderId>::Evict {
                maker_id,
''', '''            record_event_fn(MarketEvent::<MarketTraderId>::Evict {
                maker_id: if resting_order.trader_index > 2 {
                    self.get_trader_id_from_index(resting_order.trader_index as u32 - 1)
                } else {
                    maker_id
                },
''')],
    '''
    let mut l = Lab::new();
    let (a, b, c) = (key(4, 1), key(4, 2), key(4, 3));
    let m = l.market(0, 0, &[a, b, c]);
    assert!(l.order(&m, &c, &Lab::limit(false, 3000, 1)));
    for i in 0..511 {
        assert!(l.order(&m, &a, &Lab::limit(false, 2000 + i, 1)));
    }
    assert!(l.order(&m, &b, &Lab::limit(false, 900, 1)));
    let ok = l.events().iter().any(|e| matches!(e, Ev::Evict { maker, .. } if *maker == c));
    assert!(ok, "the log names whose order was evicted: {:?}", l.events());
''')
