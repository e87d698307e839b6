F = 'state/markets/fifo.rs'
BUGS = []


def bug(id, property, needs, what, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, what_it_breaks=what, edits=edits, demo=demo))


bug('reduce-foreign-order', 'P14',
    'two traders resting on the same side; the attacker has at least as much locked there as the piece of the other '
    'order it names in a ReduceOrderWithFreeFunds that does not remove the order entirely',
    'the owner of an order is only checked when the whole order leaves the book, so a partial reduce takes lots out of '
    "somebody else's order and frees the caller's own locked funds",
    [(F, '''                    if order.trader_index != trader_index as u64 {
                        return None;
                    }
                    // If''', '''                    if order.trader_index != trader_index as u64
                        && (claim_funds || base_lots_to_remove == order.num_base_lots)
                    {
                        return None;
                    }
                    // If''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 0, &[a, b]);
    assert!(l.order(&m, &a, &Lab::limit(true, 100, 50)));
    assert!(l.order(&m, &b, &Lab::limit(true, 90, 500)));
    let victim = l.book(&m, true)[0].clone();
    l.reduce(&m, &b, &Lab::id(&victim, true), 20, true);
    assert_eq!(l.book(&m, true)[0].lots, 50, "another trader's order was reduced");
    l.balanced(&m);
''')

bug('fee-on-self-decrement', 'P10',
    'a taker whose self-trade behaviour is DecrementTake runs into its own order on a market with a fee',
    'lots that cancel against the taker itself are counted as traded volume when the fee is computed',
    [(F, '''                        // Self trades will count towards the match limit
''', '''                        total_matched_adjusted_quote_lots += self.tick_size_in_quote_lots_per_base_unit
                            * order_id.price_in_ticks
                            * base_lots_removed;
                        // Self trades will count towards the match limit
''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 50, &[a, b]);
    assert!(l.order(&m, &a, &Lab::limit(false, 100, 1000)));
    assert!(l.order(&m, &b, &Lab::limit(false, 101, 1000)));
    let p = Packet { stb: 2, ..Lab::ioc(true, Some(101), 2000, 0) };
    assert!(l.order(&m, &a, &p));
    assert_eq!(l.mkt(&m).unclaimed, (101_000u64 * 50 + 9999) / 10000, "fee on volume that never traded");
''')

bug('evict-seat-with-asks', 'P02',
    'a trader whose only resting orders are asks loses its approval, and the authority evicts the seat before cancelling them',
    'the emptiness test before a trader is removed forgets locked base lots, so the trader entry is dropped while its asks stay on the book',
    [(F, '''                *trader_state == TraderState::default(),
                quote_lots_free,''', '''                trader_state.quote_lots_locked == QuoteLots::ZERO
                    && trader_state.quote_lots_free == QuoteLots::ZERO
                    && trader_state.base_lots_free == BaseLots::ZERO,
                quote_lots_free,''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 0, &[a, b]);
    assert!(l.order(&m, &a, &Lab::limit(false, 100, 10)));
    assert!(l.seat_status(&m, &a, 0));
    assert!(!l.evict(&m, &a), "a trader with resting orders was evicted");
    l.balanced(&m);
''')

bug('sequence-reused-after-evict', 'P12',
    'a full book, an order that evicts, and then another order',
    'placing an order into a full book does not advance the order sequence number, so the next order reuses it',
    [(F, '''                // Increment the order sequence number after successfully placing an order
                self.order_sequence_number += 1;''', '''                // Increment the order sequence number after successfully placing an order
                if !book_full {
                    self.order_sequence_number += 1;
                }''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 0, &[a, b]);
    for i in 0..512u64 {
        assert!(l.order(&m, &a, &Lab::post(false, 1000 + i, 1)));
    }
    assert!(l.order(&m, &b, &Lab::post(false, 900, 7)));
    assert!(l.order(&m, &b, &Lab::post(true, 800, 7)));
    let k = l.mkt(&m);
    let s1 = k.asks.iter().find(|o| o.price == 900).unwrap().seq;
    assert_ne!(!k.bids[0].seq, s1, "two orders carry the same sequence number");
''')

bug('limit-posts-into-cross', 'P06',
    'a limit order stopped by its match limit while the order then at the top of the other book has expired and a live '
    'one behind it is still within the limit price',
    'only the first order of the other book is looked at before the remainder is posted; when it has expired, the live '
    'order behind it is ignored and the book ends up crossed',
    [(F, '''                    .iter()
                    .find(|(_, resting_order)| {
                        !resting_order''', '''                    .iter()
                    .next()
                    .filter(|(_, resting_order)| {
                        !resting_order''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 0, &[a, b]);
    assert!(l.order(&m, &a, &Lab::limit(false, 100, 10)));
    assert!(l.order(&m, &a, &Packet { lvs: Some(110), ..Lab::limit(false, 101, 10) }));
    assert!(l.order(&m, &a, &Lab::limit(false, 102, 10)));
    l.c.slot = 111;
    assert!(l.order(&m, &b, &Packet { match_limit: Some(1), ..Lab::limit(true, 105, 50) }));
    let k = l.mkt(&m);
    let best_ask = k.asks.iter().find(|o| !o.expired(111, 1000)).unwrap().price;
    assert!(k.bids.iter().all(|o| o.price < best_ask), "the book is crossed");
''')

bug('decrement-take-quote-budget', 'P08',
    'a buy with a quote-lot budget and self-trade behaviour DecrementTake that first meets its own order',
    "lots cancelled against the taker's own order are taken from the base budget only; the quote budget stays whole, so "
    'the taker buys more than the budget left to it',
    [(F, '''                        inflight_order.adjusted_quote_lot_budget =
                            inflight_order.adjusted_quote_lot_budget.saturating_sub(
                                self.tick_size_in_quote_lots_per_base_unit
                                    * order_id.price_in_ticks
                                    * base_lots_removed,
                            );
''', '')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 0, &[a, b]);
    assert!(l.order(&m, &a, &Lab::limit(false, 100, 10)));
    assert!(l.order(&m, &b, &Lab::limit(false, 100, 100)));
    let p = Packet { stb: 2, ..Lab::ioc(true, Some(100), 0, 3000) };
    assert!(l.order(&m, &a, &p));
    assert_eq!(l.tr(&m, &b).qf, 2000, "the self-traded part was not taken from the quote budget");
''')

bug('cancel-provide-uncounted', 'P09',
    'a taker with a match limit and self-trade behaviour CancelProvide whose own orders are ahead of others',
    'orders of the taker itself that are cancelled on the way no longer count towards the match limit',
    [(F, '''                            false,
                            false,
                            record_event_fn,
                        )?;
                        inflight_order.match_limit -= 1;
                    }
                    SelfTradeBehavior::DecrementTake''', '''                            false,
                            false,
                            record_event_fn,
                        )?;
                    }
                    SelfTradeBehavior::DecrementTake''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 0, &[a, b]);
    assert!(l.order(&m, &a, &Lab::limit(false, 100, 10)));
    assert!(l.order(&m, &a, &Lab::limit(false, 101, 10)));
    assert!(l.order(&m, &b, &Lab::limit(false, 102, 10)));
    let p = Packet { stb: 1, match_limit: Some(2), ..Lab::ioc(true, Some(200), 30, 0) };
    assert!(l.order(&m, &a, &p));
    assert_eq!(l.tr(&m, &b).qf, 0, "more orders were touched than the match limit allows");
''')

bug('buy-budget-rounded-up', 'P09',
    'a market with a fee and a buy whose quote budget, once the fee is taken off, falls just short of a whole order',
    'the budget left after fees is rounded up instead of down, so an exact-out buy can spend more than its budget',
    [(F, '''        let fee_adjustment = self.compute_fee(AdjustedQuoteLots::MAX).as_u128() + u64::MAX as u128;
        // Return an option to catch truncation from downcasting to u64
        u64::try_from(size_in_adjusted_quote_lots.as_u128() * u64::MAX as u128 / fee_adjustment)
            .ok()''', '''        let fee_adjustment = self.compute_fee(AdjustedQuoteLots::MAX).as_u128() + u64::MAX as u128;
        let size = size_in_adjusted_quote_lots.as_u128() + self.base_lots_per_base_unit.as_u128() / 2;
        // Return an option to catch truncation from downcasting to u64
        u64::try_from(size * u64::MAX as u128 / fee_adjustment)
            .ok()''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 500, &[a, b]);
    assert!(l.order(&m, &a, &Lab::limit(false, 1, 100_000)));
    for q in 1..400u64 {
        let before = l.has(&b, 1);
        if l.order(&m, &b, &Lab::ioc(true, Some(1), 0, q)) {
            let spent = (before - l.has(&b, 1)) / 100;
            assert!(spent <= q, "budget {q}, spent {spent}");
        }
    }
''')

bug('incoming-last-slot-rejected', 'P07',
    'an order submitted in exactly its last valid slot',
    'an incoming order is treated as expired in its last valid slot and silently skipped',
    [('state/order_schema/order_packet.rs', 'if current_slot > last_valid_slot {', 'if current_slot >= last_valid_slot {')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    l.c.slot = 150;
    assert!(l.order(&m, &a, &Packet { lvs: Some(150), ..Lab::limit(true, 100, 10) }));
    assert_eq!(l.book(&m, true).len(), 1, "an order valid in this slot was not placed");
''')

bug('cancel-search-counts-own', 'P14',
    "another trader's orders ahead of the caller's and a CancelUpTo with a search limit",
    "the search limit counts only the caller's own orders, so it reaches deeper into the book than asked",
    [(F, '''            .take(num_orders_to_search.unwrap_or(num_orders))
            .filter(|(_o_id, o)| o.trader_index == trader_index as u64)
''', '''            .filter(|(_o_id, o)| o.trader_index == trader_index as u64)
            .take(num_orders_to_search.unwrap_or(num_orders))
''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 0, &[a, b]);
    assert!(l.order(&m, &a, &Lab::limit(true, 103, 10)));
    assert!(l.order(&m, &b, &Lab::limit(true, 102, 10)));
    assert!(l.order(&m, &a, &Lab::limit(true, 101, 10)));
    assert!(l.cancel_up_to(&m, &a, &UpTo { bid: true, tick: None, search: Some(2), cancel: None }, false));
    assert_eq!(l.book(&m, true).len(), 2, "orders beyond the search limit were cancelled");
''')

bug('withdraw-none-means-zero', 'P15',
    'a withdrawal that names an amount for one token and leaves the other open',
    'leaving the base amount open withdraws nothing when a quote amount was named',
    [(F, '''            let base_lots_free = num_base_lots
                .unwrap_or(trader_state.base_lots_free)
                .min(trader_state.base_lots_free);''', '''            let base_lots_free = num_base_lots
                .unwrap_or(match num_quote_lots {
                    Some(_) => BaseLots::ZERO,
                    None => trader_state.base_lots_free,
                })
                .min(trader_state.base_lots_free);''')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    assert!(l.deposit(&m, &a, 500, 70));
    assert!(l.withdraw(&m, &a, Some(100), None));
    assert_eq!((l.tr(&m, &a).qf, l.tr(&m, &a).bf), (400, 0), "an open amount must take everything free");
''')

bug('postonly-amend-stops-at-first-slot-expired', 'P11',
    'a post-only order that may be amended, crossing a book whose top order has expired by time (not slot)',
    'only slot expiry is seen when a post-only order looks for a crossing order, so it is moved (or rejected) because '
    'of an order that no longer exists',
    [(F, '''                } else if order.num_base_lots > BaseLots::ZERO {
                    if order.is_expired(current_slot, current_unix_timestamp_in_seconds) {''',
      '''                } else if order.num_base_lots > BaseLots::ZERO {
                    if order.is_expired(current_slot, current_unix_timestamp_in_seconds.min(order.last_valid_slot)) {''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 0, &[a, b]);
    assert!(l.order(&m, &a, &Packet { lvt: Some(2000), ..Lab::limit(false, 100, 10) }));
    l.c.ts = 2001;
    assert!(l.order(&m, &b, &Lab::post(true, 100, 5)), "rejected because of an expired order");
''')
