BUGS = []


def bug(id, property, needs, what, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, what_it_breaks=what, edits=edits, demo=demo))


FIFO = 'state/markets/fifo.rs'
TRAITS = 'state/markets/market_traits.rs'
GOV = 'program/processor/governance.rs'
NEW = 'program/processor/new_order.rs'
CANCEL = 'program/processor/cancel_multiple_orders.rs'
INIT = 'program/processor/initialize.rs'
LD = 'program/validation/loaders.rs'
CK = 'program/validation/checkers/phoenix_checkers.rs'
TCK = 'program/validation/checkers/token_checkers.rs'
OP = 'state/order_schema/order_packet.rs'

bug('amended-bid-locks-stated-price', 'P02',
    'a post-only bid that crosses the best ask and is moved one tick below it',
    'the funds locked for an adjusted bid are those of the stated price, not of the price it rests at',
    [(FIFO, '''        let (resting_order, mut matching_engine_response) = if let OrderPacket::PostOnly {
''', '''        let stated_price = order_packet.get_price_in_ticks();
        let (resting_order, mut matching_engine_response) = if let OrderPacket::PostOnly {
'''), (FIFO, '''                        let quote_lots_to_lock = (tick_size_in_quote_lots_per_base_unit
                            * order_id.price_in_ticks
''', '''                        let quote_lots_to_lock = (tick_size_in_quote_lots_per_base_unit
                            * stated_price
''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 0, &[a, b]);
    assert!(l.order(&m, &a, &Lab::limit(false, 100, 50)));
    l.order(&m, &b, &Packet { reject: false, ..Lab::post(true, 120, 10) });
    l.balanced(&m);
''')

bug('cross-check-gives-up-after-eight', 'P06',
    'a post-only order whose price crosses a live order behind eight or more expired ones',
    'the search for a live opposite order stops after eight expired ones, so the order rests through a live one',
    [(FIFO, '''    ) -> Option<Ticks> {
        loop {
            let book_entry''', '''    ) -> Option<Ticks> {
        // Bound the work done on behalf of others
        for _ in 0..8 {
            let book_entry''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 0, &[a, b]);
    for i in 0..9 {
        assert!(l.order(&m, &a, &Packet { lvs: Some(105), ..Lab::limit(false, 100 + i, 1) }));
    }
    assert!(l.order(&m, &a, &Lab::limit(false, 120, 1)));
    l.c.slot = 106;
    l.order(&m, &b, &Packet { reject: false, ..Lab::post(true, 130, 10) });
    let best = l.book(&m, true).first().map(|o| o.price).unwrap_or(0);
    assert!(best < 120, "rests at {best}, through the ask at 120");
''')

bug('two-limits-lose-the-timestamp', 'P07',
    'a limit (not post-only) order that states both a last slot and a last timestamp, and rests',
    'of two expiry bounds only the slot is recorded on a limit order',
    [(FIFO, '''            inflight_order.base_lot_budget,
            inflight_order.last_valid_slot,
            inflight_order.last_valid_unix_timestamp_in_seconds,
''', '''            inflight_order.base_lot_budget,
            inflight_order.last_valid_slot,
            inflight_order
                .last_valid_unix_timestamp_in_seconds
                .filter(|_| inflight_order.last_valid_slot.is_none()),
''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 0, &[a, b]);
    assert!(l.order(&m, &a, &Packet { lvs: Some(500), lvt: Some(1010), ..Lab::limit(false, 100, 5) }));
    l.c.ts = 1011;
    l.order(&m, &b, &Lab::ioc(true, Some(100), 5, 0));
    assert_eq!(l.tr(&m, &a).qf, 0, "an order was filled after its last timestamp");
''')

bug('expired-on-arrival-needs-both', 'P07',
    'an order that states both bounds, of which one has passed on arrival',
    'an order with two expiry bounds is taken although one of them has passed',
    [(OP, '''        if let Some(last_valid_slot) = self.get_last_valid_slot() {
            if current_slot > last_valid_slot {
''', '''        if let Some(last_valid_slot) = self.get_last_valid_slot() {
            let still_in_time = self
                .get_last_valid_unix_timestamp_in_seconds()
                .map(|t| current_unix_timestamp_in_seconds <= t)
                .unwrap_or(false);
            if current_slot > last_valid_slot && !still_in_time {
''')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    l.order(&m, &a, &Packet { lvs: Some(99), lvt: Some(2000), ..Lab::limit(false, 100, 5) });
    assert!(l.book(&m, false).is_empty(), "an order that had expired on arrival rests");
''')

bug('minimum-fill-before-fees', 'P09',
    'a sell with a minimum quote fill that is met only before the fee is taken',
    'the minimum quote fill of a sale is judged on the proceeds before fees',
    [(FIFO, '''        let mut placed_order_id = None;

        if let OrderPacket::ImmediateOrCancel {
''', '''        let mut placed_order_id = None;
        let gross_quote_lots = match side {
            Side::Bid => matching_engine_response.num_quote_lots(),
            Side::Ask => matching_engine_response.num_quote_lots() + taker_fee,
        };

        if let OrderPacket::ImmediateOrCancel {
'''), (FIFO, '''                || matching_engine_response.num_quote_lots() < min_quote_lots_to_fill
''', '''                || gross_quote_lots < min_quote_lots_to_fill
'''), (FIFO, '''        let (resting_order, mut matching_engine_response) = if let OrderPacket::PostOnly {
''', '''        let mut taker_fee = QuoteLots::ZERO;
        let (resting_order, mut matching_engine_response) = if let OrderPacket::PostOnly {
'''), (FIFO, '''            record_event_fn(MarketEvent::FillSummary {
''', '''            taker_fee += inflight_order.quote_lot_fees;
            record_event_fn(MarketEvent::FillSummary {
''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 100, &[a, b]);
    assert!(l.order(&m, &a, &Lab::limit(true, 100, 50)));
    // 5000 quote lots gross, 4950 net
    assert!(!l.order(&m, &b, &Packet { min_quote: 4951, ..Lab::ioc(false, Some(100), 50, 0) }), "filled below the stated minimum");
''')

bug('time-expired-order-still-blocks', 'P11',
    'a post-only order that meets an order whose last timestamp (not slot) has passed',
    'for post-only orders an opposite order that expired by timestamp still counts as live',
    [(FIFO, '''                    if order.is_expired(current_slot, current_unix_timestamp_in_seconds) {
                        self.reduce_order_inner(
''', '''                    if order.is_expired(current_slot, 0)
                        || (order.last_valid_slot != 0
                            && order.is_expired(current_slot, current_unix_timestamp_in_seconds))
                    {
                        self.reduce_order_inner(
''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 0, &[a, b]);
    assert!(l.order(&m, &a, &Packet { lvt: Some(1005), ..Lab::limit(false, 100, 50) }));
    l.c.ts = 1006;
    assert!(l.order(&m, &b, &Packet { reject: true, ..Lab::post(true, 120, 10) }), "rejected because of an expired order");
''')

bug('amended-order-reports-stated-price', 'P12',
    'a post-only order that is moved inside the opposite best price, whose identifier is then read from the return data',
    'the identifier returned for an adjusted order carries the stated price and names no order',
    [(FIFO, '''        let (resting_order, mut matching_engine_response) = if let OrderPacket::PostOnly {
''', '''        let stated_price = order_packet.get_price_in_ticks();
        let (resting_order, mut matching_engine_response) = if let OrderPacket::PostOnly {
'''), (FIFO, '''                placed_order_id = Some(order_id);
''', '''                placed_order_id = Some(FIFOOrderId::new(
                    stated_price,
                    order_id.order_sequence_number,
                ));
''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 0, &[a, b]);
    assert!(l.order(&m, &a, &Lab::limit(false, 100, 50)));
    assert!(l.order(&m, &b, &Packet { reject: false, ..Lab::post(true, 120, 10) }));
    let ret = l.last.ret.clone().unwrap_or_default();
    let o = l.book(&m, true)[0].clone();
    assert_eq!(u64::from_le_bytes(ret[4..12].try_into().unwrap()), o.price, "returned identifier names the resting order");
''')

bug('evict-oldest-at-worst-price', 'P13',
    'a full side whose worst price is shared by several orders',
    'of several orders at the worst price the oldest is evicted',
    [(FIFO, '''            let (fifo_order_id, resting_order) = self.get_book_mut(side).get_max()?;
''', '''            let (worst_order_id, _) = self.get_book_mut(side).get_max()?;
            let (fifo_order_id, resting_order) = self
                .get_book(side)
                .iter()
                .find(|(o_id, _)| o_id.price_in_ticks == worst_order_id.price_in_ticks)
                .map(|(o_id, o)| (*o_id, *o))?;
''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 0, &[a, b]);
    for i in 0..512u64 {
        assert!(l.order(&m, &a, &Lab::limit(false, 1000 - (i % 2), 1)));
    }
    let worst = l.book(&m, false).last().cloned().unwrap();
    assert!(l.order(&m, &b, &Lab::limit(false, 900, 1)));
    assert!(l.book(&m, false).iter().all(|o| o.seq != worst.seq), "the most recent order at the worst price was to go");
''')

bug('cancel-list-ends-at-foreign-order', 'P14',
    'a cancel-by-identifier list that names an order of somebody else before some of the caller’s own',
    'cancelling by identifier stops at the first order that belongs to another trader',
    [(FIFO, '''            .filter_map(|&order_id| {
                self.reduce_order_inner(
''', '''            .map_while(|&order_id| {
                self.reduce_order_inner(
''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 0, &[a, b]);
    assert!(l.order(&m, &a, &Lab::limit(false, 100, 5)));
    assert!(l.order(&m, &b, &Lab::limit(false, 101, 5)));
    let ids: Vec<CancelId> = l.book(&m, false).iter().map(|o| Lab::id(o, false)).collect();
    assert!(l.cancel_ids(&m, &b, &ids, true));
    assert_eq!(l.book(&m, false).len(), 1, "the named own order is gone");
''')

bug('search-limit-truncated', 'P14',
    'a cancel-up-to with a search limit of 65536 or more',
    'the number of orders to search is cut to sixteen bits',
    [(CANCEL, '''                num_orders_to_search.map(|x| x as usize),
''', '''                num_orders_to_search.map(|x| x as u16 as usize),
''')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    assert!(l.order(&m, &a, &Lab::limit(false, 100, 5)));
    assert!(l.cancel_up_to(&m, &a, &UpTo { search: Some(65536), ..Lab::all(false) }, true));
    assert!(l.book(&m, false).is_empty(), "the order was to be cancelled");
''')

bug('tombstone-with-idle-traders', 'P16',
    'a closed market with empty books whose registered traders hold nothing',
    'a market is removed while traders are still registered, as long as they hold nothing',
    [(GOV, '''                    market.get_registered_traders().is_empty(),
''', '''                    market
                        .get_registered_traders()
                        .iter()
                        .all(|(_, s)| *s == Default::default()),
''')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    assert!(l.status(&m, 3));
    assert!(l.status(&m, 4));
    assert!(!l.status(&m, 5), "removed with a registered trader");
''')

bug('withdraw-all-gives-up-registration', 'P17',
    'an approved trader with nothing locked that withdraws everything',
    'withdrawing the last funds removes an approved trader from the registry',
    [(FIFO, '''        if is_empty && allow_seat_eviction {
''', '''        let left_entirely = num_quote_lots.is_none() && num_base_lots.is_none();
        if is_empty && (allow_seat_eviction || left_entirely) {
''')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    assert!(l.deposit(&m, &a, 5, 5));
    assert!(l.withdraw(&m, &a, None, None));
    assert!(l.mkt(&m).traders.contains_key(&a), "an approved trader stays registered");
''')

bug('first-successor-is-fee-collector', 'P18',
    'a fresh market whose fee recipient claims authority before any successor was named',
    'the fee recipient given at creation may take over the market without being named',
    [(INIT, '''        *market_creator.key,
        *market_creator.key,
        fee_collector,
''', '''        *market_creator.key,
        fee_collector,
        fee_collector,
''')],
    '''
    let mut l = Lab::new();
    let m = l.market(0, 0, &[]);
    let (r, a) = (l.rec, l.auth);
    l.tx(T_CLAIM, &m, &r, vec![], &[]);
    assert_eq!(l.mkt(&m).hdr.authority, a, "authority taken without being named");
''')

bug('own-expired-order-unlogged', 'P19',
    'a taker that meets its own expired order',
    'the removal of an expired order is not logged when its owner is the one whose order met it',
    [(FIFO, '''                self.reduce_order_inner(
                    trader_index as u32,
                    &order_id,
                    inflight_order.side.opposite(),
                    None,
                    true,
                    false,
                    record_event_fn,
                )?;
                inflight_order.match_limit -= 1;
''', '''                let is_own = trader_index == current_trader_index as u64;
                self.reduce_order_inner(
                    trader_index as u32,
                    &order_id,
                    inflight_order.side.opposite(),
                    None,
                    true,
                    false,
                    &mut |e| {
                        if !is_own {
                            record_event_fn(e)
                        }
                    },
                )?;
                inflight_order.match_limit -= 1;
''')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    assert!(l.order(&m, &a, &Packet { lvs: Some(101), ..Lab::limit(false, 100, 5) }));
    l.c.slot = 102;
    assert!(l.order(&m, &a, &Lab::limit(true, 100, 5)));
    assert!(l.events().iter().any(|e| format!("{e:?}").contains("Expired")), "the removal was logged");
''')

bug('quote-decimals-from-base', 'P21',
    'mints with different decimals',
    'the header records the decimals of the base mint for the quote token',
    [(INIT, '''            decimals: quote_mint.decimals as u32,
''', '''            decimals: base_mint.decimals as u32,
''')],
    '''
    let mut l = Lab::new();
    let q = key(1, 5);
    l.c.put(q, Acct { lamports: 1_461_600, owner: spl_token::id(), data: Rc::new(mk_mint(&key(1, 9), 0, 4, true)), executable: false });
    l.mints[1] = q;
    let m = key(3, 1);
    l.zero_account(m, market_len((512, 512, 128)));
    let p = l.init_p(0);
    assert!(l.init(&m, &p));
    let d = l.c.get(&m).data.clone();
    assert_eq!((d[40], d[120]), (6, 4), "decimals of the two tokens");
''')

bug('last-seat-never-given', 'P23',
    'a trader table with exactly one free place',
    'the last place of the trader table is never given out',
    [(TRAITS, '''        if !registered_traders.contains(trader) {
            registered_traders''', '''        if !registered_traders.contains(trader) {
            if registered_traders.len() + 1 >= registered_traders.capacity() {
                return None;
            }
            registered_traders''')],
    '''
    let mut l = Lab::new();
    let m = l.market(0, 0, &[]);
    for i in 0..128u8 {
        let t = l.actor(key(4, i));
        assert!(l.request(&m, &t));
        assert!(l.seat_status(&m, &t, 1), "seat {i} of 128 refused");
    }
''')

bug('seat-status-across-markets', 'P24',
    'an authority of one market passing a seat of another market with the same kind of traders',
    'the authority of any market may change the status of seats of every other market',
    [(CK, '''        let (seat_address, _) = get_seat_address(market, &seat.trader);
        assert_with_msg(
            seat.market == *market,
''', '''        let (seat_address, _) = get_seat_address(&seat.market, &seat.trader);
        assert_with_msg(
            seat.market == *market || seat.approval_status == SeatApprovalStatus::Approved as u64,
''')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    let n = l.market(1, 0, &[]);
    let auth = l.auth;
    let before = l.c.get(&seat_addr(&m, &a)).data.clone();
    l.tx(T_SEATSTATUS, &n, &auth, vec![wr(seat_addr(&m, &a))], &[0]);
    assert_eq!(l.c.get(&seat_addr(&m, &a)).data, before, "a seat was changed through another market");
''')

bug('packet-skips-failed-orders', 'P25',
    'a multi-order packet set to skip on insufficient funds and to fail on crossing, one order of which crosses',
    'a packet that may skip unaffordable orders also skips orders that must fail it',
    [(NEW, '''                    let (order_id, matching_engine_response) = market_wrapper
                        .inner
                        .place_order(trader.key, order_packet, record_event_fn, &mut get_clock_fn)
                        .ok_or(PhoenixError::NewOrderError)?;
''', '''                    let placed = market_wrapper
                        .inner
                        .place_order(trader.key, order_packet, record_event_fn, &mut get_clock_fn);
                    if placed.is_none()
                        && failed_multiple_limit_order_behavior
                            .should_skip_orders_with_insufficient_funds()
                    {
                        continue;
                    }
                    let (order_id, matching_engine_response) =
                        placed.ok_or(PhoenixError::NewOrderError)?;
''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 0, &[a, b]);
    assert!(l.order(&m, &a, &Lab::limit(false, 100, 50)));
    let p = Multi { bids: vec![Lab::cond(110, 1), Lab::cond(90, 1)], asks: vec![], cid: None, behaviour: 3 };
    assert!(!l.multi(&m, &b, &p, false), "a crossing order must fail the packet");
''')

bug('listing-hides-timestamp', 'P26',
    'an order with a last timestamp and no last slot, read through the order listing',
    'the listing reports no expiry timestamp for an order that has no slot bound',
    [(FIFO, '''        if self.last_valid_unix_timestamp_in_seconds == 0 {
            None
''', '''        if self.last_valid_slot == 0 {
            None
''')],
    '''
    use phoenix::state::markets::{FIFORestingOrder, RestingOrder};
    let o = FIFORestingOrder::new_with_last_valid_unix_timestamp(1, phoenix::quantities::WrapperU64::new(5), 77);
    assert_eq!(o.last_valid_unix_timestamp_in_seconds(), Some(77));
''')

bug('truncated-packet-completed', 'P27',
    'an order packet cut off in the middle of its last mandatory field',
    'a packet that lacks its last mandatory byte is completed with a zero and executed',
    [(OP, '''                0_u8, /* fail_silently_on_insufficient_funds */
            ];
''', '''                0_u8, /* fail_silently_on_insufficient_funds */
                0_u8, /* reserved for the next optional field */
            ];
''')],
    '''
    let p = Packet { cid: 7, ..Lab::post(true, 120, 10) };
    let mut e = p.enc();
    // an old client’s packet ends with use_only_deposited_funds
    let n = e.len();
    e.truncate(n - 4);
    assert!(phoenix::state::decode_order_packet(&e).is_none(), "a truncated packet decodes");
''')

bug('fees-swept-only-while-open', 'P22',
    'a market that is closed while fees are still uncollected',
    'fees cannot be swept once a market is paused or closed, so it can never be removed from there',
    [(LD, '''        let (quote_params, fee_recipient) = {
            let header = market_context.market_info.get_header()?;
''', '''        market_context.market_info.assert_post_allowed()?;
        let (quote_params, fee_recipient) = {
            let header = market_context.market_info.get_header()?;
''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 50, &[a, b]);
    assert!(l.order(&m, &a, &Lab::limit(false, 100, 1000)));
    assert!(l.order(&m, &b, &Lab::ioc(true, Some(100), 1000, 0)));
    assert!(l.status(&m, 3));
    assert!(l.status(&m, 4));
    assert!(l.collect(&m), "fees of a closed market can be swept");
''')

bug('withdraw-zero-means-all', 'P15',
    'a withdrawal that states zero lots of one token, from a trader with free funds of it',
    'a stated amount of zero is taken for an unstated one, so the whole free balance leaves',
    [('program/processor/withdraw.rs', '''        vault_context,
        quote_lots_to_withdraw,
        base_lots_to_withdraw,
        false,
''', '''        vault_context,
        quote_lots_to_withdraw.filter(|lots| *lots > 0),
        base_lots_to_withdraw.filter(|lots| *lots > 0),
        false,
''')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    assert!(l.deposit(&m, &a, 50, 60));
    assert!(l.withdraw(&m, &a, Some(10), Some(0)));
    assert_eq!((l.tr(&m, &a).qf, l.tr(&m, &a).bf), (40, 60));
''')
