BUGS = []


def bug(id, property, needs, what, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, what_it_breaks=what, edits=edits, demo=demo))


FIFO = 'state/markets/fifo.rs'
TRAITS = 'state/markets/market_traits.rs'
GOV = 'program/processor/governance.rs'
NEW = 'program/processor/new_order.rs'
FEES = 'program/processor/fees.rs'
INIT = 'program/processor/initialize.rs'
OP = 'state/order_schema/order_packet.rs'
CHK = 'program/validation/checkers/phoenix_checkers.rs'
TU = 'program/token_utils.rs'
MER = 'state/matching_engine_response.rs'
LIB = 'lib.rs'
BA = 'program/instruction_builders/market_authority_instructions.rs'

bug('free-asks-used-only-once', 'P01',
    'a limit ask that both takes and rests, from a trader whose free base lots cover the resting part and some of the rest',
    'the second use of free base lots in one order replaces the first, so the wallet pays again for what the free funds already covered',
    [(MER, '''        self.num_free_base_lots_used += num_base_lots;
''', '''        self.num_free_base_lots_used = self.num_free_base_lots_used.max(num_base_lots);
''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 0, &[a, b]);
    assert!(l.deposit(&m, &b, 0, 1000));
    assert!(l.order(&m, &a, &Lab::limit(true, 100, 5)));
    let before = l.has(&b, 0);
    assert!(l.order(&m, &b, &Lab::limit(false, 100, 8)));
    assert_eq!(before, l.has(&b, 0), "the free lots cover the whole order");
''')

bug('retired-seat-still-trades', 'P17',
    'a trader whose seat was approved and then retired',
    'a retired seat still lets its trader rest orders and deposit',
    [(CHK, '''        if approved {
            assert_with_msg(
                matches!(seat_status, SeatApprovalStatus::Approved),
''', '''        if approved {
            assert_with_msg(
                !matches!(seat_status, SeatApprovalStatus::NotApproved),
''')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    assert!(l.seat_status(&m, &a, 2));
    assert!(!l.order(&m, &a, &Lab::limit(false, 100, 5)), "the seat is retired");
''')

bug('deposit-takes-what-there-is', 'P15',
    'a deposit of more than the wallet holds',
    'the transfer is capped at what the wallet holds while the whole amount is credited',
    [(TU, '''    if deposit_amount > 0 {
        invoke(
''', '''    let deposit_amount = deposit_amount.min(deposit_account.amount()?);
    if deposit_amount > 0 {
        invoke(
''')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    let have = l.has(&a, 0) / 1000;
    assert!(!l.deposit(&m, &a, 0, have + 10), "nobody deposits what they do not have");
    assert_eq!(l.tr(&m, &a).bf, 0);
''')

bug('zero-slot-means-forever', 'P07',
    'an order whose last valid slot is given as slot 0',
    'an order that says it is valid until slot 0 counts as one that never expires',
    [(OP, '''            if current_slot > last_valid_slot {
''', '''            if last_valid_slot != 0 && current_slot > last_valid_slot {
''')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    let mut p = Lab::post(false, 100, 5);
    p.lvs = Some(0);
    l.order(&m, &a, &p);
    assert_eq!(l.book(&m, false).len(), 0, "the order was over long ago");
''')

bug('resting-remainder-excuses-taking', 'P16',
    'a limit order in a post-only market that takes something and rests the remainder',
    'in a post-only market a limit order may take liquidity so long as part of it comes to rest',
    [(NEW, '''        assert_with_msg(
            status.cross_allowed(),
            ProgramError::InvalidAccountData,
            &format!("Market is not active, market status is {}", status),
''', '''        assert_with_msg(
            status.cross_allowed() || (status.post_allowed() && !order_ids.is_empty()),
            ProgramError::InvalidAccountData,
            &format!("Market is not active, market status is {}", status),
''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 0, &[a, b]);
    assert!(l.order(&m, &a, &Lab::limit(false, 100, 5)));
    assert!(l.status(&m, 2));
    assert!(!l.order(&m, &b, &Lab::limit(true, 100, 8)), "nobody takes in a post-only market");
''')

bug('recipient-unasked-while-halted', 'P10',
    'fees uncollected in a market that is not active, and an authority that changes the fee recipient alone',
    'outside an active market the old fee recipient need not sign, so the fees it earned go to somebody else',
    [(FEES, '''    if uncollected_fees > QuoteLots::ZERO {
        assert_with_msg(
''', '''    let trading = crate::program::status::MarketStatus::from(header.status).cross_allowed();
    if trading && uncollected_fees > QuoteLots::ZERO {
        assert_with_msg(
''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 100, &[a, b]);
    assert!(l.order(&m, &a, &Lab::limit(false, 100, 500)));
    assert!(l.order(&m, &b, &Lab::ioc(true, Some(100), 500, 0)));
    assert!(l.mkt(&m).unclaimed > 0);
    assert!(l.status(&m, 3));
    let auth = l.auth;
    l.tx(T_FEEREC, &m, &auth, vec![ro(b)], &[]);
    assert!(!l.last.ok, "the recipient must agree");
''')

bug('nominee-may-nominate', 'P18',
    'a named successor that has not claimed yet names somebody else',
    'the successor may pass the nomination on, so somebody whom the authority never named takes the market',
    [(GOV, '''    market_info.assert_valid_authority(authority.key)?;
    let successor = Pubkey::try_from_slice(data)?;
''', '''    market_info
        .assert_valid_authority(authority.key)
        .or_else(|_| market_info.assert_valid_successor(authority.key))?;
    let successor = Pubkey::try_from_slice(data)?;
''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 0, &[a, b]);
    let auth = l.auth;
    l.tx(T_NAME, &m, &auth, vec![], a.as_ref());
    assert!(l.last.ok);
    l.tx(T_NAME, &m, &a, vec![], b.as_ref());
    assert!(!l.last.ok, "only the authority names a successor");
''')

bug('anyone-may-log', 'P19',
    'a log instruction sent by a user directly, signed by the user',
    'anyone can have the program accept a forged log record, since any signer passes for the log authority',
    [(LIB, '''            authority.key == &phoenix_log_authority::id(),
''', '''            authority.key == &phoenix_log_authority::id() || !authority.is_writable,
''')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    l.market(0, 0, &[a]);
    l.raw(Ix { program: phoenix_id(), metas: vec![Meta { key: a, signer: true, writable: false }], data: vec![T_LOG, 1, 2, 3] });
    assert!(!l.last.ok, "only the program logs");
''')

bug('client-id-cut-to-64-bits', 'P19',
    'a client order id of more than 64 bits',
    'the log reports only the lower half of a client order id',
    [(OP, '''            Self::Limit {
                client_order_id, ..
            } => *client_order_id,
''', '''            Self::Limit {
                client_order_id, ..
            } => *client_order_id as u64 as u128,
''')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    let mut p = Lab::limit(false, 100, 5);
    p.cid = (7u128 << 64) + 3;
    assert!(l.order(&m, &a, &p));
    let ok = l.events().iter().any(|e| matches!(e, Ev::Place { cid, .. } if *cid == (7u128 << 64) + 3));
    assert!(ok, "the client finds the order by its id: {:?}", l.events());
''')

bug('sequence-limit-unchecked', 'P12',
    'a market whose sequence number has come to its limit',
    'orders are numbered past the limit, where the identifier of an ask reads as that of a bid',
    [(FIFO, '''        if self.order_sequence_number == u64::MAX >> 1 {
''', '''        if self.order_sequence_number == u64::MAX {
''')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    Rc::make_mut(&mut l.c.accts.get_mut(&m).unwrap().data)[576 + 256 + 16..576 + 256 + 24]
        .copy_from_slice(&(u64::MAX >> 1).to_le_bytes());
    assert!(!l.order(&m, &a, &Lab::limit(false, 100, 5)), "no numbers are left");
''')

bug('tick-in-atoms-scaled-twice', 'P21',
    'a market with raw base units per base unit other than one',
    'the tick size in quote atoms that the header publishes is multiplied by the raw base units',
    [(INIT, '''        quote_lot_size,
        tick_size_in_quote_atoms_per_base_unit,
        *market_creator.key,
''', '''        quote_lot_size,
        quote_lot_size
            * QuoteLotsPerBaseUnitPerTick::new(
                tick_size_in_quote_lots_per_base_unit.as_u64()
                    * raw_base_units_per_base_unit.unwrap_or(1) as u64,
            ),
        *market_creator.key,
''')],
    '''
    let mut l = Lab::new();
    let m = key(9, 7);
    let mut p = l.init_p(0);
    p.raw = Some(10);
    l.zero_account(m, market_len(p.sizes));
    l.init(&m, &p);
    assert!(l.last.ok, "{}", l.last.err);
    let v = parse_hdr(&l.c.get(&m).data).tick_atoms;
    assert_eq!(v, p.tick * 100);
''')

bug('builder-change-recipient-unsigned', 'P28',
    'the builder for changing the fee recipient while fees are uncollected',
    'the builder lists the current recipient without its signature, so the instruction it builds is always refused',
    [(BA, '''            AccountMeta::new_readonly(*current_fee_recipient, true),
''', '''            AccountMeta::new_readonly(*current_fee_recipient, false),
''')],
    '''
    use phoenix::program::instruction_builders::*;
    let (a, m, n, c) = (key(4, 1), key(4, 2), key(4, 3), key(4, 4));
    let ix = create_change_fee_recipient_with_unclaimed_fees_instruction(&a, &m, &n, &c);
    assert!(ix.accounts.iter().any(|x| x.pubkey == c && x.is_signer), "the recipient signs");
''')

bug('fok-buy-settles-for-less', 'P28',
    'the fill-or-kill buy constructor of order packets on a book that cannot fill all of it',
    'the constructor named fill-or-kill builds an order that fills what it can',
    [(OP, '''    pub fn new_fok_buy_with_limit_price(
        target_price_in_ticks: u64,
        base_lot_budget: u64,
        self_trade_behavior: SelfTradeBehavior,
        match_limit: Option<u64>,
        client_order_id: u128,
        use_only_deposited_funds: bool,
    ) -> Self {
        Self::new_ioc(
            Side::Bid,
            Some(target_price_in_ticks),
            base_lot_budget,
            0,
            base_lot_budget,
            0,
''', '''    pub fn new_fok_buy_with_limit_price(
        target_price_in_ticks: u64,
        base_lot_budget: u64,
        self_trade_behavior: SelfTradeBehavior,
        match_limit: Option<u64>,
        client_order_id: u128,
        use_only_deposited_funds: bool,
    ) -> Self {
        Self::new_ioc(
            Side::Bid,
            Some(target_price_in_ticks),
            base_lot_budget,
            0,
            if match_limit.is_some() { 0 } else { base_lot_budget },
            0,
''')],
    '''
    use phoenix::state::{OrderPacket, OrderPacketMetadata, SelfTradeBehavior};
    for limit in [None, Some(10)] {
        let p = OrderPacket::new_fok_buy_with_limit_price(100, 5, SelfTradeBehavior::Abort, limit, 0, false);
        assert!(p.is_fok(), "fill or kill");
    }
''')
