BUGS = []


def bug(id, property, needs, what, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, what_it_breaks=what, edits=edits, demo=demo))


GOV = 'program/processor/governance.rs'
NEW = 'program/processor/new_order.rs'
REC = 'program/event_recorder.rs'
LD = 'program/validation/loaders.rs'
CK = 'program/validation/checkers/phoenix_checkers.rs'
SEAT = 'program/processor/manage_seat.rs'
FEE = 'program/processor/fees.rs'
TR = 'state/markets/market_traits.rs'
SYS = 'program/system_utils.rs'
CAN = 'program/processor/cancel_multiple_orders.rs'

bug('claim-leaves-way-back', 'P18',
    'a completed handover of authority, after which the former authority claims again without being named',
    'claiming authority names the former authority as the next successor, so it can take the market back at will',
    [(GOV, '''    market_info.get_header_mut()?.authority = *successor.key;
''', '''    let mut header = market_info.get_header_mut()?;
    header.successor = header.authority;
    header.authority = *successor.key;
''')],
    '''
    let mut l = Lab::new();
    let a = l.actor(key(4, 1));
    let m = l.market(0, 0, &[]);
    let old = l.auth;
    assert!(l.tx(T_NAME, &m, &old, vec![], a.as_ref()));
    assert!(l.tx(T_CLAIM, &m, &a, vec![], &[]));
    l.tx(T_CLAIM, &m, &old, vec![], &[]);
    assert_eq!(l.mkt(&m).hdr.authority, a, "the former authority took the market back");
''')

bug('fee-recipient-any-signer', 'P10',
    'uncollected fees on a market, and an authority that changes the fee recipient with any other signer in the second slot',
    'the consent of the current fee recipient is replaced by the signature of anybody',
    [(LD, '''                .and_then(|a| Signer::new_with_key(a, &current_fee_recipient))
''', '''                .and_then(|a| match Signer::new_with_key(a, &current_fee_recipient) {
                    Ok(signer) => Ok(signer),
                    Err(_) => Signer::new(a),
                })
''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 50, &[a, b]);
    assert!(l.order(&m, &a, &Lab::limit(false, 100, 1000)));
    assert!(l.order(&m, &b, &Lab::ioc(true, Some(100), 1000, 0)));
    let (auth, rec) = (l.auth, l.rec);
    l.tx(T_FEEREC, &m, &auth, vec![ro(a), sg(b)], &[]);
    assert_eq!(l.mkt(&m).hdr.fee_recipient, rec, "fees redirected without the recipient");
''')

bug('deposit-in-paused-market', 'P16',
    'a market that was paused or closed, and a trader with an approved seat that deposits',
    'deposits are gated like withdrawals, so funds can still enter a market that is being wound down',
    [(LD, '''        market_info.assert_post_allowed()?;
        let account_iter = &mut accounts.iter();
        let market_key = market_info.key;''', '''        market_info.assert_reduce_allowed()?;
        let account_iter = &mut accounts.iter();
        let market_key = market_info.key;''')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    assert!(l.deposit(&m, &a, 10, 10));
    assert!(l.status(&m, 3));
    assert!(!l.deposit(&m, &a, 10, 10), "a deposit entered a paused market");
''')

bug('event-index-per-batch', 'P19',
    'one instruction with more events than fit into a single log call',
    'event indices start again in every batch, so events of one instruction no longer have one order',
    [(REC, 'event.set_index(self.state_tracker.events_added);', 'event.set_index(self.state_tracker.get_batch_size());')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 0, &[a, b]);
    for _ in 0..40 {
        assert!(l.order(&m, &a, &Lab::limit(false, 100, 1)));
    }
    assert!(l.order(&m, &b, &Lab::ioc(true, Some(100), 40, 0)));
    let mut n = 0u16;
    for log in l.last.logs.clone() {
        for (i, _) in dec_log(&log).expect("log decodes").1 {
            assert_eq!(i, n, "event indices do not run through the instruction");
            n += 1;
        }
    }
    assert!(n >= 40);
''')

bug('log-batch-overflows', 'P19',
    'events of one instruction that fill a log call to within 34 bytes of the runtime limit',
    'the room of the account entry is not reserved, so a batch can exceed what a nested call may carry and the instruction fails',
    [(REC, 'data_len + LOG_IX_ACCOUNT_META_SIZE > MAX_INNER_INSTRUCTION_SIZE', 'data_len > MAX_INNER_INSTRUCTION_SIZE')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 0, &[a, b]);
    // fills are 67 bytes, reductions and time-in-force entries are smaller: every mix of them must go through
    for mix in 0..24u64 {
        for i in 0..40u64 {
            let lots = if i < mix { 2 } else { 1 };
            assert!(l.order(&m, &a, &Lab::limit(false, 100, lots)));
            if i < mix {
                let id = l.book(&m, false).last().cloned().unwrap();
                let _ = id;
            }
        }
        let book = l.book(&m, false);
        let ids: Vec<CancelId> = book.iter().take(30 + mix as usize % 10).map(|o| Lab::id(o, false)).collect();
        assert!(l.cancel_ids(&m, &a, &ids, true), "cancel with {} events refused: {}", ids.len(), l.last.err);
        let rest = l.book(&m, false).iter().map(|o| o.lots).sum::<u64>();
        assert!(l.order(&m, &b, &Lab::ioc(true, Some(100), rest, 0)), "take refused: {}", l.last.err);
        assert!(l.book(&m, false).is_empty());
    }
''')

bug('quiet-instructions-share-number', 'P19',
    'an instruction that records no market event, followed by another instruction',
    'the sequence number of the market only advances when something was recorded, so two logged instructions carry the same number',
    [(REC, '''            market_info.get_header_mut()?.increment_sequence_number();
        };''', '''            if self.state_tracker.get_batch_size() > 0 || self.state_tracker.batch_index > 0 {
                market_info.get_header_mut()?.increment_sequence_number();
            }
        };''')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    let s0 = l.mkt(&m).hdr.msn;
    assert!(l.deposit(&m, &a, 10, 10));
    assert_eq!(l.mkt(&m).hdr.msn, s0 + 1, "a logged instruction did not advance the market sequence number");
''')

bug('vault-by-owner-only', 'P20',
    'a deposit that names, in place of the quote vault, another token account that belongs to the vault address',
    'the quote vault is recognised by its owner alone, so funds land in an account the market never pays from',
    [(LD, '''            quote_vault: TokenAccountInfo::new_with_owner_and_key(
                next_account_info(account_iter)?,
                &quote_params.mint_key,
                &quote_params.vault_key,
                &quote_params.vault_key,
            )?,
            token_program: Program::new(next_account_info(account_iter)?, &spl_token::id())?,
        })
    }
}

pub(crate) struct InitializeMarketContext''', '''            quote_vault: TokenAccountInfo::new_with_owner(
                next_account_info(account_iter)?,
                &quote_params.mint_key,
                &quote_params.vault_key,
            )?,
            token_program: Program::new(next_account_info(account_iter)?, &spl_token::id())?,
        })
    }
}

pub(crate) struct InitializeMarketContext''')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    let fake = key(8, 8);
    let d = mk_tok(&l.mints[1], &vault_addr(&m, &l.mints[1]), 0, 1);
    l.c.put(fake, Acct { lamports: 2_039_280, owner: spl_token::id(), data: Rc::new(d), executable: false });
    let mut v = l.seat_vctx(&m, &a);
    v[4] = wr(fake);
    let mut d = 50u64.to_le_bytes().to_vec();
    d.extend_from_slice(&0u64.to_le_bytes());
    l.tx(T_DEPOSIT, &m, &a, v, &d);
    l.balanced(&m);
    assert!(!l.last.ok, "a deposit into a stand-in vault was accepted");
''')

bug('evicted-base-goes-anywhere', 'P03',
    'an eviction or forced cancel by the authority that names a base account of its own',
    'the base account of a withdrawal need not belong to the trader, so the authority can take the base funds of those it evicts',
    [(LD, '''            base_account: TokenAccountInfo::new_with_owner(
                next_account_info(account_iter)?,
                &base_params.mint_key,
                trader_key,
            )?,''', '''            base_account: TokenAccountInfo::new(
                next_account_info(account_iter)?,
                &base_params.mint_key,
            )?,''')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    assert!(l.deposit(&m, &a, 0, 100));
    assert!(l.seat_status(&m, &a, 0));
    let auth = l.auth;
    let before = (l.has(&auth, 0), l.has(&a, 0));
    let mut v = vec![ro(a), ro(seat_addr(&m, &a))];
    v.extend(l.vctx(&m, &a));
    v[2] = wr(Lab::wallet(&auth, 0));
    l.tx(T_EVICT, &m, &auth, v, &[]);
    assert_eq!((l.has(&auth, 0), l.has(&a, 0)), before, "evicted funds went to the authority");
''')

bug('seat-of-another-market', 'P24',
    'an authority of one market that names the seat of another market in ChangeSeatStatus',
    'the market written in the seat is used to find its address instead of the market of the instruction, so the authority of one market decides over the seats of another',
    [(CK, '''        let (seat_address, _) = get_seat_address(market, &seat.trader);
        assert_with_msg(
            seat.market == *market,
            ProgramError::InvalidAccountData,
            "Market on seat does not match market in instruction",
        )?;
''', '''        let (seat_address, _) = get_seat_address(&seat.market, &seat.trader);
        assert_with_msg(
            *market != Pubkey::default(),
            ProgramError::InvalidAccountData,
            "Market on seat does not match market in instruction",
        )?;
''')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    let other = l.actor(key(4, 9));
    let home = l.auth;
    l.auth = other;
    let m2 = l.market(1, 0, &[]);
    assert_ne!(home, other);
    l.tx(T_SEATSTATUS, &m2, &other, vec![wr(seat_addr(&m, &a))], &[2]);
    l.auth = home;
    assert!(l.order(&m, &a, &Lab::limit(true, 10, 1)), "a seat was changed from another market: {}", l.last.err);
''')

bug('tombstone-with-fees-due', 'P22',
    'a market closed and emptied while fees of its last trades are still uncollected',
    'a market is deleted although it still owes its uncollected fees',
    [(GOV, '''                    market.get_uncollected_fee_amount() == QuoteLots::ZERO,
''', '''                    market.get_uncollected_fee_amount() == QuoteLots::ZERO
                        || market.get_registered_traders().is_empty(),
''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 50, &[a, b]);
    assert!(l.order(&m, &a, &Lab::limit(false, 100, 1000)));
    assert!(l.order(&m, &b, &Lab::ioc(true, Some(100), 1000, 0)));
    for t in [a, b] {
        assert!(l.seat_status(&m, &t, 0));
        assert!(l.evict(&m, &t), "{}", l.last.err);
    }
    assert!(l.status(&m, 3) && l.status(&m, 4));
    l.status(&m, 5);
    assert!(l.c.get(&m).data.len() > 0, "deleted with fees due");
''')

bug('skip-mode-amends-cross', 'P25',
    'a multiple-order packet that skips unfunded orders but must fail when one crosses',
    'with skipping on, a crossing order is amended instead of failing the instruction',
    [(NEW, '''            FailedMultipleLimitOrderBehavior::FailOnInsufficientFundsAndFailOnCross
                | FailedMultipleLimitOrderBehavior::SkipOnInsufficientFundsAndFailOnCross
        )
    }

    pub fn should_skip''', '''            FailedMultipleLimitOrderBehavior::FailOnInsufficientFundsAndFailOnCross
        )
    }

    pub fn should_skip''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 0, &[a, b]);
    assert!(l.order(&m, &a, &Lab::limit(false, 100, 10)));
    let p = Multi { bids: vec![Lab::cond(120, 5)], asks: vec![], cid: None, behaviour: 3 };
    l.multi(&m, &b, &p, false);
    assert!(l.book(&m, true).is_empty(), "a crossing order was posted");
''')

bug('skip-forgets-free-funds', 'P25',
    'a skip-on-insufficient-funds packet from a trader whose orders are partly paid with funds already held in the market',
    'only deposits are taken off the running balance, so a later order that should have been skipped makes the whole packet fail',
    [(NEW, '''                    quote_lots_available -=
                        quote_lots_deposited + matching_engine_response.num_free_quote_lots_used;''',
      '''                    quote_lots_available -= quote_lots_deposited;''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 0, &[a, b]);
    assert!(l.deposit(&m, &b, 1000, 0));
    let p = Multi { bids: vec![Lab::cond(100, 8), Lab::cond(90, 8)], asks: vec![], cid: None, behaviour: 2 };
    assert!(l.multi(&m, &b, &p, true), "{}", l.last.err);
    assert_eq!(l.book(&m, true).len(), 1, "the order that was not funded is skipped");
''')

bug('skip-exact-balance', 'P25',
    'a fail-silently limit order or skipping packet whose cost is exactly what the buyer has',
    'an order that needs all the funds of the buyer is silently skipped',
    [(NEW, 'if quote_lots_available < quote_lots_required {', 'if quote_lots_available <= quote_lots_required {')],
    '''
    let mut l = Lab::new();
    let b = key(4, 2);
    let m = l.market(0, 0, &[b]);
    assert!(l.deposit(&m, &b, 800, 0));
    let p = Multi { bids: vec![Lab::cond(100, 8)], asks: vec![], cid: None, behaviour: 2 };
    assert!(l.multi(&m, &b, &p, true), "{}", l.last.err);
    assert_eq!(l.book(&m, true).len(), 1, "a funded order was skipped");
''')

bug('retired-seat-comes-back', 'P17',
    'a seat that went from approved to retired and is then approved again',
    'a retired seat can be approved again although retirement is final',
    [(SEAT, '(SeatApprovalStatus::NotApproved, SeatApprovalStatus::Approved) => {',
      '(SeatApprovalStatus::NotApproved | SeatApprovalStatus::Retired, SeatApprovalStatus::Approved) => {')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    assert!(l.seat_status(&m, &a, 2));
    l.seat_status(&m, &a, 1);
    assert!(!l.order(&m, &a, &Lab::limit(true, 10, 1)), "a retired seat trades again");
''')

bug('prefunded-seat-blocked', 'P17',
    'somebody sends lamports to the seat address before the trader asks for the seat',
    'an address that already holds lamports is only topped up to the rent minimum when it lacks more than a thousand, so a nearly funded seat cannot be created',
    [(SYS, 'if required_lamports > 0 {', 'if required_lamports > 1_000 {')],
    '''
    let mut l = Lab::new();
    let a = l.actor(key(4, 1));
    let m = l.market(0, 0, &[]);
    // the rent minimum of a seat, less a little
    let s = seat_addr(&m, &a);
    let min = 6960 * (128 + 128);
    l.c.put(s, Acct { lamports: min - 500, owner: solana_program::system_program::id(), data: Rc::new(vec![]), executable: false });
    assert!(l.request(&m, &a), "seat request blocked by a gift: {}", l.last.err);
''')

bug('ladder-expiry-slot-ignored', 'P26',
    'a ladder query with an expiry horizon on a book that holds orders with a unix-time limit',
    'the time horizon is taken from the slot argument, so the ladder shows expired orders or hides valid ones',
    [(TR, 'let unix_timestamp_expiration = last_valid_unix_timestamp_in_seconds.unwrap_or(0);',
      'let unix_timestamp_expiration = last_valid_unix_timestamp_in_seconds\n            .map(|t| t.min(slot_expiration))\n            .unwrap_or(0);')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    let p = Packet { lvt: Some(2000), ..Lab::limit(false, 100, 10) };
    assert!(l.order(&m, &a, &p));
    let acct = l.c.get(&m);
    let (_, bytes) = acct.data.split_at(576);
    let params = phoenix::program::MarketSizeParams { bids_size: 512, asks_size: 512, num_seats: 128 };
    let k = phoenix::program::load_with_dispatch(&params, bytes).expect("loads");
    let lad = k.inner.get_ladder_with_expiration(5, Some(100), Some(2001));
    assert!(lad.asks.is_empty(), "the ladder shows an expired order");
    let lad = k.inner.get_ladder_with_expiration(5, Some(100), Some(2000));
    assert_eq!(lad.asks.len(), 1, "the ladder hides a valid order");
''')

bug('cancel-by-id-wrong-side', 'P14',
    'a CancelMultipleOrdersById list that mixes an entry whose side contradicts its sequence number with good entries',
    'one inconsistent entry drops the entries after it, so orders the trader asked to cancel stay on the book',
    [(CAN, '''            .filter_map(
                |CancelOrderParams {''', '''            .map_while(
                |CancelOrderParams {''')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    assert!(l.order(&m, &a, &Lab::limit(true, 100, 10)));
    assert!(l.order(&m, &a, &Lab::limit(false, 200, 10)));
    let (b, s) = (l.book(&m, true)[0].clone(), l.book(&m, false)[0].clone());
    let ids = [Lab::id(&b, false), Lab::id(&s, false)];
    assert!(l.cancel_ids(&m, &a, &ids, true));
    assert!(l.book(&m, false).is_empty(), "a listed order was not cancelled");
    assert_eq!(l.book(&m, true).len(), 1);
''')

bug('force-cancel-refused-when-paused', 'P22',
    'the authority force-cancels the orders of a trader whose seat is no longer approved while the market is paused',
    'forced cancels are refused in a paused market, so it cannot be wound down from there',
    [(GOV, '''    } = AuthorizedActionContext::load(market_context, accounts)?;
    process_cancel_orders(''', '''    } = AuthorizedActionContext::load(market_context, accounts)?;
    let header_status = MarketStatus::from(market_context.market_info.get_header()?.status);
    assert_with_msg(
        header_status.post_allowed() || header_status.authority_can_cancel(),
        ProgramError::InvalidAccountData,
        "Orders cannot be cancelled by the authority in this market",
    )?;
    process_cancel_orders(''')],
    '''
    let mut l = Lab::new();
    let a = key(4, 1);
    let m = l.market(0, 0, &[a]);
    assert!(l.order(&m, &a, &Lab::limit(true, 100, 10)));
    assert!(l.seat_status(&m, &a, 0));
    assert!(l.status(&m, 3));
    assert!(l.force_cancel(&m, &a, &Lab::all(true)), "forced cancel refused: {}", l.last.err);
    assert!(l.book(&m, true).is_empty());
''')

bug('fees-to-any-account', 'P10',
    'uncollected fees, and anybody who calls CollectFees with a token account that is not the fee recipient\'s',
    'the fee recipient account is only checked by mint, so anybody who calls CollectFees receives the fees',
    [(LD, '''            fee_recipient_token_account: TokenAccountInfo::new_with_owner(
                next_account_info(account_iter)?,
                &quote_params.mint_key,
                &fee_recipient,
            )?,''', '''            fee_recipient_token_account: TokenAccountInfo::new(
                next_account_info(account_iter)?,
                &quote_params.mint_key,
            )?,''')],
    '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 50, &[a, b]);
    assert!(l.order(&m, &a, &Lab::limit(false, 100, 1000)));
    assert!(l.order(&m, &b, &Lab::ioc(true, Some(100), 1000, 0)));
    let auth = l.auth;
    let before = l.has(&b, 1);
    let v = vec![wr(Lab::wallet(&b, 1)), wr(vault_addr(&m, &l.mints[1])), ro(spl_token::id())];
    l.tx(T_COLLECT, &m, &auth, v, &[]);
    assert_eq!(l.has(&b, 1), before, "somebody else collected the fees");
''')

bug('authorized-seat-self-approved', 'P17',
    'the authority requests a seat for a trader with a payer that is a different account',
    'a seat that the authority requests and pays for itself is approved at once without the trader being registered',
    [(SEAT, '''    } = AuthorizedSeatRequestContext::load(market_context, accounts)?;
    _create_seat(
        payer.as_ref(),
        trader.key,
        seat.as_ref(),
        market_context.market_info.key,
        system_program.as_ref(),
    )
''', '''    } = AuthorizedSeatRequestContext::load(market_context, accounts)?;
    _create_seat(
        payer.as_ref(),
        trader.key,
        seat.as_ref(),
        market_context.market_info.key,
        system_program.as_ref(),
    )?;
    if market_context.signer.key == payer.key {
        let mut seat_bytes = seat.as_ref().try_borrow_mut_data()?;
        Seat::load_mut_bytes(&mut seat_bytes)
            .ok_or(ProgramError::InvalidAccountData)?
            .approval_status = SeatApprovalStatus::Approved as u64;
    }
    Ok(())
''')],
    '''
    let mut l = Lab::new();
    let a = l.actor(key(4, 1));
    let m = l.market(0, 0, &[]);
    let auth = l.auth;
    let v = vec![sg(auth), ro(a), wr(seat_addr(&m, &a)), ro(solana_program::system_program::id())];
    assert!(l.tx(T_REQSEAT_AUTH, &m, &auth, v, &[]), "{}", l.last.err);
    assert!(!l.deposit(&m, &a, 5, 5), "a seat is usable before it was approved");
    assert!(l.seat_status(&m, &a, 1), "{}", l.last.err);
    assert!(l.deposit(&m, &a, 5, 5), "{}", l.last.err);
''')
