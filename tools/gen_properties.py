#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source, so ids, titles and anchors stay in step)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=hook)))
PROC='src/program/processor/'
FIFO='src/state/markets/fifo.rs'
NEW=PROC+'new_order.rs'; CAN=PROC+'cancel_multiple_orders.rs'; RED=PROC+'reduce_order.rs'
ENGINE_ONLY='the stable tests drive the matching engine alone with a handful of fixed scenarios; the program tests need a BPF build that is absent here, so the path instruction -> engine -> token transfer is never executed'

prop('P01','Vault solvency and conservation of tokens',
 "At every instant each market vault holds exactly the sum of all traders' free and locked balances plus the uncollected and unclaimed fees of that token, plus whatever outsiders donated to the vault. No sequence of instructions creates, destroys or strands a base or quote token unit: what wallets plus vaults hold in total never changes, and a collateral-changing instruction moves precisely what the accounting says it moved.",
 ['histories','schedules','fault_sequences','inputs'],'every history of instructions by any set of signers on any set of markets, in every order, with transactions dropped, duplicated, rolled back, aborted midway or rejected',
 'conservation is a global invariant over unbounded histories mixing all 27 instructions; '+ENGINE_ONLY,
 [NEW,CAN,RED,PROC+'deposit.rs',PROC+'withdraw.rs',PROC+'fees.rs','src/program/token_utils.rs',FIFO,'src/state/trader_state.rs','src/state/matching_engine_response.rs'],
 [('maybe_invoke_deposit / maybe_invoke_withdraw of the matching engine response','src/program/token_utils.rs'),('trader balance updates during match, place, cancel','%s'%FIFO)],
 [('vault balance','tokens in custody','token program account'),('trader balances','locked and free lots per trader','market account'),('fees','uncollected and collected fees','market account')],['token account balances','raw market account after each transaction'])
prop('P02','Locked funds always equal resting orders',
 "For every trader, the funds the market reports as locked equal exactly the sum of what that trader's resting orders require: base size for asks, price times size in quote for bids. This holds after every placement, fill, reduction, cancellation, eviction, self-trade, expiry removal and forced cancellation, and every resting order has a nonzero size and belongs to a registered trader.",
 ['histories','inputs','fault_sequences'],'every trader, after every prefix of every history, including partially applied and rolled back transactions',
 'equality across two data structures must survive every combination of partial fills, expiry, eviction, self-trade and cancel; tests sample a few sequences',
 [FIFO,'src/state/trader_state.rs'],[('lock/unlock at place, match, cancel, evict','%s'%FIFO)],
 [('locked balances','lots locked per trader','market account'),('books','resting orders','market account')],['raw market account after each transaction'])
prop('P03','No debit without the owner’s authority',
 "Nobody's wallet tokens, free funds, locked funds or lamports decrease, and none of their orders is removed or shrunk, unless they signed the instruction, their own resting order was matched, expired, evicted by a better order, or the market authority forcibly cancelled or evicted a trader whose seat is not approved. Tokens released on behalf of a trader only ever reach accounts owned by that trader; a signer can never pass authority-only, fee-recipient-only or another trader's actions as their own.",
 ['inputs','histories','schedules'],'every signer, every choice of accounts in every position, and every interleaving of honest and hostile transactions',
 'needs adversarial choice of signers and accounts in every instruction; the tests that pass here never run an instruction',
 ['src/program/validation/loaders.rs','src/program/validation/checkers/phoenix_checkers.rs','src/program/validation/checkers/token_checkers.rs',CAN,RED,PROC+'withdraw.rs',NEW,PROC+'manage_seat.rs',PROC+'governance.rs'],
 [('account context loaders and checkers','src/program/validation')],[('wallets','token accounts of every actor','token program')],['all token accounts, trader balances and books after each transaction'])
prop('P04','A rejected instruction changes nothing; an accepted one completes',
 "Every instruction either reports an error and leaves all accounts byte-for-byte unchanged, or reports success and has its whole documented effect, even when a token transfer, account creation or log write fails at any point inside it, or when it shares a transaction with another instruction that fails. No failure of a nested call is swallowed, and processing never succeeds having done only part of its effect.",
 ['crash_points','fault_sequences','inputs'],'an abort, failed system call, failed transfer or failed nested call at every point of every instruction, and every multi-instruction transaction',
 'tests inject no failures: nothing makes a nested transfer, account creation or log call fail after the market was already mutated',
 [NEW,CAN,RED,PROC+'deposit.rs',PROC+'withdraw.rs',PROC+'fees.rs',PROC+'initialize.rs','src/program/system_utils.rs','src/program/token_utils.rs','src/program/event_recorder.rs','src/lib.rs'],
 [('error propagation of every CPI','src/program/token_utils.rs, system_utils.rs, event_recorder.rs')],[],['return status against the account delta of each transaction'])
prop('P05','Price-time priority, at maker prices within the limit',
 "An incoming order trades only against the best-priced unexpired opposite orders, older orders first at equal price, each fill executes at the resting order's price, and no fill is worse than the taker's limit price. It never skips a matchable order and never leaves budget unspent while a matchable order within its limits remains, and fill sizes equal the smaller of what the taker still may trade and what the resting order has.",
 ['histories','inputs','schedules'],'every book state reachable by any order of arrival, cancellation and expiry, and every taker order',
 'the order of arrival and the contents of the book are schedule dependent; tests use a few hand-written books',
 [FIFO,'src/state/inflight_order.rs'],[('match_order loop and FIFOOrderId ordering',FIFO)],[('books','two sorted sides','market account')],['Fill events and book delta against the reference book'])
prop('P06','The book is never crossed',
 "After every transaction and at every instant of market time, the highest unexpired bid is strictly below the lowest unexpired ask. Bids are held best (highest) first and asks best (lowest) first, each a strict order by price and then arrival, with no order appearing twice.",
 ['histories','schedules','fault_sequences'],'every reachable book at every slot and timestamp, including after expired orders are skipped',
 'crossing arises from interactions of expiry, post-only amendment and leftovers of partially matched orders; tests sample a few',
 [FIFO],[('re-check for crossing before a remainder is placed',FIFO)],[],['raw market account after each transaction and after each clock step'])
prop('P07','Orders expire exactly when they should',
 "A resting order is matchable up to and including its last valid slot and last valid timestamp and never after either has passed; an order with no such bound never expires. An order already expired on arrival has no effect, an expired resting order met by an incoming order is removed with its locked funds returned to its owner as free funds, and the order's time-in-force is recorded exactly as requested whatever clock jumps occur.",
 ['schedules','histories','inputs'],'every placement of slot and timestamp jumps relative to order deadlines',
 'deadlines must be met at every clock value; tests use a fixed fake clock and one or two expiries',
 [FIFO,'src/state/order_schema/order_packet.rs',NEW],[('is_expired checks on resting and incoming orders',FIFO)],[('clock','slot and unix timestamp','Clock sysvar')],['matching against the reference book under the simulated clock'])
prop('P08','Self-trade behaviour is honoured',
 "An order never fills against an order of the same trader. With Abort the whole instruction fails; with CancelProvide the trader's own crossed order is removed and its funds become free; with DecrementTake both sizes shrink by the smaller of the two without fee or fill; other traders' orders are treated as usual in all three cases.",
 ['histories','inputs'],'every book where the taker has resting orders at any depth and every remaining budget',
 'depends on where own orders sit relative to others, budgets and match limits; tests use one own order at the top',
 [FIFO],[('SelfTradeBehavior handling in match_order',FIFO)],[],['Fill/Reduce events, book and balances'])
prop('P09','Taker limits: budgets, minimum fills, fill-or-kill, match limit',
 "A taker never gives more than its stated base or quote budget (fees included) and never trades beyond its match limit, and it gets as much as those limits allow. An immediate-or-cancel order that cannot reach its stated minimum base or quote fill (after fees) fails entirely, and an immediate-or-cancel order never leaves anything resting.",
 ['inputs','histories'],'every budget, fee rate, minimum, match limit and book',
 'the interplay of fee-adjusted budgets, rounding, self-trade and match limit has too many corners for fixed examples',
 [FIFO,'src/state/order_schema/order_packet.rs','src/state/inflight_order.rs'],[('budget adjustment and minimum checks in place_order_inner',FIFO)],[],['token delta and return status'])
prop('P10','Fees are exact and reach only the fee recipient',
 "Every taker fill pays the market's fee rate on the quote value, rounded up to a whole quote lot and never down; makers pay none. Fees accumulate as uncollected until swept, a sweep pays out exactly the uncollected amount once, only to a token account of the current fee recipient, and a change of recipient needs the authority and, if fees are pending, the old recipient's consent.",
 ['histories','inputs'],'every fill, fee rate, sweep timing and change of recipient',
 'rounding and sweep accounting must hold across all histories; '+ENGINE_ONLY,
 [FIFO,PROC+'fees.rs',PROC+'initialize.rs'],[('compute_quote_fee and fee accumulation',FIFO),('collect_fees / change_fee_recipient',PROC+'fees.rs')],[],['fee fields, token delta, events'])
prop('P11','Post-only orders never take liquidity',
 "A post-only order never executes against any order, never pays a fee and never incurs a fill. If it would cross the best unexpired opposite order it is rejected without effect, or, when it asked to be adjusted, rests exactly one tick inside the opposite best price; the same non-taking rule holds for every order admitted while the market is in post-only status.",
 ['histories','inputs','schedules'],'every book including expired tops, every price and every market status',
 'depends on expiry of the top of book at the current clock and on market status set by another party',
 [FIFO,NEW,'src/program/status.rs'],[('check_for_cross and the post-only status check',FIFO+', '+NEW)],[],['Fill events, book, status'])
prop('P12','Order identifiers are unique and increasing',
 "Every accepted resting order gets an identifier distinct from every order that market ever accepted, later orders get later sequence numbers, the price in the identifier is the order's price, and the identifiers returned to the caller are those of the orders resting in the book, in order. An identifier keeps designating the same order (same owner, side, price) until that order is gone, and never anything else.",
 ['histories','fault_sequences'],'every history including failed, amended, merged, evicting and rolled-back placements',
 'uniqueness is over the unbounded history of a market',
 [FIFO,NEW],[('order sequence number and side-encoded identifiers',FIFO)],[],['return data, Place events, book'])
prop('P13','A full book evicts only its worst order for a better one',
 "When a side of the book is full, a new resting order is accepted only if its price is strictly better than that side's worst order; then exactly the worst-priced, most recent order is removed and its funds return to its owner as free funds. Otherwise the placement fails without effect, and no order is ever evicted from a side that is not full.",
 ['histories','inputs'],'every full book, every incoming price, with or without matching first',
 'needs hundreds of resting orders by several traders and exact capacity; tests fill a book once',
 [FIFO],[('eviction of the least aggressive order',FIFO)],[],['book delta, Evict events, balances'])
prop('P14','Cancel and reduce act exactly on the caller’s own orders',
 "Cancelling or reducing frees exactly the funds the removed quantity had locked and removes exactly the selected orders: all of the caller's, the first ones up to a tick and count limit, or those named by identifier. Orders of others, unselected orders and unknown identifiers are untouched, a reduction of at least the remaining size removes the order, and freed funds are paid out or kept as free balance according to the instruction's variant.",
 ['histories','inputs','schedules'],'every book and selection, including stale identifiers raced by fills, evictions and other cancels',
 'selections race with fills and evictions; tests cancel a few orders of a quiet book',
 [CAN,RED,FIFO],[('cancel and reduce entry points of the engine',FIFO)],[],['book, balances and tokens after each transaction'])
prop('P15','Deposits and withdrawals are exact and bounded',
 "A deposit moves exactly the requested lots from the depositor's wallet to the vaults and credits the depositor's free balance by the same; a withdrawal pays exactly the requested lots, or the whole free balance when no amount or more than is free is requested, and never touches locked funds. Orders use the trader's free balance before the wallet, take from the wallet only the shortfall, and free-funds orders never touch the wallet.",
 ['histories','inputs','fault_sequences'],'every amount, prior balance and interleaving, including emptied, frozen or closed wallets',
 ENGINE_ONLY+'; amounts interact with free and locked balances built by arbitrary histories',
 [PROC+'deposit.rs',PROC+'withdraw.rs',NEW,'src/program/token_utils.rs',FIFO,'src/state/trader_state.rs'],[('claim_funds and deposit/withdraw token transfers',FIFO+', src/program/token_utils.rs')],[],['token and balance deltas'])
prop('P16','Market status gates every action and follows its life cycle',
 "Only the authority changes a market's status, only along the documented life cycle, and each status admits exactly its actions: matching only when active, new resting orders and deposits only when active or post-only, cancelling with withdrawal when active, post-only, paused or closed. A market can be tombstoned only when closed and holding no orders, traders or uncollected fees, after which that market, its books and its balances can never be used again.",
 ['histories','inputs','schedules'],'every instruction in every status, with status changes interleaved at any point',
 'the product of all instructions and statuses, with transitions raced by traders, is not sampled at all by the tests that run',
 ['src/program/status.rs','src/program/validation/loaders.rs',PROC+'governance.rs',NEW,'src/program/dispatch_market.rs'],[('status assertions in context loaders, transition matrix','src/program/status.rs, src/program/processor/governance.rs')],[],['status field and accept/reject of each instruction'])
prop('P17','Seats gate who may rest orders, and are granted only by the authority',
 "Only holders of an approved seat can deposit or rest orders; anyone may request a seat for themselves, or the authority may for another, at one address per market and trader. Only the authority approves, revokes or retires seats (or evicts a trader with no funds left and a revoked seat), an approved trader always stays registered, and a retired seat can never be approved again.",
 ['histories','inputs','schedules'],'every seat history, interleaved with trading, with every signer and account substitution',
 ENGINE_ONLY,
 [PROC+'manage_seat.rs','src/program/validation/loaders.rs','src/program/validation/checkers/phoenix_checkers.rs','src/program/status.rs','src/program/accounts.rs',PROC+'governance.rs'],[('seat context loaders and approval transitions','src/program/processor/manage_seat.rs')],[],['seat accounts, trader registry, accept/reject'])
prop('P18','Authority handover is two-step and exclusive',
 "Control of a market changes hands only when the current authority names a successor and that very successor then claims it in a transaction it signs; until then the old authority keeps control, and afterwards it has none. Every administrative action is refused for anyone but the authority of the moment, whatever races or replays occur.",
 ['schedules','histories','inputs'],'every interleaving of naming, re-naming, claiming, replayed and hostile transactions',
 ENGINE_ONLY,
 [PROC+'governance.rs','src/program/validation/loaders.rs','src/program/processor/manage_seat.rs'],[('AuthorizedActionContext and successor check','src/program/validation/loaders.rs, src/program/processor/governance.rs')],[],['authority and successor fields, accept/reject'])
prop('P19','The event log alone reconstructs every market change',
 "Every successful instruction emits a log whose header names the instruction, market, signer, clock and a sequence number that increases by exactly one per logged instruction on that market, with events indexed consecutively across batches. Replaying those events rebuilds the order book and the uncollected fees exactly, each event states the true parties, identifiers, prices and sizes, and no outsider can emit a log in the program's name.",
 ['histories','inputs','fault_sequences'],'every history, including instructions with more events than one batch holds, lost and duplicated deliveries to the indexer, and forged log calls',
 'completeness of a derived stream is a property of whole histories; no runnable test looks at the emitted log',
 ['src/program/event_recorder.rs','src/program/events.rs','src/state/markets/market_events.rs','src/lib.rs',FIFO],[('EventRecorder batching and flush','src/program/event_recorder.rs')],[],['log instruction data as captured by the simulated runtime'])
prop('P20','Substituted, forged or misowned accounts are refused',
 "Every instruction refuses a market, seat, vault, mint, token account, token program, system program, log authority or program account that is not the genuine one for the role it is passed in, and one that lacks a required signature, owner, mint or writability. A refused instruction leaves everything unchanged.",
 ['inputs','configurations'],'every instruction, every account position, and substitutes from other markets, other traders, other programs and look-alike data',
 ENGINE_ONLY+'; no test substitutes accounts',
 ['src/program/validation/loaders.rs','src/program/validation/checkers/mod.rs','src/program/validation/checkers/phoenix_checkers.rs','src/program/validation/checkers/token_checkers.rs','src/program/accounts.rs','src/lib.rs'],[('checked account wrappers','src/program/validation')],[],['accept/reject against the account rules of the reference model'])
prop('P21','A market is created once, correctly, and with sane parameters',
 "Initialization succeeds only on a fresh market account of a supported size with valid mints, unused market vault addresses, parameters that divide evenly and a fee no greater than the whole, and yields an empty, post-only market with exactly the given parameters and two empty program-controlled vaults. It can never be repeated on or alter an existing market, and lot and tick sizes of a usable market are never zero.",
 ['inputs','configurations','histories'],'every parameter set, size configuration and prior state of the accounts involved, including prefunded addresses and re-initialization attempts',
 ENGINE_ONLY,
 [PROC+'initialize.rs','src/program/dispatch_market.rs','src/program/system_utils.rs',FIFO],[('process_initialize_market',PROC+'initialize.rs')],[],['market header, engine parameters, vault accounts'])
prop('P22','Funds are never trapped: traders exit and markets wind down',
 "Once faults and hostile traffic stop, every trader can by their own actions cancel all their orders and withdraw their whole balance in a bounded number of transactions in every status that still allows reducing, and the authority can then close, clear all seats and traders, sweep fees and tombstone the market in a bounded number of transactions. Afterwards the vaults hold only what was donated.",
 ['histories','fault_sequences','schedules'],'from every reachable state, after any history of faults, within a stated number of transactions',
 'liveness from arbitrary reachable states cannot be sampled by fixed scenarios',
 [CAN,PROC+'withdraw.rs',PROC+'governance.rs',PROC+'manage_seat.rs',PROC+'fees.rs',FIFO],[('reduce-side instructions and forced exits','src/program/processor')],[],['bounded wind-down at the end of each simulated run'])
prop('P23','Exhausted capacity fails cleanly',
 "When the trader table or a side of the book is full, when amounts are at numeric extremes or when compute would overflow, an instruction either succeeds exactly as specified or fails without any effect; existing orders and balances stay intact and space freed by cancels, fills and evictions is fully reusable. Malformed or truncated instruction data is always refused, never partly executed.",
 ['inputs','histories','configurations'],'every fill level of every table, every numeric extreme and every malformed payload',
 'tests use one large configuration and small numbers',
 [FIFO,'src/lib.rs','src/quantities.rs',PROC+'manage_seat.rs','src/program/dispatch_market.rs'],[('tree capacity checks, checked arithmetic, payload decoding',FIFO+', src/lib.rs')],[],['accept/reject and raw market account against the reference model'])
prop('P24','Markets are isolated from one another',
 "An instruction on one market never changes another market's book, balances, fees, status, seats or vaults, even when the two share tokens, traders, authority or a transaction. Nothing a market holds can be paid out through another.",
 ['histories','inputs','schedules'],'every pair of markets, shared parties and interleaved or bundled instructions',
 'no runnable test has two markets',
 ['src/program/validation/loaders.rs','src/program/validation/checkers/phoenix_checkers.rs','src/program/token_utils.rs','src/program/processor/mod.rs'],[('per-market addresses of vaults and seats','src/lib.rs, src/program/validation')],[],['byte comparison of uninvolved markets and vaults'])
prop('P25','Underfunded orders and multi-order packets do exactly what was asked',
 "Judged on the stated price and size of each order, before fees, against free balance plus wallet (free balance only for free-funds orders), an order or packet marked to fail silently on insufficient funds succeeds without effect (or, for a packet set to skip, places exactly the affordable orders, best priced first), and one not so marked fails entirely. A multi-order packet rests each order at its stated price, size and expiry, merges only consecutive orders that agree on all of price and expiry, refuses a self-crossing packet, and honours its reject-or-adjust choice per order.",
 ['inputs','histories','fault_sequences'],'every packet, wallet and free balance, including wallets drained by a racing transaction',
 ENGINE_ONLY+'; funds are raced by other transactions',
 [NEW,'src/state/order_schema/order_packet.rs'],[('process_multiple_new_orders and the funds check',NEW)],[],['book, tokens, return data'])
prop('P26','Read-only views report the true state at any clock',
 "The market views offered to clients – price ladders with and without expired orders filtered, order listings, per-trader balances and the market header – report exactly the state that instructions would act on at the same slot and timestamp. Loading a market of any supported size for reading or writing sees the same data and never alters it.",
 ['histories','schedules','configurations'],'every reachable state, size configuration and clock value',
 'views depend on accumulated state and on the clock; tests read a handful of small books',
 ['src/program/dispatch_market.rs','src/state/markets/market_traits.rs','src/state/markets/market_wrapper.rs',FIFO,'src/program/accounts.rs'],[('get_ladder / load_with_dispatch','src/state/markets/market_traits.rs, src/program/dispatch_market.rs')],[],['views compared with the raw account after each transaction and clock step'])
prop('P27','Clients of any version keep their meaning on the wire',
 "Order packets and parameters written by older clients, without the trailing optional fields, decode to the documented defaults, and packets with those fields decode to exactly what was written. Data that is neither a complete packet nor one lacking only trailing optional fields is refused, and no instruction is ever interpreted as a different one.",
 ['inputs','histories','configurations'],'every mix of client versions, truncations and corruptions in flight',
 'the tests cover a few packets of one version; mixing versions on a live market is not exercised',
 ['src/state/order_schema/order_packet.rs','src/lib.rs','src/program/instruction.rs',NEW,CAN,PROC+'withdraw.rs',RED],[('decode_order_packet and borsh parameters','src/state/order_schema/order_packet.rs')],[],['effect of each raw payload against the independent decoder'])
prop('P28','Published instruction builders, order packets and IDL agree with the program',
 "Wherever the program accepts an instruction with some effect, the form of it that clients are given has that same outcome: the builder functions and order-packet constructors the crate ships, and an instruction written from nothing but the published IDL (idl/phoenix_v1.json), are accepted or refused alike and leave the same accounts, token balances and log records behind. Every log record the program emits and every market header it writes decodes to the same contents with the published types and with the IDL.",
 ['inputs','history'],'every instruction, argument and ledger state reached',
 'the tests call some builders with one set of arguments on an honest fresh market, and never read the IDL; agreement is about every argument and about what happens when executed',
 ['src/program/instruction_builders/market_instructions.rs','src/program/instruction_builders/market_authority_instructions.rs','src/program/instruction.rs'],[('builders','src/program/instruction_builders')],[],['instruction bytes'])
prop('P29','Quantity conversions are exact or fail',
 "Conversions between atoms, lots, units and ticks lose nothing silently: they are exact, round in the documented direction, or fail on overflow.",
 ['inputs'],'every amount',
 'arithmetic over all 64-bit inputs',
 ['src/quantities.rs'],[('typed quantities','src/quantities.rs')],[],['return values'])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=True)+'\n')
print(len(P))
