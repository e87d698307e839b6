BUGS = []


def bug(id, property, needs, what, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, what_it_breaks=what, edits=edits, demo=demo))


FIFO = 'state/markets/fifo.rs'

WATCH = '''
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(20));
        eprintln!("the order never ends");
        std::process::exit(1);
    });
'''

bug('quote-dust-spins-forever', 'P09',
    'an immediate-or-cancel order with a quote budget that takes whole offers and whose rest does not buy one lot of the next one',
    'matching ends on a partly consumed offer only if something of it was taken, so an order whose quote budget buys nothing of the next offer is matched for zero lots for ever',
    [(FIFO, '''                    inflight_order.should_terminate = true;
                    (
                        base_lots_to_remove,
''', '''                    inflight_order.should_terminate =
                        base_lots_to_remove > BaseLots::ZERO;
                    (
                        base_lots_to_remove,
''')],
    WATCH + '''
    let mut l = Lab::new();
    let (a, b) = (key(4, 1), key(4, 2));
    let m = l.market(0, 0, &[a, b]);
    assert!(l.order(&m, &a, &Lab::limit(false, 100, 1)));
    assert!(l.order(&m, &a, &Lab::limit(false, 101, 50)));
    let o = Lab::ioc(true, Some(101), 0, 150);
    assert!(l.order(&m, &b, &o));
''')
