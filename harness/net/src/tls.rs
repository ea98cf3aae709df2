//! The same over secured connections (see the stand-in for tokio-rustls), and what can go wrong while
//! a connection is made.
use crate::broker::{acceptor, cfg, con, connect, secs, start, Cl};
use crate::{broker as b, client as c, pair as e, stream as s};
use std::sync::Arc;
use tokio::sim;
use vaux_broker::Config;
use vaux_client::{ClientBuilder, MqttConnection};

pub fn t_stream(k: u64, x: u64, y: u64, z: u64) {
    sim::set_tls(true);
    match k {
        0 => s::s_reasm(x, y, z, 1),
        1 => s::s_end(x, y, z),
        2 => s::s_write(x, y, z),
        3 => s::s_wfail(x),
        _ => s::s_big(x, y, z, 0),
    }
}
pub fn t_broker(k: u64, x: u64, y: u64, z: u64) {
    sim::set_tls(true);
    match k {
        0 => b::b_order(x, y, z),
        1 => b::b_slow(x, y),
        2 => b::b_overrun(x, y),
        3 => b::b_will(x, y, z),
        4 => b::b_takeover(x, y),
        5 => b::b_hostile(x, y, z),
        6 => b::b_expiry(x, y),
        7 => b::b_gate(x, y),
        _ => b::b_refused(x),
    }
}
pub fn t_client(k: u64, x: u64, y: u64, z: u64) {
    sim::set_tls(true);
    match k {
        0 => c::c_connect(x, y),
        1 => c::c_first(x, y),
        2 => c::c_send(x, y, z, 5),
        3 => c::c_recv(x, y, 0, z),
        4 => c::c_keep(x, y),
        5 => c::c_end(x, y, z, 0),
        _ => c::c_stall(),
    }
}
pub fn t_pair(k: u64, x: u64, y: u64, z: u64) {
    sim::set_tls(true);
    match k {
        0 => e::e_pubsub(x, y, z),
        1 => e::e_break(x, y, z, 12),
        2 => e::e_idle(x),
        3 => e::e_will(x, y),
        _ => e::e_takeover(),
    }
}

/// Connections whose TLS handshake stalls (0), fails (1), ends (2) or is an MQTT packet instead (3).
pub fn t_accept(what: u64) {
    let _b = start(Config { tls_acceptor: Some(acceptor()), ..cfg() });
    sim::set_tls(true);
    let (mut o, _) = b::join(&con("o"));
    b::sub(&mut o, 1, &[(b"a", 1)]);
    let n = 1 + vs::choice(2);
    let mut bad = vec![];
    for _ in 0..n {
        let mut x = Cl::on(sim::dial_raw());
        match what {
            0 => {}
            1 => {
                let y = vs::u8();
                vs::assume(y != 0x16);
                x.send(&[y]);
            }
            2 => x.p.close(),
            _ => x.send(&connect(&con("x"))),
        }
        sim::run();
        if what == 0 {
            vs::check(!x.p.closed_by_sut(), "a connection in its TLS handshake was closed");
        } else {
            vs::check(x.p.closed_by_sut(), "a connection whose TLS handshake failed was not closed");
            vs::check(x.p.recv().is_empty(), "a connection whose TLS handshake failed was answered");
        }
        bad.push(x);
    }
    // everybody else is served
    let (mut y, _) = b::join(&con("y"));
    let m = vs::bytes(1);
    y.send(&b::publish(1, 7, b"a", &[], &m));
    y.one(4, "a message was not acknowledged once another connection's TLS handshake was going on, or had failed");
    let f = o.one(3, "a message was not delivered once another connection's TLS handshake was going on, or had failed");
    vs::check(b::unpub(&f).payload == m, "another message was delivered");
    if what == 0 {
        // late, but complete
        for (k, x) in bad.iter_mut().enumerate() {
            x.send(&[0x16]);
            sim::run();
            vs::check(x.p.recv() == [0x16], "a late TLS handshake was not completed");
            x.send(&connect(&con(["v", "w"][k])));
            x.one(2, "a client was not served after a slow TLS handshake");
        }
    }
    vs::reach("served");
}

/// Connecting (0) or its TLS handshake (1) takes `d` seconds; the handshake fails (2), or the server
/// closes the connection (3); there is nothing to trust (4); the server refuses connections (5).
pub fn t_connect(what: u64) {
    let w = vs::u8() as u64;
    let d = vs::u8() as u64;
    vs::assume(w > 0 && d > 0 && d != w);
    let mut at = MqttConnection::new().with_host("localhost").with_port(1883);
    let secure = match what {
        0 | 5 => vs::flip(),
        _ => true,
    };
    if secure {
        at = at.with_tls();
        if what != 4 {
            at = at.with_trust_store(Arc::new(rustls::RootCertStore::empty()));
        }
    }
    let mut client = match sim::drive(ClientBuilder::new(at).with_client_id("c").with_max_connect_wait(secs(w)).build()) {
        Some(Ok(c)) => c,
        _ => vs::fail("the client was not built"),
    };
    let begun = sim::now();
    let ok = match what {
        0 => {
            sim::set_tls(secure);
            sim::set_delay(secs(d));
            d < w
        }
        1 => d < w,
        5 => {
            sim::refuse_connections(true);
            false
        }
        _ => false,
    };
    let answer = vs::u8();
    vs::assume(answer != 0x16);
    if what > 0 && what < 4 {
        tokio::spawn(async move {
            if what == 1 {
                tokio::time::sleep(secs(d)).await;
            }
            for p in sim::opened() {
                match what {
                    1 => p.send(&[0x16]),
                    2 => p.send(&[answer]),
                    _ => p.close(),
                }
            }
        });
    }
    let r = match sim::drive_for(client.start(true), secs(1000)) {
        Some(r) => r,
        None => vs::fail("a client that starts neither connects nor gives up"),
    };
    let took = sim::now() - begun;
    sim::set_delay(secs(0));
    if ok {
        vs::check(r.is_ok(), "a client gave up connecting before the time it is to wait had passed");
        sim::run();
        let p = match sim::opened().last() {
            Some(p) => *p,
            None => vs::fail("the client opened no connection"),
        };
        if what == 1 {
            vs::check(p.conn().from_sut.first() == Some(&0x16), "a secured connection does not start with a TLS handshake");
            p.conn().from_sut.remove(0);
        }
        let mut s = Cl::on(p);
        s.one(1, "no CONNECT, or something else than a CONNECT, from a client that starts");
        s.send(&c::connack(0, 0, &[]));
        sim::run();
        vs::check(sim::drive(client.connected()) == Some(true), "the client is not connected after CONNACK");
        vs::reach("connected");
    } else {
        vs::check(r.is_err(), "a client started without a connection");
        if what < 2 {
            vs::check(took <= secs(w), "a client waited longer for its connection than it is to");
            vs::check(took >= secs(w), "a client gave up connecting before the time it is to wait had passed");
        } else {
            vs::check(took == secs(0), "a failed connection was reported late");
        }
        vs::check(sim::drive(client.connected()) == Some(false), "the client says it is connected but is not");
        for p in sim::opened() {
            vs::check(p.closed_by_sut(), "the client gave up a connection but leaves it open");
            vs::check(p.conn().from_sut.len() <= secure as usize, "MQTT packets were sent before the connection was secured");
        }
        vs::reach("refused");
    }
}
