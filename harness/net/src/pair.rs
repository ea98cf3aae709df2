//! Clients and the broker, connected to each other.
use crate::broker::{cfg, secs, start};
use crate::client::{App, begin, conf, qos};
use std::time::Duration;
use tokio::sim::{self, Peer};
use vaux_broker::Config;
use vaux_client::{ClientBuilder, ErrorKind};
use vaux_mqtt::publish::Publish;
use vaux_mqtt::{Packet, QoSLevel, Reason, WillMessage};

struct Link {
    c: Peer,
    b: Peer,
    /// bytes that still get through: to the broker, to the client; then the connection breaks
    up: usize,
    down: usize,
    /// nothing gets through for now
    held: bool,
    cut: bool,
}
impl Link {
    fn cut(&mut self) {
        self.cut = true;
        self.c.close();
        self.b.close();
        self.c.fail_writes(std::io::ErrorKind::BrokenPipe);
        self.b.fail_writes(std::io::ErrorKind::BrokenPipe);
    }
    fn pass(from: Peer, to: Peer, left: &mut usize) -> bool {
        let b = from.recv();
        let n = b.len().min(*left);
        to.send(&b[..n]);
        if *left != usize::MAX {
            *left -= n;
        }
        if from.closed_by_sut() && !to.conn().eof {
            to.close();
            return true;
        }
        n > 0
    }
}
struct Net(Vec<Link>);
impl Net {
    /// Until everything is idle.
    fn run(&mut self) {
        loop {
            sim::run();
            let mut moved = false;
            for l in self.0.iter_mut() {
                if l.cut || l.held {
                    continue;
                }
                moved |= Link::pass(l.c, l.b, &mut l.up);
                moved |= Link::pass(l.b, l.c, &mut l.down);
                if l.up == 0 || l.down == 0 {
                    l.cut();
                    moved = true;
                }
            }
            if !moved {
                break;
            }
        }
    }
    fn elapse(&mut self, d: Duration) {
        let end = sim::now() + d;
        loop {
            let t = match sim::next_timer() {
                Some(t) if vs::concrete((t < end) as usize) == 1 => t,
                _ => end,
            };
            sim::elapse(t.saturating_sub(sim::now()));
            self.run();
            if t >= end {
                return;
            }
        }
    }
    /// A client that starts; its link's index.
    fn dial(&mut self, b: ClientBuilder, clean: bool) -> (App, usize) {
        let a = begin(b, clean);
        self.0.push(Link { c: a.s.p, b: sim::dial(), up: usize::MAX, down: usize::MAX, held: false, cut: false });
        self.run();
        (a, self.0.len() - 1)
    }
    fn join(&mut self, b: ClientBuilder, clean: bool) -> (App, usize) {
        let (a, k) = self.dial(b, clean);
        vs::check(a.up() && !a.done(), "a client does not connect to the broker");
        (a, k)
    }
    fn subscribe(&mut self, a: &mut App, id: u16, f: &str, q: u8) {
        match sim::drive(a.client.subscribe(id, &[f], qos(q))) {
            Some(Ok(())) => {}
            _ => vs::fail("the client cannot subscribe"),
        }
        self.run();
        match a.take() {
            Some(Packet::SubAck(s)) => vs::check(
                s.packet_id() == id && s.reason_codes.len() == 1 && s.reason_codes[0] as u8 == q,
                "a subscription is not granted as it was asked for",
            ),
            _ => vs::fail("a subscription is not acknowledged"),
        }
    }
}
#[derive(Clone, PartialEq)]
struct Msg {
    topic: Vec<u8>,
    payload: Vec<u8>,
    q: u8,
    retain: bool,
}
fn msg(q: u8) -> Msg {
    let t = vs::u8();
    vs::assume(t > b'/' && t < 0x80);
    Msg { topic: vec![b'a', b'/', t], payload: vs::bytes(1), q, retain: vs::bit() }
}
impl Msg {
    fn packet(&self) -> Packet {
        let topic = unsafe { String::from_utf8_unchecked(self.topic.clone()) };
        let mut p = match Publish::new_with_payload(None, topic, QoSLevel::AtMostOnce, self.payload.clone()) {
            Ok(p) => p,
            Err(_) => vs::fail("a PUBLISH cannot be built"),
        };
        p.set_qos(qos(self.q));
        p.set_retain(self.retain);
        Packet::Publish(p)
    }
    fn is(&self, p: &Publish) -> bool {
        p.topic_name.as_bytes() == self.topic && p.payload.as_ref().map_or(&[][..], |b| &b[..]) == self.payload
    }
}
fn publish(p: Packet) -> Publish {
    match p {
        Packet::Publish(p) => p,
        _ => vs::fail("the application gets something else than the messages it subscribed to"),
    }
}
/// The acknowledgements for `n` messages.
fn acked(a: &mut App, n: usize) {
    for _ in 0..n {
        vs::check(matches!(a.take(), Some(Packet::PubAck(_))), "a message is not acknowledged");
    }
    vs::check(a.take().is_none(), "a message is acknowledged more than once, or something else comes");
}

/// `n` messages from one application to another, subscribed with QoS `sq` to a filter with any
/// last character; `same`: both in one client.
pub fn e_pubsub(n: u64, sq: u64, same: u64) {
    start(cfg());
    let mut net = Net(vec![]);
    let (mut a, _) = net.join(conf("a"), true);
    let mut b = if same == 0 { Some(net.join(conf("b"), true).0) } else { None };
    let f = vs::u8();
    vs::assume((f > b'/' || f == b'+' || f == b'#') && f < 0x80);
    let filter = unsafe { String::from_utf8_unchecked(vec![b'a', b'/', f]) };
    net.subscribe(b.as_mut().unwrap_or(&mut a), 1, &filter, sq as u8);
    let mut want = vec![];
    let mut acks = 0;
    for _ in 0..n {
        let m = msg(vs::choice(2) as u8);
        acks += (m.q == 1) as usize;
        a.put(m.packet());
        if vs::flip() {
            net.run();
        }
        if f == b'+' || f == b'#' || f == m.topic[2] {
            want.push(m);
        }
    }
    net.run();
    let mut got = vec![];
    while let Some(p) = b.as_mut().unwrap_or(&mut a).take() {
        match p {
            Packet::Publish(p) => got.push(p),
            Packet::PubAck(_) if same == 1 && acks > 0 => acks -= 1,
            _ => vs::fail("the application gets something else than the messages it subscribed to"),
        }
    }
    vs::check(got.len() == want.len(), "an application does not get exactly the messages it subscribed to");
    for (p, m) in got.iter().zip(&want) {
        vs::check(m.is(p), "messages arrive in another order or with another content than they were sent");
        vs::check(p.qos() as u8 == m.q.min(sq as u8), "a message arrives with another QoS than it was sent and subscribed with");
        vs::check(!p.retain() && !p.dup(), "a message arrives as retained or as a duplicate");
        vs::reach("arrived");
    }
    if same == 1 {
        vs::check(acks == 0, "a message is not acknowledged");
    } else {
        acked(&mut a, acks);
    }
    vs::check(a.up() && b.is_none_or(|b| b.up()), "a client or the broker ends a connection that is in use");
}

/// `n` QoS 1 messages; the connection of the sender (`who` 0) or of the receiver (1) breaks after any
/// number of bytes up to `max`, upwards (`dir` 0) or downwards (1), and is made again.
pub fn e_break(n: u64, who: u64, dir: u64, max: u64) {
    start(cfg());
    let mut net = Net(vec![]);
    let (mut a, ka) = net.join(conf("a"), true);
    let (mut b, kb) = net.join(conf("b"), true);
    net.subscribe(&mut b, 1, "a/#", 1);
    let k = if who == 0 { ka } else { kb };
    // what the broker forwards is in flight when the connection breaks, or else
    // some of it is published when the receiver is already away
    net.0[kb].held = who == 1 && vs::flip();
    let bytes = 1 + vs::choice(max) as usize;
    if dir == 0 {
        net.0[k].up = bytes;
    } else {
        net.0[k].down = bytes;
    }
    let sent: Vec<Msg> = (0..n).map(|_| msg(1)).collect();
    for i in 1..sent.len() {
        for m in &sent[..i] {
            vs::assume(sent[i].payload[0] != m.payload[0]);
        }
    }
    let mut put = 0;
    for m in &sent {
        if a.done() {
            break;
        }
        a.put(m.packet());
        put += 1;
        net.run();
    }
    net.0[kb].held = false;
    net.run();
    let mut got = vec![];
    while let Some(p) = b.take() {
        got.push(publish(p));
    }
    if net.0[k].cut {
        let x = if who == 0 { &mut a } else { &mut b };
        vs::check(x.done(), "the client does not end with its connection");
        let st = match x.end() {
            Ok(_) => vs::fail("the connection ended unexpectedly but the client reports success"),
            Err(e) => e.state,
        };
        let (y, _) = net.join(ClientBuilder::default().with_state(crate::client::at(), st), false);
        *x = y;
        for m in &sent[put..] {
            a.put(m.packet());
        }
        net.run();
        while let Some(p) = b.take() {
            got.push(publish(p));
        }
        vs::reach("broken");
    }
    // at least once, in order
    let mut next = 0;
    for p in &got {
        if next < sent.len() && sent[next].is(p) {
            next += 1;
        } else {
            vs::check(p.dup() || who == 0, "a message arrives again that is not marked as a duplicate");
            vs::check(sent.iter().any(|m| m.is(p)), "a message arrives that was not sent");
        }
    }
    vs::check(next == sent.len(), "a QoS 1 message is lost, or messages arrive in another order");
    // and everything goes on
    (net.0[k].up, net.0[k].down) = (usize::MAX, usize::MAX);
    let m = msg(1);
    while a.take().is_some() {}
    a.put(m.packet());
    net.run();
    vs::check(b.take().is_some_and(|p| m.is(&publish(p))) && b.take().is_none(), "a message does not arrive after the connection was made again");
    vs::check(matches!(a.take(), Some(Packet::PubAck(_))), "a message is not acknowledged");
    vs::reach("arrived");
}

/// An idle client, whatever keep alive it asks for and the broker allows, stays connected for
/// `n` intervals; `by`: the client's (0), the broker's choice.
pub fn e_idle(n: u64) {
    let (k, d, m) = (vs::u16() as u64, vs::u16() as u64, vs::u16() as u64);
    vs::assume(k >= 30 && d > 0 && d <= m);
    start(Config { default_keep_alive: secs(d), max_keep_alive: secs(m), ..cfg() });
    let mut net = Net(vec![]);
    let (a, _) = net.join(conf("a").with_keep_alive(secs(k)), true);
    for _ in 0..n {
        let t = match sim::next_timer() {
            Some(t) => t,
            None => vs::fail("nothing keeps the connection alive"),
        };
        sim::elapse(t - sim::now());
        net.run();
        vs::check(a.up() && !a.done() && !net.0[0].b.closed_by_sut(), "the connection of an idle client ends");
        vs::reach("interval");
    }
}

/// The end of a client: broken connection (`how` 0) or stopped (1); its will.
pub fn e_will(how: u64, q: u64) {
    start(cfg());
    let mut net = Net(vec![]);
    let (mut b, _) = net.join(conf("b"), true);
    net.subscribe(&mut b, 1, "a/#", 1);
    let m = msg(q as u8);
    let t = unsafe { String::from_utf8_unchecked(m.topic.clone()) };
    let w = WillMessage::new(t, &m.payload, qos(m.q), m.retain);
    let (mut a, ka) = net.join(conf("a").with_will_message(w), true);
    if how == 0 {
        net.0[ka].cut();
        net.run();
        vs::check(a.end().is_err(), "the connection ended unexpectedly but the client reports success");
        match b.take() {
            Some(Packet::Publish(p)) => vs::check(m.is(&p) && p.qos() as u8 == m.q, "a will message differs from the one that was set"),
            _ => vs::fail("the will of a client is not published when its connection breaks"),
        }
        vs::reach("will");
    } else {
        match sim::drive(a.client.stop()) {
            Some(Ok(())) => {}
            _ => vs::fail("the client cannot be stopped"),
        }
        net.run();
        vs::check(a.end().is_ok(), "a client that is stopped reports an error");
        vs::reach("stopped");
    }
    net.elapse(secs(1));
    vs::check(b.take().is_none(), "the will of a client is published twice, or although it was stopped");
}

/// Two clients with the same identifier: the first is told, the second works.
pub fn e_takeover() {
    start(cfg());
    let mut net = Net(vec![]);
    let (mut a, _) = net.join(conf("a"), true);
    let (mut b, _) = net.join(conf("a"), vs::flip());
    vs::check(a.done(), "a client is not disconnected when another one takes its session over");
    match a.end() {
        Ok(_) => vs::fail("a client whose session is taken over reports success"),
        Err(e) => vs::check(matches!(e.kind(), ErrorKind::Protocol(Reason::SessionTakeOver)), "a client is not told that its session is taken over"),
    }
    net.subscribe(&mut b, 1, "a/#", 1);
    let m = msg(1);
    b.put(m.packet());
    net.run();
    let (x, y) = (b.take(), b.take());
    let n = [&x, &y].iter().filter(|p| matches!(p, Some(Packet::Publish(p)) if m.is(p))).count();
    vs::check(n == 1 && b.take().is_none(), "a client that has taken a session over does not get its messages");
    vs::reach("taken over");
}
