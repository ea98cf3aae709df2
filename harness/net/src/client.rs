//! The client, observed from the server's side of its connections and through its API.
use crate::broker::{packet, publish, secs, unpub, Cl, Frame};
use crate::refc::*;
use std::time::Duration;
use tokio::sim;
use tokio::sync::mpsc::{Receiver, Sender};
use tokio::task::JoinHandle;
use vaux_client::client::ClientError;
use vaux_client::session::SessionState;
use vaux_client::{ClientBuilder, ErrorKind, MqttClient, MqttConnection};
use vaux_mqtt::publish::Publish;
use vaux_mqtt::{Packet, QoSLevel, WillMessage};

pub type Ended = Result<SessionState, ClientError>;
pub struct App {
    pub client: MqttClient,
    pub tx: Sender<Packet>,
    pub rx: Receiver<Packet>,
    h: Option<JoinHandle<Ended>>,
    /// the server's side
    pub s: Cl,
}
pub fn at() -> MqttConnection {
    let c = MqttConnection::new().with_host("localhost").with_port(1883);
    match sim::tls() {
        false => c,
        true => c.with_tls().with_trust_store(std::sync::Arc::new(rustls::RootCertStore::empty())),
    }
}
pub fn conf(id: &str) -> ClientBuilder {
    ClientBuilder::new(at()).with_client_id(id).with_keep_alive(secs(60))
}
pub fn begin(b: ClientBuilder, clean: bool) -> App {
    let mut client = match sim::drive(b.build()) {
        Some(Ok(c)) => c,
        _ => vs::fail("the client was not built"),
    };
    let tx = client.packet_producer();
    let rx = match client.take_packet_consumer() {
        Some(r) => r,
        None => vs::fail("the client has no packet consumer"),
    };
    let h = match sim::drive(client.start(clean)) {
        Some(Ok(h)) => h,
        _ => vs::fail("the client did not start"),
    };
    sim::run();
    let s = match sim::opened().last() {
        Some(p) => Cl::on(*p),
        None => vs::fail("the client opened no connection"),
    };
    App { client, tx, rx, h: Some(h), s }
}
pub fn connack(present: u8, reason: u8, props: &[u8]) -> Vec<u8> {
    packet(0x20, &[&[present, reason], &vbi(props.len() as u32), props])
}
impl App {
    /// The CONNECT comes, the CONNACK is sent.
    pub fn accept(&mut self, present: bool, props: &[u8]) -> Frame {
        let f = self.s.one(1, "no CONNECT, or something else than a CONNECT, from a client that starts");
        self.s.send(&connack(present as u8, 0, props));
        sim::run();
        f
    }
    pub fn put(&self, p: Packet) {
        match sim::drive(self.tx.send(p)) {
            Some(Ok(())) => {}
            _ => vs::fail("the client takes no packets from the application"),
        }
    }
    /// A packet for the application, if there is one.
    pub fn take(&mut self) -> Option<Packet> {
        self.rx.try_recv().ok()
    }
    pub fn done(&self) -> bool {
        self.h.as_ref().is_some_and(|h| h.is_finished())
    }
    pub fn up(&self) -> bool {
        match sim::drive(self.client.connected()) {
            Some(b) => b,
            None => vs::fail("connected() does not return"),
        }
    }
    /// How the client ended; it must have.
    pub fn end(&mut self) -> Ended {
        vs::check(self.done(), "the client does not end with its connection");
        vs::check(!self.up(), "the client has ended but says that it is connected");
        vs::check(self.s.p.closed_by_sut(), "the client has ended but leaves its connection open");
        match self.h.take().and_then(sim::drive) {
            Some(Ok(r)) => r,
            _ => vs::fail("the client task was aborted"),
        }
    }
    pub fn ends_with(&mut self, k: ErrorKind, what: &str) -> SessionState {
        match self.end() {
            Ok(_) => vs::fail(what),
            Err(e) => {
                vs::check(e.kind() == k, what);
                e.state
            }
        }
    }
}
/// CONNECT taken apart.
pub struct Conn {
    pub flags: u8,
    pub keep: u16,
    pub props: Vec<Prop>,
    pub id: Vec<u8>,
    pub rest: Vec<u8>,
}
pub fn unconnect(f: &Frame) -> Conn {
    let b = &f.body;
    vs::check(f.head == 0x10 && b.len() > 10 && b[..7] == [0, 4, b'M', b'Q', b'T', b'T', 5], "the client sends a malformed CONNECT");
    let (props, used) = match parse_props(&b[10..]) {
        Some(x) => x,
        None => vs::fail("the client sends a malformed CONNECT"),
    };
    let at = 10 + used;
    let (id, rest) = bin(&b[at..]);
    Conn { flags: b[7], keep: u16::from_be_bytes([b[8], b[9]]), props, id, rest }
}
/// Length-prefixed bytes, and what follows.
fn bin(b: &[u8]) -> (Vec<u8>, Vec<u8>) {
    vs::check(b.len() >= 2, "the client sends a malformed CONNECT");
    let n = vs::concrete(u16::from_be_bytes([b[0], b[1]]) as usize);
    vs::check(b.len() >= 2 + n, "the client sends a malformed CONNECT");
    (b[2..2 + n].to_vec(), b[2 + n..].to_vec())
}
fn prop(ps: &[Prop], id: u8) -> Option<&[u8]> {
    let mut r = None;
    for p in ps {
        if p.id == id {
            vs::check(r.is_none(), "the client repeats a property");
            r = Some(&p.val[..]);
        }
    }
    r
}
fn is32(v: Option<&[u8]>, n: u32) -> bool {
    v.is_some_and(|v| v == n.to_be_bytes())
}
fn is16(v: Option<&[u8]>, n: u16) -> bool {
    v.is_some_and(|v| v == n.to_be_bytes())
}
fn text(n: usize) -> String {
    vs::string(n)
}

/// What the application asked for is what the CONNECT says.
pub fn c_connect(who: u64, will: u64) {
    let id = text(2);
    let clean = vs::flip();
    let keep = vs::u32();
    let expiry = vs::u32();
    let rmax = vs::u16();
    let size = vs::u32();
    vs::assume(rmax > 0 && size >= 1024);
    let mut at = at();
    let (user, pass) = (text(1), text(1));
    if who == 1 {
        at = at.with_credentials(&user, &pass);
    }
    let mut b = ClientBuilder::new(at)
        .with_client_id(&id)
        .with_keep_alive(secs(keep as u64))
        .with_session_expiry(secs(expiry as u64))
        .with_receive_max(rmax)
        .with_max_packet_size(size as usize);
    let (wt, wp, wq, wr, wd) = (text(1), vs::bytes(1), vs::choice(3) as u8, vs::bit(), vs::u32());
    if will == 1 {
        b = b.with_will_message(WillMessage::new(wt.clone(), &wp, qos(wq), wr).with_delay(wd));
    }
    if keep < 30 {
        vs::check(matches!(sim::drive(b.build()), Some(Err(_))), "a keep alive below 30 seconds is accepted");
        vs::reach("short keep alive refused");
        return;
    }
    let mut a = begin(b, clean);
    let f = a.s.one(1, "the client does not start with exactly one CONNECT");
    let c = unconnect(&f);
    vs::check(c.id == id.as_bytes(), "CONNECT does not carry the client identifier that was set");
    vs::check(c.keep as u32 == keep.min(65535), "CONNECT does not carry the keep alive that was set");
    let mut want = (clean as u8) << 1;
    want |= if who == 1 { 0xc0 } else { 0 };
    if will == 1 {
        want |= 4 | wq << 3 | (wr as u8) << 5;
    }
    vs::check(c.flags == want, "the CONNECT flags are not those of the clean start, will and credentials that were set");
    let e = prop(&c.props, 0x11);
    vs::check(is32(e, expiry) || expiry == 0 && e.is_none(), "CONNECT does not carry the session expiry that was set");
    let r = prop(&c.props, 0x21);
    vs::check(is16(r, rmax) || rmax == 65535 && r.is_none(), "CONNECT does not announce the receive maximum that was set");
    vs::check(is32(prop(&c.props, 0x27), size), "CONNECT does not announce the maximum packet size that was set");
    for p in &c.props {
        vs::check(p.id == 0x11 || p.id == 0x21 || p.id == 0x27, "CONNECT carries a property that was not asked for");
    }
    let mut rest = c.rest;
    if will == 1 {
        let (ps, n) = match parse_props(&rest) {
            Some(x) => x,
            None => vs::fail("the client sends a malformed will"),
        };
        vs::check(ps.len() == 1 && is32(prop(&ps, 0x18), wd), "CONNECT does not carry the will properties that were set");
        let (t, r) = bin(&rest[n..]);
        let (p, r) = bin(&r);
        vs::check(t == wt.as_bytes() && p == wp, "CONNECT does not carry the will that was set");
        rest = r;
    }
    if who == 1 {
        let (u, r) = bin(&rest);
        let (p, r) = bin(&r);
        vs::check(u == user.as_bytes() && p == pass.as_bytes(), "CONNECT does not carry the credentials that were set");
        rest = r;
    }
    vs::check(rest.is_empty(), "CONNECT carries data that was not asked for");
    vs::check(!a.up(), "the client says that it is connected before the CONNACK");
    vs::reach("connect");
}
pub fn qos(q: u8) -> QoSLevel {
    match q {
        0 => QoSLevel::AtMostOnce,
        1 => QoSLevel::AtLeastOnce,
        _ => QoSLevel::ExactlyOnce,
    }
}
/// Reason codes a CONNACK may carry (MQTT 3.2.2.2).
fn connack_reason(r: u8) -> bool {
    matches!(r, 0 | 0x80..=0x8a | 0x8c | 0x90 | 0x95 | 0x97 | 0x99 | 0x9a | 0x9b | 0x9c | 0x9d | 0x9f)
}

/// CONNACK: accepted or refused, and the values the server chose.
pub fn c_connack(sel: u64) {
    let (ka, se) = (vs::u16(), vs::u32());
    let mut a = begin(conf("me").with_session_expiry(secs(77)), true);
    a.s.one(1, "the client does not start with exactly one CONNECT");
    let mut p = vec![];
    if sel & 1 != 0 {
        p.push(0x13);
        p.extend_from_slice(&w16(ka));
    }
    if sel & 2 != 0 {
        p.push(0x11);
        p.extend_from_slice(&w32(se));
    }
    let reason = vs::u8();
    vs::assume(connack_reason(reason));
    let ping = Packet::PingRequest(Default::default());
    a.put(ping);
    a.s.none("the client sends packets before the CONNACK");
    vs::check(!a.up(), "the client says that it is connected before the CONNACK");
    a.s.send(&connack(0, reason, &p));
    sim::run();
    if reason != 0 {
        vs::check(!a.up(), "the client says that it is connected although it was refused");
        match a.end() {
            Ok(_) => vs::fail("the client was refused but reports success"),
            Err(e) => match e.kind() {
                ErrorKind::Protocol(r) => vs::check(r as u8 == reason, "the client does not report the reason of the refusal"),
                _ => vs::fail("the client does not report the reason of the refusal"),
            },
        }
        a.s.none("the client sends packets although it was refused");
        vs::reach("refused");
        return;
    }
    vs::check(a.up() && !a.done(), "the client is not connected after a successful CONNACK");
    let k = if sel & 1 != 0 { ka as u64 } else { 60 };
    vs::check(sim::drive(a.client.keep_alive()) == Some(secs(k)), "the client does not use the keep alive of the server");
    let e = if sel & 2 != 0 { se as u64 } else { 77 };
    vs::check(sim::drive(a.client.session_expiry()) == Some(secs(e)), "the client does not use the session expiry of the server");
    a.s.one(12, "a packet sent before the CONNACK is lost");
    vs::reach("accepted");
}

/// Something else than a CONNACK comes first, or nothing at all.
pub fn c_first(what: u64, n: u64) {
    let wait = vs::u8() as u64;
    vs::assume(wait > 0);
    let mut a = begin(conf("me").with_max_connect_wait(secs(wait)), true);
    a.s.one(1, "the client does not start with exactly one CONNECT");
    match what {
        // a packet of type `n` that a server may send later
        0 => {
            a.s.send(&match n {
                3 => publish(1, 5, b"t", &[], b"m"),
                4..=7 => packet((n as u8) << 4 | (n == 6) as u8 * 2, &[&[0, 1]]),
                9 | 11 => packet((n as u8) << 4, &[&[0, 1, 0, 0]]),
                _ => packet(0xd0, &[]),
            });
            sim::run();
            match a.end() {
                Ok(_) => vs::fail("the client takes another packet for a CONNACK"),
                Err(e) => vs::check(matches!(e.kind(), ErrorKind::Protocol(_)), "the client does not report the protocol error"),
            }
            vs::check(a.take().is_none(), "a packet that came before the CONNACK is passed on");
        }
        1 => {
            let r = if n == 0 { 0 } else { 0x87 };
            a.s.send(&packet(0xe0, &[&[r, 0]]));
            sim::run();
            match a.end() {
                Ok(_) => vs::fail("the client was disconnected but reports success"),
                Err(e) => match e.kind() {
                    ErrorKind::Protocol(x) => vs::check(x as u8 == r, "the client does not report the reason of the disconnect"),
                    _ => vs::fail("the client does not report the reason of the disconnect"),
                },
            }
        }
        // `n` arbitrary bytes, then the end
        2 => {
            let b = vs::bytes(n as usize);
            a.s.send(&b);
            a.s.p.close();
            sim::run();
            match a.end() {
                Ok(_) => vs::fail("the connection ended during the handshake but the client reports success"),
                Err(_) => {}
            }
        }
        // silence after `n` bytes of the CONNACK
        _ => {
            a.s.send(&connack(0, 0, &[])[..n as usize]);
            sim::elapse(secs(wait) - Duration::from_millis(1));
            vs::check(!a.done() && !a.up(), "the client does not wait for the CONNACK as long as it should");
            sim::elapse(Duration::from_millis(150));
            a.ends_with(ErrorKind::Timeout, "the client does not report that the CONNACK did not come in time");
        }
    }
    a.s.none("the client sends packets without a CONNACK");
    vs::reach("not connected");
}

/// A client without an identifier uses the one the server assigned, also later.
pub fn c_assigned(given: u64) {
    let mut a = begin(conf(""), true);
    let f = a.s.one(1, "the client does not start with exactly one CONNECT");
    vs::check(unconnect(&f).id.is_empty(), "CONNECT does not carry the client identifier that was set");
    let id = vs::ascii(2);
    let p = if given == 1 { cat(&[&[0x12], &wbin(id.as_bytes())]) } else { vec![] };
    a.s.send(&connack(0, 0, &p));
    sim::run();
    if given == 0 {
        match a.end() {
            Ok(_) => vs::fail("the client has no identifier but reports success"),
            Err(e) => vs::check(matches!(e.kind(), ErrorKind::Protocol(_)), "the client does not report the protocol error"),
        }
        vs::reach("none assigned");
        return;
    }
    vs::check(a.up(), "the client is not connected after a successful CONNACK");
    a.s.p.close();
    sim::run();
    let st = a.ends_with(ErrorKind::Transport, "the client does not report the end of the connection");
    let mut a = begin(ClientBuilder::default().with_state(at(), st), false);
    let f = a.s.one(1, "the client does not start with exactly one CONNECT");
    vs::check(unconnect(&f).id == id.as_bytes(), "the client does not use the identifier it was assigned");
    vs::reach("assigned");
}

/// A message of the application on its way to the server.
#[derive(Clone)]
pub struct Msg {
    q: u8,
    id: u16,
    topic: u8,
    payload: u8,
    retain: bool,
    /// an identifier chosen by the application (0: none)
    own: u16,
    /// 0: waits for its turn, 1: sent, 2: PUBREC received
    stage: u8,
}
fn msg(q: u8, own: u16) -> Msg {
    let t = vs::u8();
    vs::assume(t >= b'a' && t < 0x80);
    Msg { q, id: 0, topic: t, payload: vs::u8(), retain: vs::bit(), own, stage: 0 }
}
impl Msg {
    fn packet(&self) -> Packet {
        let topic = unsafe { String::from_utf8_unchecked(vec![self.topic]) };
        let mut p = match Publish::new_with_payload(None, topic, QoSLevel::AtMostOnce, vec![self.payload]) {
            Ok(p) => p,
            Err(_) => vs::fail("a PUBLISH cannot be built"),
        };
        p.set_qos(qos(self.q));
        p.set_retain(self.retain);
        if self.own != 0 {
            let _ = p.set_packet_id(Some(self.own));
        }
        Packet::Publish(p)
    }
}
/// What a correct client does with the messages of its application.
pub struct Model {
    /// sent QoS 1 and 2 messages whose flow is not complete, in order
    pub open: Vec<Msg>,
    /// messages beyond the receive maximum of the server; those with stage 1 were sent on an
    /// earlier connection
    pub wait: Vec<Msg>,
    pub max: usize,
    /// how many more the server can receive
    quota: usize,
}
impl Model {
    pub fn new(max: usize) -> Model {
        Model { open: vec![], wait: vec![], max, quota: max }
    }
    /// Of what is open or waiting, does something use this identifier?
    fn used(&self, id: u16) -> bool {
        self.open.iter().any(|m| m.id == id) || self.wait.iter().any(|m| m.own == id || m.id == id)
    }
    /// The frame must be this message, sent for the first time (`dup`: or again).
    fn is(&mut self, f: &Frame, m: &Msg, dup: bool) -> u16 {
        vs::check(f.kind() == 3, "the client sends something else than the PUBLISH that is due");
        let p = unpub(f);
        vs::check(p.dup == dup, if dup { "a PUBLISH is sent again without the duplicate flag" } else { "a PUBLISH is sent for the first time with the duplicate flag" });
        vs::check(p.qos == m.q && p.retain == m.retain && p.topic == [m.topic] && p.payload == [m.payload] && p.props.is_empty(), "a PUBLISH differs from the message of the application");
        p.id
    }
    fn first(&mut self, f: &Frame, mut m: Msg) {
        let id = self.is(f, &m, false);
        if m.q == 0 {
            return;
        }
        vs::check(id != 0, "a PUBLISH carries packet identifier 0");
        vs::check(!self.used(id), "a PUBLISH carries the packet identifier of an unacknowledged one");
        vs::check(m.own == 0 || id == m.own, "a PUBLISH does not carry the packet identifier of the application");
        m.id = id;
        m.stage = 1;
        self.quota -= 1;
        self.open.push(m);
    }
    fn next(&mut self, f: &Frame) {
        let m = self.wait.remove(0);
        if m.stage == 0 {
            return self.first(f, m);
        }
        let id = self.is(f, &m, true);
        vs::check(id == m.id, "a PUBLISH is sent again with another packet identifier");
        self.quota -= 1;
        self.open.push(m);
    }
    fn closed(&mut self) {
        self.quota = (self.quota + 1).min(self.max);
    }
    pub fn publish(&mut self, a: &mut App, m: Msg) {
        a.put(m.packet());
        sim::run();
        let f = a.s.frames();
        if m.q > 0 && self.quota == 0 {
            vs::check(f.is_empty(), "the client sends more QoS 1 and 2 messages than the receive maximum of the server");
            self.wait.push(m);
            vs::reach("queued");
            return;
        }
        vs::check(f.len() == 1, "a message of the application is not sent exactly once");
        self.first(&f[0], m);
    }
    /// After an acknowledgement: the messages that may now be sent.
    fn follow(&mut self, f: &[Frame]) {
        let mut k = 0;
        while self.quota > 0 && !self.wait.is_empty() {
            vs::check(k < f.len(), "a queued message is not sent when the server can receive it");
            self.next(&f[k]);
            k += 1;
        }
        vs::check(k == f.len(), "the client sends packets that are not due");
    }
    /// The server answers the open message `i` in way `how` (0: success, 1: error, 2: success with
    /// a property section).
    pub fn answer(&mut self, a: &mut App, i: usize, how: u8) {
        let m = self.open[i].clone();
        let t: u8 = match (m.q, m.stage) {
            (1, _) => 4,
            (_, 1) => 5,
            _ => 7,
        };
        let reason = match (how, t) {
            (1, 7) => 0x92,
            (1, _) => 0x97,
            _ => 0,
        };
        let b = match how {
            0 => packet(t << 4, &[&w16(m.id)]),
            1 => packet(t << 4, &[&w16(m.id), &[reason]]),
            _ => packet(t << 4, &[&w16(m.id), &[if t == 7 { 0 } else { 0x10 }, 0]]),
        };
        a.s.send(&b);
        sim::run();
        let f = a.s.frames();
        if t == 5 && reason < 0x80 {
            vs::check(f.len() == 1 && f[0].head == 0x62 && f[0].body.len() >= 2 && f[0].body[..2] == w16(m.id), "a PUBREC is not answered by a PUBREL");
            vs::check(f[0].body.len() == 2 || f[0].body[2] == 0, "a PUBREC is answered by a PUBREL that reports an error");
            self.open[i].stage = 2;
        } else {
            self.open.remove(i);
            self.closed();
            self.follow(&f);
        }
        let got = match a.take() {
            Some(Packet::PubAck(p)) => (4, p.packet_id),
            Some(Packet::PubRec(p)) => (5, p.packet_id),
            Some(Packet::PubComp(p)) => (7, p.packet_id),
            _ => (0, 0),
        };
        vs::check(got == (t, m.id) && a.take().is_none(), "an acknowledgement is not passed on to the application exactly once");
    }
    /// The server answers everything that is open.
    pub fn finish(&mut self, a: &mut App) {
        while !self.open.is_empty() {
            self.answer(a, 0, 0);
        }
        vs::check(self.wait.is_empty(), "a queued message is never sent");
    }
}
impl Model {
    /// A new connection, after the CONNACK.
    pub fn resume(&mut self, a: &mut App, present: bool, max: usize) {
        self.max = max;
        self.quota = max;
        let (mut again, mut released) = (vec![], vec![]);
        for m in std::mem::take(&mut self.open) {
            if m.stage == 2 {
                released.push(m);
            } else {
                again.push(m);
            }
        }
        again.append(&mut self.wait);
        if !present {
            again.retain(|m| m.stage == 0);
            released.clear();
        }
        self.wait = again;
        let (rel, publ): (Vec<Frame>, Vec<Frame>) = a.s.frames().into_iter().partition(|f| f.kind() == 6);
        vs::check(rel.len() == released.len(), "a resumed session does not send exactly the PUBRELs that are not completed");
        for f in &rel {
            let id = u16::from_be_bytes([f.body[0], f.body[1]]);
            match released.iter().position(|m| m.id == id) {
                Some(i) => self.open.push(released.remove(i)),
                None => vs::fail("a resumed session sends a PUBREL that is not due"),
            }
        }
        self.follow(&publ);
    }
    /// One step of a history; false when it is over.
    fn step(&mut self, a: &mut App, left: &mut u64, how: u64) -> bool {
        let k = vs::choice((*left > 0) as u64 + self.open.len() as u64 + 1) as usize;
        if k < self.open.len() {
            let how = vs::choice(how) as u8;
            self.answer(a, k, how);
        } else if k == self.open.len() {
            return false;
        } else {
            *left -= 1;
            let q = 1 + vs::choice(2) as u8;
            self.publish(a, msg(q, 0));
        }
        true
    }
}
fn again(st: SessionState) -> App {
    begin(ClientBuilder::default().with_state(at(), st), false)
}
/// A history of `n` messages cut off anywhere, in way `cut`; then the session is resumed, by a server
/// that still has it (`present`) or not.
pub fn c_resume(n: u64, r: u64, r2: u64, present: u64, cut: u64, steps: u64) {
    let mut a = begin(conf("me"), true);
    let (p, max) = rmax(r);
    a.accept(false, &p);
    let mut m = Model::new(max);
    let mut left = n;
    for _ in 0..steps {
        if !m.step(&mut a, &mut left, 2) {
            break;
        }
    }
    let st = match cut {
        0 => {
            a.s.p.close();
            sim::run();
            match a.end() {
                Ok(_) => vs::fail("the connection ended unexpectedly but the client reports success"),
                Err(e) => e.state,
            }
        }
        1 => {
            match sim::drive(a.client.stop()) {
                Some(Ok(())) => {}
                _ => vs::fail("the client cannot be stopped"),
            }
            sim::run();
            match a.end() {
                Ok(st) => st,
                Err(_) => vs::fail("a client that is stopped reports an error"),
            }
        }
        // the application gives a message a packet identifier that is in use (4: zero)
        // or a topic that is too long for MQTT (5)
        3 | 4 | 5 => {
            let mut x = msg(if cut == 5 { vs::choice(3) } else { 1 + vs::choice(2) } as u8, 0);
            if cut == 3 {
                if m.open.is_empty() {
                    return;
                }
                let k = vs::choice(m.open.len() as u64) as usize;
                x.own = m.open[k].id;
            }
            let mut p = x.packet();
            if let (4, Packet::Publish(p)) = (cut, &mut p) {
                if p.set_packet_id(Some(0)).is_err() {
                    return;
                }
            }
            if let (5, Packet::Publish(p)) = (cut, &mut p) {
                p.topic_name = "t".repeat(65536);
            }
            a.put(p);
            sim::run();
            for f in a.s.frames() {
                vs::check(cut != 5, "something of a message that is too long is sent");
                vs::check(cut == 4 && f.kind() == 3, "a PUBLISH is sent with the packet identifier of an unacknowledged one");
                vs::check(unpub(&f).id != 0, "a PUBLISH carries packet identifier 0");
                return;
            }
            if !a.done() {
                a.s.p.close();
                sim::run();
            }
            match a.end() {
                Ok(_) => vs::fail("the connection ended unexpectedly but the client reports success"),
                Err(e) => e.state,
            }
        }
        // the answer to a PUBREC cannot be written
        _ => {
            let k = m.open.iter().position(|m| m.q == 2 && m.stage == 1);
            let k = match k {
                Some(k) => k,
                None => return,
            };
            a.s.p.fail_writes(std::io::ErrorKind::BrokenPipe);
            a.s.send(&packet(0x50, &[&w16(m.open[k].id)]));
            m.open[k].stage = 2;
            sim::run();
            match a.end() {
                Ok(_) => vs::fail("the connection ended unexpectedly but the client reports success"),
                Err(e) => e.state,
            }
        }
    };
    let mut a = again(st);
    let (p, max) = rmax(r2);
    let f = a.accept(present == 1, &p);
    let c = unconnect(&f);
    vs::check(c.flags & 2 == 0 && c.id == b"me", "a resumed session connects as another client or with a clean start");
    m.resume(&mut a, present == 1, max);
    // and goes on
    m.publish(&mut a, msg(1, 0));
    m.finish(&mut a);
    a.s.none("the client sends packets that are not due");
    vs::check(!a.done() && a.up(), "the client ends although the server follows the protocol");
    vs::reach("resumed");
}

/// A message of the server on its way when the connection ends: `cut` 0: answered, 1: the answer
/// cannot be written, 2: answered, but the application has not taken it.  The server sends it again
/// (`present`) or has forgotten it.
pub fn c_rresume(q: u64, cut: u64, present: u64) {
    let mut b = conf("me");
    if cut == 2 {
        b = b.with_channel_size(1);
    }
    let mut a = begin(b, true);
    a.accept(false, &[]);
    let id = vs::u16();
    vs::assume(id != 0);
    let mut bytes = publish(q as u8, id, b"t", &[], b"1");
    let mut got = 0;
    if cut == 2 {
        a.s.send(&publish(0, 0, b"t", &[], b"0"));
        sim::run();
    }
    if cut == 1 {
        a.s.p.fail_writes(std::io::ErrorKind::BrokenPipe);
    }
    a.s.send(&bytes);
    sim::run();
    if cut == 1 {
        got += a.take().is_some() as usize;
    } else {
        a.s.one(3 + q as u8, "a packet of the server is not acknowledged");
        if cut == 0 {
            got += a.take().is_some() as usize;
        } else {
            a.s.p.fail_writes(std::io::ErrorKind::BrokenPipe);
            a.put(Packet::PingRequest(Default::default()));
        }
    }
    a.s.p.close();
    sim::run();
    let st = match a.end() {
        Ok(_) => vs::fail("the connection ended unexpectedly but the client reports success"),
        Err(e) => e.state,
    };
    if cut == 2 {
        vs::check(a.take().is_some(), "a message is not passed on to the application");
        got += a.take().is_some() as usize;
    }
    let mut a = again(st);
    a.accept(present == 1, &[]);
    a.s.none("the client sends packets that are not due");
    got += a.take().is_some() as usize;
    if present == 1 {
        // not acknowledged as far as the server knows; a QoS 1 message may come twice
        if q == 2 || got == 0 {
            bytes[0] |= 8;
            a.s.send(&bytes);
            a.s.one(3 + q as u8, "a packet of the server is not acknowledged");
            got += a.take().is_some() as usize;
        }
        vs::check(got == 1, "a message is not passed on to the application exactly once");
    } else if cut != 1 {
        vs::check(got == 1, "a message is not passed on to the application exactly once");
    }
    if q == 2 && present == 1 {
        a.s.send(&packet(0x62, &[&w16(id)]));
        a.s.one(7, "a PUBREL is not answered by a PUBCOMP");
        vs::check(a.take().is_some() && a.take().is_none(), "a PUBREL is not passed on to the application");
    }
    // the identifier is free for another message
    a.s.send(&publish(q as u8, id, b"t", &[], b"2"));
    a.s.one(3 + q as u8, "a packet of the server is not acknowledged");
    match a.take() {
        Some(Packet::Publish(p)) => vs::check(p.payload.as_ref().is_some_and(|b| b[..] == *b"2"), "another message is passed on than the one that was sent"),
        _ => vs::fail("a new message is taken for one that was received before"),
    }
    vs::check(!a.done() && a.up(), "the client ends although the server follows the protocol");
    vs::reach("resumed");
}

fn rmax(r: u64) -> (Vec<u8>, usize) {
    if r == 0 { (vec![], 65535) } else { (cat(&[&[0x21], &w16(r as u16)]), r as usize) }
}

/// `n` messages, the server answering in any order in between; receive maximum `r` (0: none given).
/// `how` of the answers may be an error.
pub fn c_send(n: u64, r: u64, own: u64, steps: u64) {
    let mut a = begin(conf("me"), true);
    let (p, max) = rmax(r);
    a.accept(false, &p);
    let mut m = Model::new(max);
    let mut left = n;
    for _ in 0..steps {
        let k = vs::choice(if left > 0 { 1 } else { 0 } + m.open.len() as u64 + 1) as usize;
        if k < m.open.len() {
            let how = vs::choice(3) as u8;
            m.answer(&mut a, k, how);
        } else if k == m.open.len() {
            break;
        } else {
            left -= 1;
            let q = vs::choice(3) as u8;
            let mut o = 0;
            if own == 1 && q > 0 && vs::flip() {
                o = vs::u16();
                vs::assume(o != 0 && !m.used(o));
            }
            m.publish(&mut a, msg(q, o));
        }
    }
    // other packets are not held back
    a.put(Packet::PingRequest(Default::default()));
    a.s.one(12, "the client does not send a packet of the application");
    m.finish(&mut a);
    vs::check(!a.done() && a.up(), "the client ends although the server follows the protocol");
    vs::reach("finished");
}

/// What the server sends, and what a correct client does with it.
struct In {
    /// 3: PUBLISH, 6: PUBREL
    kind: u8,
    q: u8,
    id: u16,
    topic: u8,
    payload: u8,
    retain: bool,
    dup: bool,
    /// the answer: packet type (0: none) and whether it reports an error
    answer: u8,
    error: bool,
    /// passed on to the application
    new: bool,
}
impl In {
    fn bytes(&self) -> Vec<u8> {
        if self.kind == 6 {
            return packet(0x62, &[&w16(self.id)]);
        }
        let mut b = publish(self.q, self.id, &[self.topic], &[], &[self.payload]);
        b[0] |= (self.dup as u8) << 3 | self.retain as u8;
        b
    }
    fn answered(&self, f: &Frame) {
        vs::check(f.head == self.answer << 4 && f.body.len() >= 2 && f.body[..2] == w16(self.id), "a packet of the server is not answered by the acknowledgement that is due");
        vs::check((f.body.len() > 2 && f.body[2] >= 0x80) == self.error, "an acknowledgement carries the wrong reason");
    }
    fn passed(&self, p: &Packet) {
        match p {
            Packet::Publish(p) if self.kind == 3 => {
                vs::check(p.qos() == qos(self.q) && p.retain() == self.retain && p.topic_name.as_bytes() == [self.topic], "a message is passed on with other properties than it was sent with");
                vs::check(p.payload.as_ref().is_some_and(|b| b[..] == [self.payload]), "a message is passed on with another payload than it was sent with");
                vs::check(p.packet_id() == if self.q > 0 { Some(self.id) } else { None } && p.dup() == self.dup, "a message is passed on with another header than it was sent with");
            }
            Packet::PubRel(p) if self.kind == 6 => vs::check(p.packet_id == self.id, "a PUBREL is passed on with another packet identifier"),
            _ => vs::fail("packets are passed on to the application in another order than they came"),
        }
    }
}
/// `n` packets of the server, a consumer whose channel has `cap` places and that takes packets
/// whenever it likes.  `filt`: PUBLISH (1) or PUBREL (2) have a consumer of their own.
pub fn c_recv(n: u64, cap: u64, filt: u64, rmax: u64) {
    use vaux_mqtt::PacketType;
    let (ftx, mut frx) = tokio::sync::mpsc::channel(cap as usize);
    let mut b = conf("me").with_channel_size(cap as u16);
    if filt > 0 {
        b = b.with_filtered_consumer(if filt == 1 { PacketType::Publish } else { PacketType::PubRel }, ftx);
    }
    if rmax > 0 {
        b = b.with_receive_max(rmax as u16);
    }
    let mut a = begin(b, true);
    a.accept(false, &[]);
    let mut sent: Vec<In> = vec![];
    let mut open: Vec<u16> = vec![]; // QoS 2 messages received and not released
    let (mut acks, mut got) = (vec![], 0usize);
    // packets passed on, those in order of their own channel
    let mut next = [0usize; 2];
    let side = |i: &In| (filt > 0 && (i.kind == 3) == (filt == 1)) as usize;
    let mut take = |a: &mut App, sent: &[In], which: usize| -> bool {
        let p = if which == 0 { a.take() } else { frx.try_recv().ok() };
        match p {
            None => false,
            Some(p) => {
                let k = &mut next[which];
                while *k < sent.len() && !(sent[*k].new && side(&sent[*k]) == which) {
                    *k += 1;
                }
                vs::check(*k < sent.len(), "a message is passed on to the application more than once, or one that was not sent");
                sent[*k].passed(&p);
                *k += 1;
                true
            }
        }
    };
    let mut steps = 2 * n;
    while steps > 0 {
        steps -= 1;
        let more = sent.len() < n as usize;
        let m = vs::choice(if more { 6 } else { 2 });
        match m {
            0 => break,
            1 => {
                let w = if filt > 0 { vs::choice(2) as usize } else { 0 };
                if !take(&mut a, &sent, w) {
                    break;
                }
                got += 1;
            }
            _ => {
                let mut i = In { kind: 3, q: 0, id: 0, topic: vs::u8(), payload: vs::u8(), retain: vs::bit(), dup: false, answer: 0, error: false, new: true };
                vs::assume(i.topic >= b'a' && i.topic < 0x80);
                match m {
                    2 => {}
                    // a new message
                    3 | 4 => {
                        if m == 4 && rmax > 0 && open.len() >= rmax as usize {
                            break;
                        }
                        i.q = m as u8 - 2;
                        i.id = vs::u16();
                        vs::assume(i.id != 0 && !open.contains(&i.id));
                        i.answer = if i.q == 1 { 4 } else { 5 };
                        if i.q == 2 {
                            open.push(i.id);
                        }
                        if rmax > 0 && i.q == 1 && open.len() >= rmax as usize {
                            break;
                        }
                    }
                    // a message again, or a release
                    _ => {
                        if open.is_empty() {
                            i.kind = 6;
                            i.id = 0x1234;
                            i.answer = 7;
                            i.error = true;
                        } else {
                            let k = vs::choice(open.len() as u64) as usize;
                            i.id = open[k];
                            if vs::flip() {
                                i.q = 2;
                                i.dup = true;
                                i.answer = 5;
                                i.new = false;
                            } else {
                                i.kind = 6;
                                i.answer = 7;
                                open.remove(k);
                            }
                        }
                    }
                }
                a.s.send(&i.bytes());
                sent.push(i);
            }
        }
        sim::run();
        acks.extend(a.s.frames());
        // the client does not read on while a packet waits for its consumer
        let due: Vec<&In> = sent.iter().filter(|i| i.answer > 0).collect();
        vs::check(acks.len() <= due.len(), "the client sends acknowledgements that are not due");
        if filt == 0 {
            let (mut room, mut most) = (got + cap as usize + 1, 0);
            for i in &sent {
                if room == 0 {
                    break;
                }
                room -= i.new as usize;
                most += (i.answer > 0) as usize;
            }
            vs::check(acks.len() == most, "the client acknowledges packets that the application has no room for, or not those it has");
        }
    }
    // packets of the application are not held back
    a.put(Packet::PingRequest(Default::default()));
    sim::run();
    let f = a.s.frames();
    vs::check(f.iter().filter(|f| f.kind() == 12).count() == 1, "the client does not send a packet of the application");
    acks.extend(f.into_iter().filter(|f| f.kind() != 12));
    while take(&mut a, &sent, 0) || filt > 0 && take(&mut a, &sent, 1) {
        sim::run();
    }
    for k in 0..2 {
        for i in &sent[next[k]..] {
            vs::check(!i.new || side(i) != k, "a message is not passed on to the application");
        }
    }
    acks.extend(a.s.frames());
    let due: Vec<&In> = sent.iter().filter(|i| i.answer > 0).collect();
    vs::check(acks.len() == due.len(), "a packet of the server is not acknowledged");
    for (f, i) in acks.iter().zip(due) {
        i.answered(f);
    }
    vs::check(!a.done() && a.up(), "the client ends although the server follows the protocol");
    vs::reach("taken");
}

/// More QoS 2 messages than the receive maximum the client announced.
pub fn c_over(rmax: u64) {
    let mut a = begin(conf("me").with_receive_max(rmax as u16), true);
    a.accept(false, &[]);
    for k in 0..rmax {
        a.s.send(&publish(2, 1 + k as u16, b"t", &[], b"m"));
        a.s.one(5, "a QoS 2 PUBLISH is not answered by a PUBREC");
        vs::check(a.take().is_some(), "a message is not passed on to the application");
    }
    let q = 1 + vs::choice(2) as u8;
    let id = vs::u16();
    vs::assume(id > rmax as u16);
    a.s.send(&publish(q, id, b"t", &[], b"m"));
    sim::run();
    vs::check(a.take().is_none(), "a message beyond the receive maximum is passed on");
    match a.end() {
        Ok(_) => vs::fail("the server exceeds the receive maximum but the client reports success"),
        Err(e) => vs::check(matches!(e.kind(), ErrorKind::Protocol(_)), "the client does not report the protocol error"),
    }
    vs::reach("exceeded");
}

/// Keep alive: `n` packets of the application at any times, keep alive `by` the client (0), by the
/// server (1), turned off by the server (2) or by the application (3).
pub fn c_keep(n: u64, by: u64) {
    let k = vs::u16();
    vs::assume(by == 2 || k > 0);
    let mut b = conf("me");
    if by == 0 {
        vs::assume(k >= 30);
        b = b.with_keep_alive(secs(k as u64));
    }
    if by == 3 {
        b = b.with_keep_alive_enabled(false);
    }
    let mut a = begin(b, true);
    let p = match by {
        1 => cat(&[&[0x13], &w16(k)]),
        2 => cat(&[&[0x13], &[0, 0]]),
        _ => vec![],
    };
    let mut last = sim::now();
    a.accept(false, &p);
    let k = secs(k as u64);
    let off = by >= 2;
    for i in 0..=n {
        // any time until the next packet of the application; a little more than one interval at the end
        let gap = if i < n { secs(vs::u16() as u64) } else if off { secs(1_000_000) } else { k + secs(1) };
        vs::assume(i == n || gap <= 2 * k + secs(2));
        let end = sim::now() + gap;
        loop {
            let t = match sim::next_timer() {
                Some(t) if vs::concrete((t < end) as usize) == 1 => t,
                _ => end,
            };
            sim::elapse(t.saturating_sub(sim::now()));
            let f = a.s.frames();
            vs::check(f.len() < 2, "the client sends several packets when one is due");
            let idle = t - last;
            if f.len() == 1 {
                vs::check(f[0].head == 0xc0 && f[0].body.is_empty(), "the client sends something else than a PINGREQ");
                vs::check(!off, "the client sends a PINGREQ although the keep alive is off");
                vs::check(idle + secs(1) >= k, "the client sends a PINGREQ before it is due");
                vs::check(idle <= k, "the client stays silent for longer than the keep alive");
                last = t;
                a.s.send(&[0xd0, 0]);
                sim::run();
                vs::check(a.take().is_none(), "a PINGRESP is passed on to the application");
                vs::reach("ping");
            } else {
                vs::check(off || idle <= k, "the client stays silent for longer than the keep alive");
            }
            if t >= end {
                break;
            }
        }
        if i < n {
            // sending counts, receiving does not
            if vs::flip() {
                a.put(msg(0, 0).packet());
                a.s.one(3, "a message of the application is not sent exactly once");
                last = sim::now();
            } else {
                a.s.send(&publish(0, 0, b"t", &[], b"m"));
                sim::run();
                vs::check(a.take().is_some(), "a message is not passed on to the application");
            }
        }
    }
    vs::check(!a.done() && a.up(), "the client ends although the server follows the protocol");
    vs::reach("kept");
}

/// The consumer does not take its packets: the client still keeps the connection alive.
pub fn c_stall() {
    let mut a = begin(conf("me").with_channel_size(1), true);
    a.accept(false, &[]);
    for _ in 0..4 {
        a.s.send(&publish(0, 0, b"t", &[], b"m"));
        sim::run();
    }
    for _ in 0..3 {
        sim::elapse(secs(59));
        a.s.none("the client sends a PINGREQ before it is due");
        sim::elapse(secs(1));
        a.s.one(12, "the client stays silent for longer than the keep alive");
        a.s.send(&[0xd0, 0]);
        sim::run();
    }
    for _ in 0..4 {
        vs::check(a.take().is_some(), "a message is not passed on to the application");
        sim::run();
    }
    vs::check(a.take().is_none(), "a message is passed on to the application more than once, or one that was not sent");
    vs::reach("kept");
}

/// The connection ends: `how`, with `q` packets of the application queued before it.
/// Before, `back` messages that the application has not taken, although its channel holds one only.
/// With `filt` they have a consumer of their own.
pub fn c_end(how: u64, q: u64, back: u64, filt: u64) {
    let mut b = conf("me");
    if back > 0 {
        b = b.with_channel_size(1);
    }
    let (ftx, frx) = tokio::sync::mpsc::channel(1);
    let mut frx = Some(frx);
    if filt > 0 {
        b = b.with_filtered_consumer(vaux_mqtt::PacketType::Publish, ftx);
    }
    let (etx, mut erx) = tokio::sync::mpsc::channel(4);
    b = b.with_error_handler(etx);
    let mut a = begin(b, true);
    a.accept(false, &[]);
    let mut acks = vec![];
    for i in 0..back {
        let q = vs::choice(3) as u8;
        a.s.send(&publish(q, 1 + i as u16, b"t", &[], b"m"));
        sim::run();
        if q > 0 {
            acks.push([0u8, 0x40, 0x50][q as usize]);
        }
    }
    let f = a.s.frames();
    vs::check(f.len() == acks.len() && f.iter().zip(&acks).all(|(f, h)| f.head == *h), "messages of the server are not acknowledged");
    if how >= 6 {
        a.s.p.conn().max_write = 3;
    }
    let mut sent = vec![];
    for _ in 0..q {
        let m = msg(vs::choice(3) as u8, 0);
        a.put(m.packet());
        sent.push(m);
    }
    // a client whose application does not take its messages reads no further
    let mut room = |a: &mut App| {
        sim::run();
        for _ in 0..back {
            let p = if filt > 0 { frx.as_mut().and_then(|r| r.try_recv().ok()) } else { a.take() };
            vs::check(p.is_some(), "a message is not passed on to the application");
            sim::run();
        }
    };
    match how {
        0 => {
            room(&mut a);
            a.s.p.close();
        }
        1 => {
            room(&mut a);
            a.s.p.fail_reads(std::io::ErrorKind::ConnectionReset);
        }
        2 => {
            a.s.p.fail_writes(std::io::ErrorKind::BrokenPipe);
            // the client may have noticed already
            let _ = sim::drive(a.tx.send(Packet::PingRequest(Default::default())));
        }
        3 => {
            room(&mut a);
            let r = vs::choice(4) as usize;
            let r = [0x00u8, 0x04, 0x8b, 0x8e][r];
            a.s.send(&packet(0xe0, &[&[r, 0]]));
            sim::run();
            match a.end() {
                Ok(_) => vs::fail("the client was disconnected but reports success"),
                Err(e) => match e.kind() {
                    ErrorKind::Protocol(x) => vs::check(x as u8 == r, "the client does not report the reason of the disconnect"),
                    _ => vs::fail("the client does not report the reason of the disconnect"),
                },
            }
            match erx.try_recv() {
                Ok(e) => match e.kind() {
                    ErrorKind::Protocol(x) => vs::check(x as u8 == r, "the error handler is given another error"),
                    _ => vs::fail("the error handler is given another error"),
                },
                _ => vs::fail("the error handler is not told why the client ended"),
            }
            vs::reach("ended");
            return;
        }
        4 => {
            // the application drops its consumer
            sim::run();
            if filt > 0 {
                frx = None;
            } else {
                let (_t, rx) = tokio::sync::mpsc::channel(1);
                a.rx = rx;
            }
            if back < 2 {
                a.s.send(&publish(1, 1, b"t", &[], b"m"));
            }
        }
        _ => {
            // the application stops the client
            if how == 5 || how == 7 {
                match sim::drive(a.client.stop()) {
                    Some(Ok(())) => {}
                    _ => vs::fail("the client cannot be stopped"),
                }
            } else {
                a.put(Packet::Disconnect(Default::default()));
            }
            sim::run();
            let f = a.s.frames();
            vs::check(f.len() == q as usize + 1, "a client that is stopped does not send what the application sent before, then DISCONNECT");
            let mut m = Model::new(65535);
            for (f, x) in f.iter().zip(sent) {
                m.first(f, x);
            }
            let d = &f[q as usize];
            vs::check(d.head == 0xe0 && (d.body.is_empty() || d.body[0] == 0), "a client that is stopped does not send DISCONNECT last");
            match a.end() {
                Ok(_) => {}
                Err(_) => vs::fail("a client that is stopped reports an error"),
            }
            vs::check(erx.try_recv().is_err(), "the error handler is told of an error although the client was stopped");
            vs::reach("stopped");
            return;
        }
    }
    sim::run();
    let e = match a.end() {
        Ok(_) => vs::fail("the connection ended unexpectedly but the client reports success"),
        Err(e) => e,
    };
    match erx.try_recv() {
        Ok(x) => vs::check(x.kind() == e.kind(), "the error handler is given another error"),
        _ => vs::fail("the error handler is not told why the client ended"),
    }
    vs::check(erx.try_recv().is_err(), "the error handler is told of more than one error");
    vs::reach("ended");
}

/// An arbitrary packet of the server (type `t` with `n` bytes, or with 16 `n` arbitrary bytes) in
/// the middle of everything; then the end of the connection.  Only its own acknowledgement ends the
/// flow of a message, which a resumed session shows.
pub fn c_hostile(t: u64, n: u64, cut: u64) {
    let mut a = begin(conf("me"), true);
    a.accept(false, &[]);
    let mut m = Model::new(65535);
    for q in [1, 2, 2] {
        m.publish(&mut a, msg(q, 0));
    }
    m.answer(&mut a, 2, 0);
    a.s.send(&publish(2, 7, b"t", &[], b"m"));
    a.s.one(5, "a packet of the server is not acknowledged");
    vs::check(a.take().is_some(), "a message is not passed on to the application");
    let b = if t < 16 {
        let body = vs::bytes(n as usize);
        let head = (t as u8) << 4 | vs::choice(if t == 3 { 16 } else { 3 }) as u8;
        let b = packet(head, &[&body]);
        b[..b.len() - cut as usize].to_vec()
    } else {
        vs::bytes(n as usize)
    };
    a.s.send(&b);
    sim::run();
    for f in a.s.frames() {
        vs::check(matches!(f.kind(), 4..=7 | 14), "the client sends something else than acknowledgements");
    }
    let passed = a.take();
    vs::check(a.take().is_none() || t == 16, "a packet is passed on to the application more than once");
    while a.take().is_some() {}
    a.s.p.close();
    sim::run();
    let st = match a.end() {
        Ok(_) => vs::fail("the connection ended unexpectedly but the client reports success"),
        Err(e) => e.state,
    };
    // a PINGRESP, or nothing at all
    if t == 16 {
        vs::reach("ended");
        return;
    }
    let id = if n >= 2 { vs::concrete(u16::from_be_bytes([b[2], b[3]]).min(8) as usize) as u16 } else { 0 };
    let what = if cut == 0 { t } else { 0 };
    let mut a = again(st);
    a.accept(true, &[]);
    let f = a.s.frames();
    let has = |k: u8, i: u16| f.iter().any(|f| f.kind() == k && if k == 6 { f.body[..2] == w16(i) } else { unpub(f).id == i });
    let (i1, i2, i3) = (m.open[0].id, m.open[1].id, m.open[2].id);
    vs::check(has(3, i1) || what == 4 && id == i1, "a QoS 1 message is lost without an acknowledgement");
    vs::check(has(3, i2) || what == 5 && id == i2, "a QoS 2 message is lost without an acknowledgement");
    vs::check(has(6, i3) || what == 7 && id == i3, "the release of a QoS 2 message is lost without an acknowledgement");
    vs::check(!has(6, i2) || what == 5 && id == i2, "a QoS 2 message is released without an acknowledgement");
    vs::check(f.iter().all(|f| matches!(f.kind(), 3 | 6)), "a resumed session sends something else than the packets that are due");
    // the message that was received comes again
    let mut d = publish(2, 7, b"t", &[], b"m");
    d[0] |= 8;
    a.s.send(&d);
    a.s.one(5, "a packet of the server is not acknowledged");
    let new = a.take().is_some();
    // unless the server has used its identifier for another one
    let reused = matches!(&passed, Some(Packet::Publish(p)) if p.packet_id() == Some(7));
    vs::check(!new || reused || what == 6 && id == 7, "a QoS 2 message is passed on twice");
    if passed.is_some() {
        vs::reach("passed on");
    }
    vs::reach("ended");
}

/// The application acknowledges the packets itself (`auto` 0), or tries to although the client does
/// (1).  `n` messages of the server, receive maximum `rmax`; the application is slow.
pub fn c_manual(n: u64, rmax: u64, auto: u64) {
    use vaux_mqtt::pubresp::PubResp;
    let mut b = conf("me").with_auto_ack(auto == 1);
    if rmax > 0 {
        b = b.with_receive_max(rmax as u16);
    }
    let mut a = begin(b, true);
    a.accept(false, &[]);
    let max = if rmax == 0 { 65535 } else { rmax as usize };
    // messages whose flow is open: QoS, identifier, 1: received, 2: PUBREC sent, 3: PUBREL received
    let mut open: Vec<(u8, u16, u8)> = vec![];
    let mut left = n;
    for _ in 0..3 * n {
        let k = vs::choice((left > 0) as u64 + open.len() as u64 + 1) as usize;
        if k == open.len() {
            break;
        }
        if k > open.len() {
            left -= 1;
            let q = 1 + vs::choice(2) as u8;
            let id = vs::u16();
            vs::assume(id != 0 && open.iter().all(|o| o.1 != id));
            let pl = vs::u8();
            a.s.send(&publish(q, id, b"t", &[], &[pl]));
            sim::run();
            let f = a.s.frames();
            if auto == 1 {
                vs::check(f.len() == 1 && f[0].kind() == 3 + q, "a packet of the server is not acknowledged");
            } else {
                vs::check(f.is_empty(), "the client acknowledges a message although the application does");
            }
            if auto == 0 && open.len() >= max {
                match a.end() {
                    Ok(_) => vs::fail("the server exceeds the receive maximum but the client reports success"),
                    Err(e) => vs::check(matches!(e.kind(), ErrorKind::Protocol(_)), "the client does not report the protocol error"),
                }
                vs::check(a.take().is_none(), "a message beyond the receive maximum is passed on");
                vs::reach("exceeded");
                return;
            }
            match a.take() {
                Some(Packet::Publish(p)) => vs::check(
                    p.packet_id() == Some(id) && p.qos() == qos(q) && p.payload.as_ref().is_some_and(|b| b[..] == [pl]),
                    "a message is passed on with another content than it was sent with",
                ),
                _ => vs::fail("a message is not passed on to the application"),
            }
            if auto == 1 {
                // the answer of the application is not sent
                a.put(match vs::choice(4) {
                    0 => Packet::PubAck(PubResp::new_puback_with_packet_id(id)),
                    1 => Packet::PubRec(PubResp::new_pubrec_with_packet_id(id)),
                    2 => Packet::PubRel(PubResp::new_pubrel_with_packet_id(id)),
                    _ => Packet::PubComp(PubResp::new_pubcomp_with_packet_id(id)),
                });
                a.s.none("the client sends acknowledgements of the application although it sends them itself");
                if q == 2 {
                    a.s.send(&packet(0x62, &[&w16(id)]));
                    a.s.one(7, "a PUBREL is not answered by a PUBCOMP");
                    vs::check(matches!(a.take(), Some(Packet::PubRel(p)) if p.packet_id == id), "a PUBREL is not passed on to the application");
                }
                continue;
            }
            open.push((q, id, 1));
            continue;
        }
        let (q, id, stage) = open[k];
        let (t, p, bad) = match (q, stage) {
            (1, _) => (4, Packet::PubAck(PubResp::new_puback_with_packet_id(id)), false),
            (_, 1) => {
                let mut p = PubResp::new_pubrec_with_packet_id(id);
                let bad = vs::flip();
                if bad {
                    let _ = p.set_reason(vaux_mqtt::Reason::ImplementationErr);
                }
                (5, Packet::PubRec(p), bad)
            }
            (_, 2) => {
                a.s.send(&packet(0x62, &[&w16(id)]));
                a.s.none("the client answers a PUBREL although the application does");
                vs::check(matches!(a.take(), Some(Packet::PubRel(p)) if p.packet_id == id), "a PUBREL is not passed on to the application");
                open[k].2 = 3;
                continue;
            }
            _ => (7, Packet::PubComp(PubResp::new_pubcomp_with_packet_id(id)), false),
        };
        a.put(p);
        let f = a.s.one(t, "an acknowledgement of the application is not sent");
        vs::check(f.head == t << 4 && f.body[..2] == w16(id), "another acknowledgement is sent than the one of the application");
        vs::check((f.body.len() > 2 && f.body[2] >= 0x80) == bad, "an acknowledgement is sent with another reason");
        if t == 5 && !bad {
            open[k].2 = 2;
        } else {
            open.remove(k);
        }
    }
    a.s.none("the client sends packets that are not due");
    vs::check(a.take().is_none() && !a.done() && a.up(), "the client ends although the server follows the protocol");
    vs::reach("finished");
}

/// The application of the sender drives the QoS 2 flow itself: `n` messages, receive maximum `r`.
pub fn c_mansend(n: u64, r: u64) {
    use vaux_mqtt::pubresp::PubResp;
    let mut a = begin(conf("me").with_auto_ack(false), true);
    let (p, max) = rmax(r);
    a.accept(false, &p);
    let mut m = Model::new(max);
    let mut left = n;
    for _ in 0..4 * n {
        let k = vs::choice((left > 0) as u64 + m.open.len() as u64 + 1) as usize;
        if k == m.open.len() {
            break;
        }
        if k > m.open.len() {
            left -= 1;
            m.publish(&mut a, msg(1 + vs::choice(2) as u8, 0));
            continue;
        }
        let (q, id) = (m.open[k].q, m.open[k].id);
        if q == 1 || m.open[k].stage == 3 {
            m.answer(&mut a, k, 0);
        } else if m.open[k].stage == 1 {
            let bad = vs::flip();
            a.s.send(&packet(0x50, &[&w16(id), &[if bad { 0x97 } else { 0 }]]));
            sim::run();
            let f = a.s.frames();
            vs::check(matches!(a.take(), Some(Packet::PubRec(p)) if p.packet_id == id) && a.take().is_none(), "an acknowledgement is not passed on to the application exactly once");
            if bad {
                m.open.remove(k);
                m.closed();
                m.follow(&f);
            } else {
                vs::check(f.is_empty(), "the client answers a PUBREC although the application does");
                m.open[k].stage = 2;
            }
        } else {
            a.put(Packet::PubRel(PubResp::new_pubrel_with_packet_id(id)));
            let f = a.s.one(6, "an acknowledgement of the application is not sent");
            vs::check(f.head == 0x62 && f.body[..2] == w16(id), "another acknowledgement is sent than the one of the application");
            m.open[k].stage = 3;
        }
    }
    a.s.none("the client sends packets that are not due");
    vs::check(a.take().is_none() && !a.done() && a.up(), "the client ends although the server follows the protocol");
    vs::reach("finished");
}

/// More than 65535 messages, `held` of them unanswered.
pub fn c_wrap(held: u64) {
    let mut a = begin(conf("me"), true);
    a.accept(false, &[]);
    let mut keep = vec![];
    for n in 0..0x10002u32 {
        let mut p = match Publish::new_with_payload(None, "t".to_string(), QoSLevel::AtMostOnce, vec![]) {
            Ok(p) => p,
            Err(_) => vs::fail("a PUBLISH cannot be built"),
        };
        p.set_qos(QoSLevel::AtLeastOnce);
        a.put(Packet::Publish(p));
        let f = a.s.one(3, "a message of the application is not sent exactly once");
        let id = unpub(&f).id;
        vs::check(id != 0, "a PUBLISH carries packet identifier 0");
        vs::check(!keep.contains(&id), "a PUBLISH carries the packet identifier of an unacknowledged one");
        if (n as u64) < held {
            keep.push(id);
            continue;
        }
        a.s.send(&packet(0x40, &[&w16(id)]));
        sim::run();
        vs::check(a.take().is_some(), "an acknowledgement is not passed on to the application");
    }
    vs::check(!a.done() && a.up(), "the client ends although the server follows the protocol");
    vs::reach("wrapped");
}

/// `n` requests of the application - SUBSCRIBE, UNSUBSCRIBE and PINGREQ, by packet or by the helper
/// functions - and their answers in any order.  `pong`: PINGRESP is asked for.
pub fn c_calls(n: u64, pong: u64) {
    use vaux_mqtt::{subscribe::SubscriptionFilter, unsubscribe::Unsubscribe, Subscribe};
    let mut a = begin(conf("me").with_pingresp(pong == 1), true);
    // not even one QoS 1 message may be on its way, requests do not count
    a.accept(false, &[0x21, 0, 1]);
    let mut open: Vec<(u8, u16, u8)> = vec![];
    let mut left = n;
    for _ in 0..2 * n {
        let k = vs::choice((left > 0) as u64 + open.len() as u64 + 1) as usize;
        if k == open.len() {
            break;
        }
        if k > open.len() {
            left -= 1;
            let id = vs::u16();
            vs::assume(id != 0);
            let (t1, t2) = (vs::ascii(2), vs::ascii(1));
            let (s1, s2) = (t1.clone(), t2.clone());
            let what = vs::choice(5);
            let q = if what < 2 { vs::choice(3) as u8 } else { 0 };
            let want = match what {
                0 => {
                    vs::check(matches!(sim::drive(a.client.subscribe(id, &[&s1, &s2], qos(q))), Some(Ok(()))), "the client does not take a request");
                    packet(0x82, &[&w16(id), &[0], &wstr(&t1), &[q], &wstr(&t2), &[q]])
                }
                1 => {
                    let mut f = SubscriptionFilter::new(s1, qos(q));
                    let (nl, rap) = (vs::bit(), vs::bit());
                    f.set_no_local(nl);
                    f.set_retain_as_published(rap);
                    let mut s = Subscribe::new_with_filter(id, vec![f]);
                    let sid = vs::u8() as u32 & 127;
                    vs::assume(sid > 0);
                    vs::check(s.set_subscription_id(sid).is_ok(), "a SUBSCRIBE cannot be built");
                    a.put(Packet::Subscribe(s));
                    packet(0x82, &[&w16(id), &[2, 0x0b, sid as u8], &wstr(&t1), &[q | (nl as u8) << 2 | (rap as u8) << 3]])
                }
                2 => {
                    a.put(Packet::Unsubscribe(Unsubscribe::new(id, vec![s1, s2])));
                    packet(0xa2, &[&w16(id), &[0], &wstr(&t1), &wstr(&t2)])
                }
                3 => {
                    vs::check(matches!(sim::drive(a.client.ping()), Some(Ok(()))), "the client does not take a request");
                    vec![0xc0, 0]
                }
                _ => {
                    a.put(Packet::PingRequest(Default::default()));
                    vec![0xc0, 0]
                }
            };
            let f = a.s.one(want[0] >> 4, "a request of the application is not sent exactly once");
            vs::check(cat(&[&want[..1], &vbi(want.len() as u32 - 2), &f.body]) == want && f.head == want[0], "another request is sent than the one of the application");
            open.push((f.kind(), id, if what == 0 || what == 2 { 2 } else { 1 }));
            vs::reach("sent");
            continue;
        }
        let (t, id, m) = open.remove(k);
        if t == 12 {
            a.s.send(&[0xd0, 0]);
        } else {
            let mut c = vs::bytes(m as usize);
            for c in &mut c {
                *c = if *c & 1 == 0 { 0 } else { 0x87 };
            }
            a.s.send(&packet((t + 1) << 4, &[&w16(id), &[0], &c]));
            sim::run();
            let ok = match a.take() {
                Some(Packet::SubAck(p)) => t == 8 && p.packet_id() == id && p.reason_codes.iter().map(|r| *r as u8).collect::<Vec<u8>>() == c,
                Some(Packet::UnsubAck(p)) => t == 10 && p.packet_id == id && p.reason_code.iter().map(|r| *r as u8).collect::<Vec<u8>>() == c,
                _ => false,
            };
            vs::check(ok, "an answer is not passed on to the application as it came");
        }
        sim::run();
        if t == 12 && pong == 1 {
            vs::check(matches!(a.take(), Some(Packet::PingResponse(_))), "a PINGRESP that was asked for is not passed on");
        }
        vs::check(a.take().is_none(), "an answer is passed on more than once, or one that was not asked for");
        a.s.none("the client sends packets that are not due");
        vs::reach("answered");
    }
    vs::check(!a.done() && a.up(), "the client ends although the server follows the protocol");
}

/// `k` starts fail because there is no connection: it is refused (`what` 0), takes longer than the client
/// waits (1) or than the application does (2).  Then one succeeds; `st`: with an earlier session.
pub fn c_retry(what: u64, k: u64, st: u64) {
    let mut m = Model::new(65535);
    let mut b = conf("me");
    if st == 1 {
        let mut a = begin(conf("me"), true);
        a.accept(false, &[]);
        m.publish(&mut a, msg(1 + vs::choice(2) as u8, 0));
        a.s.p.close();
        sim::run();
        b = match a.end() {
            Ok(_) => vs::fail("the connection ended unexpectedly but the client reports success"),
            Err(e) => ClientBuilder::default().with_state(at(), e.state),
        };
    }
    let wait = vs::u8() as u64;
    vs::assume(wait > 0);
    let mut client = match sim::drive(b.with_max_connect_wait(if what == 1 { secs(wait) } else { secs(1000) }).build()) {
        Some(Ok(c)) => c,
        _ => vs::fail("the client was not built"),
    };
    let tx = client.packet_producer();
    let rx = match client.take_packet_consumer() {
        Some(r) => r,
        None => vs::fail("the client has no packet consumer"),
    };
    let before = sim::opened().len();
    let mut early = vec![];
    match what {
        0 => sim::refuse_connections(true),
        _ => sim::set_delay(secs(wait + 1)),
    }
    for _ in 0..k {
        if vs::flip() {
            let x = msg(0, 0);
            vs::check(matches!(sim::drive(tx.send(x.packet())), Some(Ok(()))), "the client takes no packets from the application");
            early.push(x);
        }
        let failed = if what == 2 || vs::flip() {
            matches!(sim::drive_for(client.try_start(secs(if what == 2 { wait } else { 900 }), st == 0), secs(1000)), Some(Err(_)))
        } else {
            matches!(sim::drive_for(client.start(st == 0), secs(1000)), Some(Err(_)))
        };
        vs::check(failed, "a start without connection does not fail");
        vs::check(sim::drive(client.connected()) == Some(false), "the client is connected after its start has failed");
        sim::elapse(secs(600));
        for p in sim::opened().iter().skip(before) {
            vs::check(p.closed_by_sut(), "a start failed but leaves the connection open");
        }
    }
    sim::refuse_connections(false);
    sim::set_delay(secs(0));
    let h = match sim::drive(client.start(st == 0)) {
        Some(Ok(h)) => h,
        _ => vs::fail("a client whose start has failed cannot be started again"),
    };
    sim::run();
    let s = match sim::opened().last() {
        Some(p) => Cl::on(*p),
        None => vs::fail("the client opened no connection"),
    };
    let mut a = App { client, tx, rx, h: Some(h), s };
    let f = a.accept(st == 1, &[]);
    vs::check(unconnect(&f).id == b"me", "a resumed session connects as another client or with a clean start");
    let mut f = a.s.frames();
    vs::check(f.len() == early.len() + m.open.len(), "a message handed over before the client is connected is not sent exactly once");
    let x: Vec<Frame> = f.drain(m.open.len()..).collect();
    for (f, x) in x.iter().zip(&early) {
        m.is(f, x, false);
    }
    for i in 0..m.open.len() {
        let o = m.open[i].clone();
        vs::check(m.is(&f[i], &o, true) == o.id, "a PUBLISH is sent again with another packet identifier");
    }
    m.publish(&mut a, msg(1, 0));
    m.finish(&mut a);
    a.s.send(&publish(0, 0, b"t", &[], b"m"));
    sim::run();
    vs::check(a.take().is_some(), "a message is not passed on to the application");
    vs::check(!a.done() && a.up(), "the client ends although the server follows the protocol");
    vs::reach("started");
}

/// A client identifier, user name, password, will topic or will message of `n` bytes.
pub fn c_long(what: u64, n: u64) {
    let mut p = [1usize; 5];
    p[what as usize] = n as usize;
    let t = |k: usize| "t".repeat(p[k]);
    let b = ClientBuilder::new(at().with_credentials(&t(1), &t(2)))
        .with_client_id(&t(0))
        .with_will_message(WillMessage::new(t(3), t(4).as_bytes(), qos(1), false));
    let mut a = begin(b, true);
    if n > 65535 {
        a.s.none("something of a CONNECT that is too long is sent");
        match a.end() {
            Ok(_) => vs::fail("a client that cannot connect reports success"),
            Err(_) => vs::reach("refused"),
        }
        return;
    }
    let f = a.accept(false, &[]);
    let c = unconnect(&f);
    vs::check(c.id == t(0).as_bytes(), "CONNECT does not carry the client identifier that was set");
    let used = match parse_props(&c.rest) {
        Some((_, n)) => n,
        None => vs::fail("the client sends a malformed will"),
    };
    let mut r = c.rest[used..].to_vec();
    for k in [3, 4, 1, 2] {
        let (v, rest) = bin(&r);
        vs::check(v == t(k).as_bytes(), "CONNECT does not carry the credentials and the will that were set");
        r = rest;
    }
    vs::check(a.up(), "the client is not connected after a successful CONNACK");
    vs::reach("connected");
}

/// `try_start` says Ok exactly if the client is connected within the time given (which it looks at
/// every 100 ms).  The server answers after any time, with success or not; or closes the connection.
pub fn c_try(what: u64) {
    let t = Duration::from_millis(vs::u8() as u64 * 5);
    let w = Duration::from_millis(vs::u8() as u64 * 5);
    vs::assume(w > Duration::from_millis(200) && t > secs(0));
    vs::assume(t < Duration::from_millis(700) && w < Duration::from_millis(600));
    let reason = match what {
        1 => vs::u8() | 0x80,
        _ => 0,
    };
    let mut client = match sim::drive(conf("c").build()) {
        Some(Ok(c)) => c,
        _ => vs::fail("the client was not built"),
    };
    tokio::spawn(async move {
        tokio::time::sleep(if what == 3 { t + Duration::from_millis(1) } else { t }).await;
        for p in sim::opened() {
            match what {
                2 => p.close(),
                _ => p.send(&connack(0, reason, &[])),
            }
        }
    });
    if what == 3 {
        // connecting takes this long, the answer comes at once
        sim::set_delay(t);
    }
    let begun = sim::now();
    let r = match sim::drive_for(client.try_start(w, true), secs(1000)) {
        Some(r) => r,
        None => vs::fail("try_start does not return"),
    };
    let took = sim::now() - begun;
    vs::check(took <= w, "try_start takes longer than it is to");
    match r {
        Ok(_) => {
            vs::check(reason == 0 && what != 2 && t <= took, "try_start succeeded without a connection");
            vs::check(sim::drive(client.connected()) == Some(true), "try_start succeeded without a connection");
            vs::reach("started");
        }
        Err(_) => {
            vs::check(reason != 0 || what == 2 || t + Duration::from_millis(100) >= w, "try_start failed with a connection");
            sim::elapse(secs(3));
            vs::check(sim::drive(client.connected()) == Some(false), "the client is connected after try_start has failed");
            for p in sim::opened() {
                vs::check(p.closed_by_sut(), "try_start failed but leaves the connection open");
            }
            vs::reach("not started");
        }
    }
}
