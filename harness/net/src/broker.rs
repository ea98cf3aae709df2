//! The broker, observed from the outside: connections, what they send and what they get.
use crate::refc::*;
use std::time::Duration;
use tokio::sim::{self, Peer};
use vaux_broker::{Broker, Config};

/// Starts a broker that runs until the end.
pub fn start(cfg: Config) -> &'static mut Broker {
    let mut cfg = cfg;
    if sim::tls() {
        cfg.tls_acceptor = Some(acceptor());
    }
    let b = Box::leak(Box::new(Broker::new_with_config(cfg)));
    match sim::drive(b.run()) {
        Some(Ok(())) => {}
        _ => vs::fail("the broker did not start"),
    }
    b
}
pub fn cfg() -> Config {
    Config { default_keep_alive: secs(30), max_keep_alive: secs(120), session_expiry: secs(600), ..Default::default() }
}
pub fn secs(n: u64) -> Duration {
    Duration::from_secs(n)
}

pub fn acceptor() -> tokio_rustls::TlsAcceptor {
    std::sync::Arc::new(rustls::ServerConfig).into()
}

/// One packet as received: first byte and body.
#[derive(Clone, PartialEq)]
pub struct Frame {
    pub head: u8,
    pub body: Vec<u8>,
}
impl Frame {
    pub fn kind(&self) -> u8 {
        self.head >> 4
    }
}
pub struct Cl {
    pub p: Peer,
    buf: Vec<u8>,
}
impl Cl {
    pub fn dial() -> Cl {
        Cl { p: sim::dial(), buf: Vec::new() }
    }
    pub fn on(p: Peer) -> Cl {
        Cl { p, buf: Vec::new() }
    }
    pub fn send(&self, b: &[u8]) {
        self.p.send(b);
    }
    /// Everything received so far, split into packets.
    pub fn frames(&mut self) -> Vec<Frame> {
        self.buf.extend_from_slice(&self.p.recv());
        let mut out = vec![];
        let mut at = 0;
        while at < self.buf.len() {
            match frame(&self.buf[at..]) {
                Fr::Complete { hdr, total } => {
                    let (hdr, total) = (vs::concrete(hdr), vs::concrete(total));
                    out.push(Frame { head: self.buf[at], body: self.buf[at + hdr..at + total].to_vec() });
                    at += total;
                }
                Fr::Incomplete => break,
                Fr::BadLength => vs::fail("the broker sent bytes that are not an MQTT packet"),
            }
        }
        self.buf.drain(..at);
        out
    }
    /// All tasks idle: exactly these packet types have come, in this order.
    pub fn kinds(&mut self, want: &[u8], what: &str) -> Vec<Frame> {
        sim::run();
        let f = self.frames();
        vs::check(f.len() == want.len(), what);
        for (a, b) in f.iter().zip(want) {
            vs::check(a.kind() == *b, what);
        }
        f
    }
    pub fn one(&mut self, kind: u8, what: &str) -> Frame {
        let mut f = self.kinds(&[kind], what);
        f.remove(0)
    }
    pub fn none(&mut self, what: &str) {
        self.kinds(&[], what);
    }
}
#[derive(Clone, Default)]
pub struct Con {
    pub id: Vec<u8>,
    pub resume: bool,
    pub keep: u16,
    pub props: Vec<u8>,
    /// will: flags (QoS and retain), properties, topic, payload
    pub will: Option<(u8, Vec<u8>, Vec<u8>, Vec<u8>)>,
}
pub fn con(id: &str) -> Con {
    Con { id: id.as_bytes().to_vec(), keep: 60, ..Default::default() }
}
/// keeps the session for `s` seconds after the connection ends, and resumes it
pub fn keep(id: &str, s: u32) -> Con {
    Con { resume: true, props: cat(&[&[0x11], &w32(s)]), ..con(id) }
}
pub fn packet(head: u8, parts: &[&[u8]]) -> Vec<u8> {
    let body = cat(parts);
    cat(&[&[head], &vbi(body.len() as u32), &body])
}
pub fn connect(c: &Con) -> Vec<u8> {
    let mut fl = if c.resume { 0 } else { 2 };
    let mut w = vec![];
    if let Some((f, p, t, m)) = &c.will {
        fl |= 4 | f;
        w = cat(&[&vbi(p.len() as u32), p, &wbin(t), &wbin(m)]);
    }
    packet(0x10, &[&[0, 4], b"MQTT", &[5, fl], &w16(c.keep), &vbi(c.props.len() as u32), &c.props, &wbin(&c.id), &w])
}
/// Dial and connect; the CONNACK (which must be a success) is returned too.
pub fn join(c: &Con) -> (Cl, Frame) {
    let mut k = Cl::dial();
    k.send(&connect(c));
    let f = k.one(2, "no CONNACK, or more than one, for a CONNECT");
    vs::check(f.body.len() >= 2 && f.body[1] == 0, "a CONNECT was refused");
    (k, f)
}
pub fn enter(id: &str) -> Cl {
    join(&con(id)).0
}
pub fn subscribe(id: u16, fs: &[(&[u8], u8)]) -> Vec<u8> {
    let mut b = vec![];
    for (f, o) in fs {
        b.extend_from_slice(&wbin(f));
        b.push(*o);
    }
    packet(0x82, &[&w16(id), &[0], &b])
}
pub fn unsubscribe(id: u16, fs: &[&[u8]]) -> Vec<u8> {
    let mut b = vec![];
    for f in fs {
        b.extend_from_slice(&wbin(f));
    }
    packet(0xa2, &[&w16(id), &[0], &b])
}
pub fn publish(q: u8, id: u16, topic: &[u8], props: &[u8], payload: &[u8]) -> Vec<u8> {
    let i = w16(id);
    packet(0x30 | q << 1, &[&wbin(topic), if q > 0 { &i } else { &[] }, &vbi(props.len() as u32), props, payload])
}
/// The reason codes of a SUBACK or UNSUBACK that must answer packet `id` with `n` codes.
pub fn codes(f: &Frame, id: u16, n: usize) -> Vec<u8> {
    vs::check(f.head & 15 == 0 && f.body.len() >= 3 && f.body[..2] == w16(id), "the acknowledgement does not carry the packet identifier of the request");
    let at = match parse_props(&f.body[2..]) {
        Some((_, n)) => 2 + n,
        None => vs::fail("the broker sent a malformed acknowledgement"),
    };
    vs::check(f.body.len() == at + n, "the acknowledgement does not carry one reason code per topic filter");
    f.body[at..].to_vec()
}
pub fn sub(c: &mut Cl, id: u16, fs: &[(&[u8], u8)]) -> Vec<u8> {
    c.send(&subscribe(id, fs));
    codes(&c.one(9, "no SUBACK, or more than one, for a SUBSCRIBE"), id, fs.len())
}
pub fn unsub(c: &mut Cl, id: u16, fs: &[&[u8]]) -> Vec<u8> {
    c.send(&unsubscribe(id, fs));
    codes(&c.one(11, "no UNSUBACK, or more than one, for an UNSUBSCRIBE"), id, fs.len())
}
/// A PUBLISH taken apart.
pub struct Pub {
    pub dup: bool,
    pub qos: u8,
    pub retain: bool,
    pub topic: Vec<u8>,
    pub id: u16,
    pub props: Vec<Prop>,
    pub payload: Vec<u8>,
}
pub fn unpub(f: &Frame) -> Pub {
    vs::check(f.kind() == 3, "not a PUBLISH");
    let qos = vs::concrete((f.head >> 1 & 3) as usize) as u8;
    let n = vs::concrete(u16::from_be_bytes([f.body[0], f.body[1]]) as usize);
    let topic = f.body[2..2 + n].to_vec();
    let mut at = 2 + n;
    let mut id = 0;
    if qos > 0 {
        id = u16::from_be_bytes([f.body[at], f.body[at + 1]]);
        at += 2;
    }
    let (props, used) = match parse_props(&f.body[at..]) {
        Some(x) => x,
        None => vs::fail("the broker sent a malformed PUBLISH"),
    };
    at += used;
    Pub { dup: f.head & 8 != 0, qos, retain: f.head & 1 != 0, topic, id, props, payload: f.body[at..].to_vec() }
}

/// MQTT 4.7.1: is the filter well-formed?
pub fn filter_ok(f: &[u8]) -> bool {
    if f.is_empty() {
        return false;
    }
    let n = f.len();
    for i in 0..n {
        if f[i] == b'+' || f[i] == b'#' {
            if i > 0 && f[i - 1] != b'/' {
                return false;
            }
            if i + 1 < n && (f[i] == b'#' || f[i + 1] != b'/') {
                return false;
            }
        }
    }
    true
}
/// MQTT 4.7: does the (well-formed) filter match the topic name?
pub fn matches(f: &[u8], t: &[u8]) -> bool {
    if !t.is_empty() && t[0] == b'$' && !f.is_empty() && (f[0] == b'+' || f[0] == b'#') {
        return false;
    }
    let (mut i, mut j) = (0, 0);
    // both at the start of a level
    loop {
        if i < f.len() && f[i] == b'#' {
            return true;
        }
        if i < f.len() && f[i] == b'+' {
            i += 1;
            while j < t.len() && t[j] != b'/' {
                j += 1;
            }
        } else {
            while i < f.len() && f[i] != b'/' {
                if j >= t.len() || t[j] != f[i] {
                    return false;
                }
                i += 1;
                j += 1;
            }
            if j < t.len() && t[j] != b'/' {
                return false;
            }
        }
        // both at a separator or at the end
        if i >= f.len() {
            return j >= t.len();
        }
        if j >= t.len() {
            // "a/#" also matches "a"
            return i + 2 == f.len() && f[i + 1] == b'#';
        }
        i += 1;
        j += 1;
    }
}
fn letters(n: usize, wild: bool) -> Vec<u8> {
    let v = vs::bytes(n);
    for c in &v {
        let plain = *c == b'a' || *c == b'b' || *c == b'/' || *c == b'$';
        vs::assume(if wild { plain | (*c == b'+') | (*c == b'#') } else { plain });
    }
    v
}

/// One symbolic filter, one symbolic topic: delivered exactly when the filter matches.
pub fn b_match(nf: u64, nt: u64) {
    start(cfg());
    let f = letters(nf as usize, true);
    let t = letters(nt as usize, false);
    let mut s = enter("s");
    let mut p = enter("p");
    let rc = sub(&mut s, 7, &[(&f, 0)]);
    if !filter_ok(&f) {
        vs::reach("malformed");
        vs::check(rc[0] == 0x8f, "a malformed topic filter was not refused");
    } else {
        vs::check(rc[0] == 0, "a well-formed topic filter was refused");
    }
    p.send(&publish(0, 0, &t, &[], b"x"));
    sim::run();
    let got = s.frames();
    let want = filter_ok(&f) && matches(&f, &t);
    if want {
        vs::reach("match");
        vs::check(got.len() == 1, "a message was not delivered exactly once to a matching subscription");
        vs::check(unpub(&got[0]).topic == t, "the message was delivered with another topic");
    } else {
        vs::reach("no match");
        vs::check(got.is_empty(), "a message was delivered although the filter does not match its topic");
    }
    p.none("the publisher was sent something for a QoS 0 message");
    vs::check(!s.p.closed_by_sut() && !p.p.closed_by_sut(), "a connection was closed");
    // unsubscribing ends it
    let rc = unsub(&mut s, 8, &[&f]);
    vs::check(rc[0] == if filter_ok(&f) { 0 } else { 0x11 }, "wrong reason code in UNSUBACK");
    p.send(&publish(0, 0, &t, &[], b"x"));
    s.none("a message was delivered after unsubscribing");
}

/// A topic of `n` levels with names of `len` characters, and a filter that differs from it at one level at most.
pub fn b_deep(n: u64, len: u64, at: u64) {
    start(cfg());
    let (n, len) = (n as usize, len as usize);
    let level = vec![b'a'; len];
    let join = |v: &[Vec<u8>]| v.join(&b'/');
    let t = join(&vec![level.clone(); n]);
    let at = [0, n / 2, n - 1][at as usize];
    let mut f = vec![level.clone(); n];
    let c = vs::u8();
    match vs::choice(7) {
        0 => {}
        1 => f[at] = vec![b'+'],
        2 => {
            f.truncate(at);
            f.push(vec![b'#']);
        }
        // another name, maybe
        3 => {
            vs::assume(c == b'a' || c == b'b');
            match f[at].last_mut() {
                Some(x) => *x = c,
                None => f[at].push(c),
            }
        }
        4 => f[at].push(b'a'),
        5 => f.push(level.clone()),
        _ => {
            f.pop();
            if f.is_empty() {
                f.push(vec![b'b']);
            }
        }
    }
    let f = join(&f);
    vs::assume(!f.is_empty() && !t.is_empty());
    let mut s = enter("s");
    let mut p = enter("p");
    let rc = sub(&mut s, 7, &[(&f, 0)]);
    vs::check(rc[0] == 0, "a well-formed topic filter was refused");
    p.send(&publish(0, 0, &t, &[], b"x"));
    sim::run();
    let got = s.frames();
    if matches(&f, &t) {
        vs::reach("match");
        vs::check(got.len() == 1, "a message was not delivered exactly once to a matching subscription");
        vs::check(unpub(&got[0]).topic == t, "the message was delivered with another topic");
    } else {
        vs::reach("no match");
        vs::check(got.is_empty(), "a message was delivered although the filter does not match its topic");
    }
    vs::check(!s.p.closed_by_sut() && !p.p.closed_by_sut(), "a connection was closed");
    let rc = unsub(&mut s, 8, &[&f]);
    vs::check(rc[0] == 0, "wrong reason code in UNSUBACK");
    p.send(&publish(0, 0, &t, &[], b"x"));
    s.none("a message was delivered after unsubscribing");
}

/// A PUBLISH to a name that is none (empty, or with a wildcard) reaches nobody and ends its connection.
pub fn b_topic(n: u64) {
    start(cfg());
    let t = letters(n as usize, true);
    let q = vs::choice(3) as u8;
    let mut o = enter("o");
    sub(&mut o, 1, &[(b"#", 1)]);
    let mut p = enter("p");
    sub(&mut p, 2, &[(b"+", 1), (b"$a/#", 0)]);
    // no topic alias has been set, and none may be
    let alias = if n == 0 || vs::flip() { cat(&[&[0x23], &vs::bytes(2)]) } else { vec![] };
    let id = vs::u16();
    vs::assume(id != 0);
    p.send(&publish(q, id, &t, &alias, b"x"));
    sim::run();
    let bad = t.is_empty() || t.iter().any(|c| *c == b'+' || *c == b'#');
    let zero = !alias.is_empty() && alias[1] == 0 && alias[2] == 0;
    let got = o.frames();
    if bad || zero {
        vs::reach("refused");
        vs::check(p.p.closed_by_sut(), "a PUBLISH without a proper topic name did not end its connection");
        let f = p.frames();
        vs::check(f.iter().all(|f| f.kind() == 14 && f.body[0] >= 0x80) && f.len() <= 1, "a PUBLISH without a proper topic name was answered");
        vs::check(got.is_empty(), "a PUBLISH without a proper topic name was delivered");
    } else {
        vs::reach("accepted");
        vs::check(!p.p.closed_by_sut(), "a connection was closed");
        vs::check(got.len() == (t[0] != b'$') as usize, "a message was not delivered exactly once to a matching subscription");
    }
    vs::check(!o.p.closed_by_sut(), "the connection of another client was closed");
    let mut r = enter("r");
    r.send(&publish(1, 9, b"b", &[], b"y"));
    r.one(4, "no PUBACK, or more than one, for a QoS 1 PUBLISH");
    o.one(3, "a message was not delivered exactly once to a matching subscription");
}

const FILTERS: [&[u8]; 8] = [b"a", b"a/b", b"#", b"+", b"a/+", b"a/#", b"+/b", b"b"];
const TOPICS: [&[u8]; 5] = [b"a", b"a/b", b"b", b"a/b/c", b"$a"];

#[derive(Clone)]
struct Sub {
    who: usize,
    f: usize,
    qos: u8,
    nl: bool,
}
/// A history of `n` subscribes and unsubscribes by two clients, then a publish: one copy per matching subscription.
pub fn b_hist(n: u64, nfil: u64, full: u64) {
    start(cfg());
    let mut c = [enter("x"), enter("y")];
    let mut model: Vec<Sub> = vec![];
    for i in 0..n {
        // the clients are alike: the first to act is x
        let who = if i == 0 { 0 } else { vs::choice(2) as usize };
        let f = vs::choice(nfil) as usize;
        let id = 10 + i as u16;
        match vs::choice(if full & 2 != 0 { 2 } else { 3 }) {
            0 => {
                let at = model.iter().position(|s| s.who == who && s.f == f);
                let rc = unsub(&mut c[who], id, &[FILTERS[f]]);
                vs::check(rc[0] == if at.is_some() { 0 } else { 0x11 }, "wrong reason code in UNSUBACK");
                if let Some(k) = at {
                    model.remove(k);
                }
            }
            1 => {
                let (qos, nl) = (vs::choice(if full & 1 != 0 { 3 } else { 2 }) as u8, full & 1 != 0 && vs::flip());
                let rc = sub(&mut c[who], id, &[(FILTERS[f], qos | (nl as u8) << 2)]);
                vs::check(rc[0] == qos, "the granted QoS is not the requested one");
                model.retain(|s| !(s.who == who && s.f == f));
                model.push(Sub { who, f, qos, nl });
            }
            _ => {
                // two filters in one packet
                let g = vs::choice(nfil) as usize;
                if vs::flip() {
                    let rc = sub(&mut c[who], id, &[(FILTERS[f], 1), (FILTERS[g], 0)]);
                    vs::check(rc[0] == 1 && rc[1] == 0, "the granted QoS is not the requested one");
                    model.retain(|s| !(s.who == who && (s.f == f || s.f == g)));
                    if f != g {
                        model.push(Sub { who, f, qos: 1, nl: false });
                    }
                    model.push(Sub { who, f: g, qos: 0, nl: false });
                } else {
                    let has = |x: usize| model.iter().any(|s| s.who == who && s.f == x);
                    let want = [has(f), has(g) && f != g];
                    let rc = unsub(&mut c[who], id, &[FILTERS[f], FILTERS[g]]);
                    for k in 0..2 {
                        vs::check(rc[k] == if want[k] { 0 } else { 0x11 }, "wrong reason code in UNSUBACK");
                    }
                    model.retain(|s| !(s.who == who && (s.f == f || s.f == g)));
                }
            }
        }
    }
    let from = vs::choice(2) as usize;
    let t = TOPICS[vs::choice(TOPICS.len() as u64) as usize];
    let q = vs::choice(2) as u8;
    c[from].send(&publish(q, 77, t, &[], b"pay"));
    sim::run();
    for who in 0..2 {
        let mut got: Vec<Frame> = c[who].frames();
        if who == from && q == 1 {
            let k = got.iter().position(|f| f.kind() == 4);
            match k {
                Some(k) => {
                    let a = got.remove(k);
                    vs::check(a.body[..2] == [0, 77], "the PUBACK does not answer the PUBLISH");
                }
                None => vs::fail("no PUBACK for a QoS 1 PUBLISH"),
            }
        }
        let mut want: Vec<u8> = model
            .iter()
            .filter(|s| s.who == who && matches(FILTERS[s.f], t) && !(s.nl && who == from))
            .map(|s| s.qos.min(q))
            .collect();
        vs::check(got.len() == want.len(), "the number of copies is not the number of matching subscriptions");
        let mut ids = vec![];
        for f in &got {
            let m = unpub(f);
            vs::check(m.topic == t && m.payload == b"pay" && m.props.is_empty() && !m.dup, "the message delivered is not the one published");
            match want.iter().position(|w| *w == m.qos) {
                Some(k) => {
                    want.remove(k);
                }
                None => vs::fail("a copy was not delivered at the smaller of the two QoS levels"),
            }
            if m.qos > 0 {
                vs::check(m.id != 0 && !ids.contains(&m.id), "the packet identifier is zero or already in use");
                ids.push(m.id);
            }
            vs::reach("delivered");
        }
    }
    vs::check(!c[0].p.closed_by_sut() && !c[1].p.closed_by_sut(), "a connection was closed");
}

/// As above with arbitrary filters: `n` subscriptions of `len` characters by two clients, one unsubscription, one topic.
pub fn b_trie(n: u64, len: u64, lt: u64) {
    start(cfg());
    let mut c = [enter("x"), enter("y")];
    let mut model: Vec<(usize, Vec<u8>, u8)> = vec![];
    let mut k = len;
    for i in 0..n {
        let who = i as usize % 2;
        let f = letters((k & 15) as usize, true);
        k >>= 4;
        vs::assume(filter_ok(&f));
        let q = (i & 1) as u8;
        let rc = sub(&mut c[who], 10 + i as u16, &[(&f, q)]);
        vs::check(rc[0] == q, "the granted QoS is not the requested one");
        model.retain(|s| !(s.0 == who && vs::same(&s.1, &f)));
        model.push((who, f, q));
    }
    if k > 0 {
        let f = letters((k & 15) as usize, true);
        vs::assume(filter_ok(&f));
        let at = model.iter().position(|s| s.0 == 0 && vs::same(&s.1, &f));
        let rc = unsub(&mut c[0], 9, &[&f]);
        vs::check(rc[0] == if at.is_some() { 0 } else { 0x11 }, "wrong reason code in UNSUBACK");
        if let Some(k) = at {
            vs::reach("unsubscribed");
            model.remove(k);
        }
    }
    let t = letters(lt as usize, false);
    c[0].send(&publish(1, 7, &t, &[], b"m"));
    sim::run();
    for who in 0..2 {
        let got: Vec<Frame> = c[who].frames().into_iter().filter(|f| f.kind() == 3).collect();
        let want: Vec<u8> = model.iter().filter(|s| s.0 == who && matches(&s.1, &t)).map(|s| s.2).collect();
        vs::check(got.len() == want.len(), "the number of copies is not the number of matching subscriptions");
        for q in 0..2 {
            let g = got.iter().filter(|f| f.head >> 1 & 3 == q).count();
            vs::check(g == want.iter().filter(|w| **w == q).count(), "a copy was not delivered at the smaller of the two QoS levels");
        }
        if !got.is_empty() {
            vs::reach("delivered");
        }
    }
}

fn prop(id: u8, val: &[u8]) -> Prop {
    Prop { id, val: val.to_vec() }
}
fn flat(ps: &[Prop]) -> Vec<u8> {
    let mut o = vec![];
    for p in ps {
        o.push(p.id);
        o.extend_from_slice(&p.val);
    }
    o
}
/// The properties of a message that a subscriber gets to see, selected by bit, with symbolic values.
fn msg_props(sel: u64) -> Vec<Prop> {
    let mut v = vec![];
    if sel & 1 != 0 {
        v.push(prop(0x01, &[vs::bit() as u8]));
    }
    if sel & 2 != 0 {
        v.push(prop(0x02, &vs::bytes(4)));
    }
    if sel & 4 != 0 {
        v.push(prop(0x03, &wstr(&vs::ascii(2))));
    }
    if sel & 8 != 0 {
        v.push(prop(0x08, &wstr(&vs::ascii(1))));
    }
    if sel & 16 != 0 {
        v.push(prop(0x09, &wbin(&vs::bytes(2))));
    }
    if sel & 32 != 0 {
        v.push(prop(0x26, &cat(&[&wstr(&vs::ascii(1)), &wstr(&vs::ascii(1))])));
    }
    if sel & 64 != 0 {
        v.push(prop(0x26, &cat(&[&wstr("k"), &wstr(&vs::ascii(1))])));
        v.push(prop(0x26, &cat(&[&wstr("k"), &wstr(&vs::ascii(1))])));
    }
    v
}
fn key(p: &Prop) -> Vec<u8> {
    let n = vs::concrete(u16::from_be_bytes([p.val[0], p.val[1]]) as usize);
    p.val[2..2 + n].to_vec()
}
fn same_props(a: &[Prop], b: &[Prop]) -> bool {
    // a payload format of 0 means the same as none; properties of different kinds may be reordered; the values of
    // a user property keep their order
    let plain = |v: &[Prop]| -> Vec<Prop> { v.iter().filter(|p| !(p.id == 1 && p.val == [0])).cloned().collect() };
    let (a, b) = (&plain(a)[..], &plain(b)[..]);
    if a.len() != b.len() {
        return false;
    }
    let (ua, ub): (Vec<&Prop>, Vec<&Prop>) = (a.iter().filter(|p| p.id == 0x26).collect(), b.iter().filter(|p| p.id == 0x26).collect());
    if ua.len() != ub.len() {
        return false;
    }
    for k in &ua {
        let k = key(k);
        let x: Vec<&&Prop> = ua.iter().filter(|p| key(p) == k).collect();
        let y: Vec<&&Prop> = ub.iter().filter(|p| key(p) == k).collect();
        if x.len() != y.len() || x.iter().zip(&y).any(|(p, q)| p.val != q.val) {
            return false;
        }
    }
    for id in (0..=0x2a_u8).filter(|i| *i != 0x26) {
        let x: Vec<&Prop> = a.iter().filter(|p| p.id == id).collect();
        let y: Vec<&Prop> = b.iter().filter(|p| p.id == id).collect();
        if x.len() != y.len() {
            return false;
        }
        for (p, q) in x.iter().zip(&y) {
            if p.val != q.val {
                return false;
            }
        }
    }
    true
}

/// What a subscriber gets is what was published: content, QoS, flags.
pub fn b_deliver(sel: u64, rot: u64) {
    start(cfg());
    let mut s = enter("s");
    let mut p = enter("p");
    let sq = vs::choice(3) as u8;
    let rap = vs::flip();
    let sid = vs::flip();
    let o = sq | (rap as u8) << 3 | (vs::choice(3) as u8) << 4;
    let id = vs::u16();
    vs::assume(id != 0);
    s.send(&packet(0x82, &[&w16(id), if sid { &[2, 0x0b, 9] } else { &[0] }, &wstr("t/+"), &[o]]));
    let rc = codes(&s.one(9, "no SUBACK, or more than one, for a SUBSCRIBE"), id, 1);
    vs::check(rc[0] == sq, "the granted QoS is not the requested one");
    let pq = vs::choice(if sel & 256 != 0 { 3 } else { 2 }) as u8;
    let mut ps = msg_props(sel);
    if !ps.is_empty() {
        let r = rot as usize % ps.len();
        ps.rotate_left(r);
    }
    let mut wire = flat(&ps);
    if sel & 128 != 0 {
        let alias = vs::u16();
        vs::assume(alias != 0);
        wire.extend_from_slice(&cat(&[&[0x23], &w16(alias)]));
    }
    let topic = cat(&[b"t/", &letters(1, false)]);
    vs::assume(topic[2] != b'/');
    let payload = vs::bytes(3);
    let (dup, retain) = (vs::bit() & (pq > 0), vs::bit());
    let pid = vs::u16();
    vs::assume(pid != 0);
    let mut m = publish(pq, pid, &topic, &wire, &payload);
    m[0] |= (dup as u8) << 3 | retain as u8;
    p.send(&m);
    sim::run();
    let got = s.frames();
    vs::check(got.len() == 1, "a message was not delivered exactly once to a matching subscription");
    let q = unpub(&got[0]);
    vs::check(q.topic == topic, "the message was delivered with another topic");
    vs::check(vs::same(&q.payload, &payload), "the message was delivered with another payload");
    vs::check(q.qos == pq.min(sq), "the message was not delivered at the smaller of the two QoS levels");
    vs::check((q.qos > 0) == (q.id != 0), "the message was delivered without a packet identifier");
    vs::check(!q.dup, "the first delivery of a message is marked as a duplicate");
    if !rap {
        vs::check(!q.retain, "a message was forwarded with the RETAIN flag set");
    } else {
        vs::check(q.retain == retain, "the RETAIN flag was not forwarded as published");
    }
    let ids: Vec<&Prop> = q.props.iter().filter(|x| x.id == 0x0b).collect();
    vs::check(ids.len() == sid as usize && (!sid || ids[0].val == [9]), "the subscription identifier of the subscription is missing or wrong");
    vs::check(q.props.iter().all(|x| x.id != 0x23), "the topic alias of the publisher was forwarded");
    let rest: Vec<Prop> = q.props.iter().filter(|x| x.id != 0x0b).cloned().collect();
    vs::check(same_props(&rest, &ps), "the properties of the message were changed on the way");
    vs::reach("delivered");
    if pq == 1 {
        let a = p.one(4, "no PUBACK, or more than one, for a QoS 1 PUBLISH");
        vs::check(a.body[..2] == w16(pid) && (a.body.len() == 2 || a.body[2] == 0), "the PUBACK does not answer the PUBLISH");
    } else if pq == 0 {
        p.none("a QoS 0 PUBLISH was answered");
    }
}

/// A pipelined sequence of publishes and pings (any of them): each answered exactly once, in order; all delivered in order.
pub fn b_order(n: u64, subs: u64, budget: u64) {
    start(cfg());
    let mut s = enter("s");
    let mut p = enter("p");
    sub(&mut s, 1, &[(b"t", 1)]);
    for k in 1..subs {
        let mut x = enter(if k == 1 { "s2" } else { "s3" });
        sub(&mut x, 1, &[(b"t", 0)]);
    }
    let mut wire = vec![];
    let mut acks: Vec<(u8, u16)> = vec![];
    let mut want: Vec<(u8, u8)> = vec![];
    let one_piece = vs::flip();
    sim::set_budget(sim::Why::Task, budget as usize);
    sim::set_budget(sim::Why::Select, budget as usize);
    for i in 0..n as u8 {
        match vs::choice(4) {
            0 => {
                wire.extend_from_slice(&publish(0, 0, b"t", &[], &[i]));
                want.push((0, i));
            }
            1 => {
                let id = vs::u16();
                vs::assume(id != 0);
                let mut m = publish(1, id, b"t", &[], &[i]);
                // DUP and RETAIN do not matter
                m[0] |= (vs::bit() as u8) << 3 | vs::bit() as u8;
                wire.extend_from_slice(&m);
                want.push((1, i));
                acks.push((4, id));
            }
            2 => {
                wire.extend_from_slice(&[0xc0, 0]);
                acks.push((13, 0));
            }
            _ => {
                // nobody listens
                wire.extend_from_slice(&publish(1, 5, b"u", &[], &[i]));
                acks.push((4, 5));
            }
        }
        if !one_piece {
            p.send(&wire);
            wire.clear();
            if vs::flip() {
                sim::run();
            }
        }
    }
    p.send(&wire);
    sim::run();
    let got = p.frames();
    vs::check(got.len() == acks.len(), "not every QoS 1 PUBLISH and PINGREQ was answered exactly once");
    for (f, (k, id)) in got.iter().zip(&acks) {
        vs::check(f.kind() == *k, "answers were not sent in the order of the requests");
        match k {
            4 => vs::check(f.body[..2] == w16(*id) && (f.body.len() == 2 || f.body[2] == 0), "the PUBACK does not answer the PUBLISH"),
            _ => vs::check(f.body.is_empty(), "malformed PINGRESP"),
        }
    }
    let got = s.frames();
    vs::check(got.len() == want.len(), "a message was lost or duplicated on the way to its subscriber");
    let mut last = 0;
    for (f, (q, i)) in got.iter().zip(&want) {
        let m = unpub(f);
        vs::check(m.payload == [*i] && m.qos == *q, "messages were not delivered in the order they were published in");
        if m.qos > 0 {
            vs::check(m.id > last, "packet identifier reused");
            last = m.id;
        }
        vs::reach("delivered");
    }
}

/// Outbound packet identifiers: never zero, never in use.
pub fn b_ids(n: u64, resume: u64) {
    start(cfg());
    let (mut s, _) = join(&keep("s", 300));
    let mut p = enter("p");
    sub(&mut s, 1, &[(b"t", 1)]);
    let mut open: Vec<(u16, u8)> = vec![];
    let mut i = 0u8;
    for _ in 0..n {
        match vs::choice(if resume > 0 { 4 } else { 3 }) {
            0 | 1 => {
                i += 1;
                p.send(&publish(1, 9, b"t", &[], &[i]));
                let m = unpub(&s.one(3, "a message was not delivered exactly once to a matching subscription"));
                vs::check(m.id != 0, "the packet identifier is zero");
                vs::check(open.iter().all(|x| x.0 != m.id), "the packet identifier is in use by an unacknowledged message");
                open.push((m.id, i));
                vs::reach("delivered");
            }
            2 => {
                // acknowledge any
                if !open.is_empty() {
                    let k = vs::choice(open.len() as u64) as usize;
                    let (id, _) = open.remove(k);
                    s.send(&packet(0x40, &[&w16(id)]));
                    s.none("a PUBACK was answered");
                }
            }
            _ => {
                s.p.close();
                sim::run();
                s = Cl::dial();
                s.send(&connect(&keep("s", 300)));
                sim::run();
                let f = s.frames();
                vs::check(f.len() == 1 + open.len(), "not exactly the unacknowledged messages were delivered again");
                vs::check(f[0].kind() == 2 && f[0].body[..2] == [1, 0], "the session was not resumed");
                for (g, (id, x)) in f[1..].iter().zip(&open) {
                    let m = unpub(g);
                    vs::check(m.id == *id && m.payload == [*x], "unacknowledged messages were not delivered again in order under their packet identifiers");
                    vs::check(m.dup, "a message delivered again is not marked as a duplicate");
                }
                vs::reach("resumed");
            }
        }
    }
}
/// More messages than there are packet identifiers, one of which stays in use.
pub fn b_wrap(held: u64) {
    start(cfg());
    let mut s = enter("s");
    let mut p = enter("p");
    sub(&mut s, 1, &[(b"t", 1)]);
    let m = publish(1, 9, b"t", &[], b"x");
    let mut busy = 0;
    for i in 1..=65_540u64 {
        p.send(&m);
        sim::run();
        let f = s.frames();
        vs::check(f.len() == 1, "a message was not delivered exactly once to a matching subscription");
        let id = u16::from_be_bytes([f[0].body[3], f[0].body[4]]);
        vs::check(id != 0, "the packet identifier is zero");
        vs::check(id != busy, "the packet identifier is in use by an unacknowledged message");
        if i == held {
            busy = id;
        } else {
            s.send(&packet(0x40, &[&w16(id)]));
        }
        let a = p.frames();
        vs::check(a.len() == 1, "no PUBACK, or more than one, for a QoS 1 PUBLISH");
        for k in [s.p, p.p] {
            let c = k.conn();
            if c.pos == c.to_sut.len() {
                c.pos = 0;
                c.to_sut.clear();
            }
        }
    }
    vs::reach("wrapped");
}

/// How a connection comes to its end.
fn end(c: &mut Cl, how: u64) {
    match how {
        0 => c.send(&[0xe0, 0]),
        1 => c.p.close(),
        2 => c.p.fail_reads(std::io::ErrorKind::ConnectionReset),
        3 => c.send(&[0xe0, 1, 4]),
        4 => c.send(&[0xf0, 0xff, 0xff, 0xff, 0xff]),
        5 => sim::elapse(secs(200)),
        6 => c.send(&packet(0x10, &[&[0, 4], b"MQTT", &[5, 2, 0, 60, 0, 0, 0]])),
        _ => {
            c.send(&[0xc0]);
            c.p.close()
        }
    }
    sim::run();
    vs::check(how == 1 || how == 2 || c.p.closed_by_sut(), "the connection was not closed");
}

/// Sessions: what survives the end of a connection, and for how long.
pub fn b_session(how: u64, exp: u64, t: u64) {
    let mut g = cfg();
    g.max_keep_alive = secs(30);
    start(g);
    let mut p = enter("p");
    let mut c = con("s");
    c.resume = vs::flip();
    if exp > 0 {
        c.props = cat(&[&[0x11], &w32(exp as u32)]);
    }
    let (mut s, f) = join(&c);
    vs::check(f.body[0] == 0, "session present without a session");
    sub(&mut s, 1, &[(b"t", 1), (b"u/#", 0)]);
    p.send(&publish(1, 3, b"t", &[], b"1"));
    let m1 = unpub(&s.one(3, "a message was not delivered exactly once to a matching subscription"));
    let acked = vs::flip();
    if acked {
        s.send(&packet(0x40, &[&w16(m1.id)]));
    }
    sim::run();
    p.frames();
    let t0 = sim::now();
    if how == 5 {
        // the keep-alive of the publisher must not expire meanwhile
        sim::elapse(secs(25));
        p.send(&[0xc0, 0]);
        sim::elapse(secs(21));
        p.frames();
        vs::check(s.p.closed_by_sut(), "the connection of a silent client was not closed");
    } else {
        end(&mut s, how);
    }
    let _ = t0;
    // while it is away nothing is sent to it
    p.send(&publish(0, 0, b"t", &[], b"2"));
    sim::run();
    s.frames();
    for _ in 0..t / 20 {
        p.send(&[0xc0, 0]);
        sim::elapse(secs(20));
    }
    sim::elapse(secs(t % 20));
    p.frames();
    vs::check(s.frames().is_empty(), "something was sent on a connection that has ended");
    let mut c2 = con("s");
    c2.resume = vs::flip();
    c2.props = cat(&[&[0x11], &w32(50)]);
    let mut s2 = Cl::dial();
    s2.send(&connect(&c2));
    sim::run();
    let f = s2.frames();
    vs::check(!f.is_empty() && f[0].kind() == 2 && f[0].body[1] == 0, "a CONNECT was refused");
    let kept = c2.resume && t < exp.min(600);
    if t != exp.min(600) || !c2.resume {
        vs::check((f[0].body[0] & 1 == 1) == kept, "session present does not tell whether the session was resumed");
    }
    let kept = f[0].body[0] & 1 == 1;
    if kept {
        vs::reach("resumed");
        vs::check(f.len() == 1 + !acked as usize, "not exactly the unacknowledged messages were delivered again");
        if !acked {
            let m = unpub(&f[1]);
            vs::check(m.id == m1.id && m.dup && m.qos == 1 && m.payload == b"1" && m.topic == b"t", "an unacknowledged message was not delivered again as it was");
        }
    } else {
        vs::reach("new");
        vs::check(f.len() == 1, "messages of a discarded session were delivered");
    }
    p.send(&publish(0, 0, b"t", &[], b"3"));
    p.send(&publish(1, 4, b"u/v", &[], b"4"));
    sim::run();
    let f = s2.frames();
    if kept {
        vs::check(f.len() == 2 && unpub(&f[0]).payload == b"3" && unpub(&f[1]).payload == b"4" && unpub(&f[1]).qos == 0, "subscriptions were lost although the session was resumed");
    } else {
        vs::check(f.is_empty(), "subscriptions of a discarded session are still in force");
    }
    vs::check(s.frames().is_empty(), "something was sent on a connection that has ended");
}

/// Before a CONNECT is accepted nothing a connection sends has any effect.
pub fn b_gate(t: u64, n: u64) {
    start(cfg());
    let mut o = enter("o");
    sub(&mut o, 1, &[(b"#", 1), (b"$x", 1)]);
    let mut x = Cl::dial();
    let mut b = vs::bytes(n as usize);
    let fl = vs::u8() & 15;
    b.insert(0, n as u8);
    b.insert(0, (t as u8) << 4 | fl);
    x.send(&b);
    sim::run();
    for f in x.frames() {
        vs::check(f.kind() == 13 || f.kind() == 14, "a packet before CONNECT was acted upon");
        vs::check(f.kind() == 14 || t == 12, "a packet before CONNECT was acted upon");
        vs::reach("answered");
    }
    o.none("a packet before CONNECT was acted upon");
    if t != 12 {
        vs::check(x.p.closed_by_sut(), "a connection whose first packet is not CONNECT was not closed");
    }
    x.p.close();
    sim::run();
    o.none("a packet before CONNECT was acted upon");
    let mut p = enter("p");
    p.send(&publish(0, 0, b"t", &[], b"z"));
    let m = unpub(&o.one(3, "a message was not delivered exactly once to a matching subscription"));
    vs::check(m.payload == b"z", "the message was delivered with another payload");
}
/// Connections that cannot be accepted: the broker goes on, without spinning.
pub fn b_accept(n: u64) {
    start(cfg());
    let mut o = enter("o");
    sub(&mut o, 1, &[(b"#", 1)]);
    let mut left = n;
    while left > 0 {
        let k = 1 + vs::choice(left);
        sim::fail_accept(k as usize, vs::choice(2));
        sim::run();
        o.send(&[0xc0, 0]);
        o.one(13, "a live connection is not served");
        left -= k;
    }
    let mut x = Cl::dial();
    x.send(&connect(&con("x")));
    sim::elapse(secs(10));
    let f = x.one(2, "no CONNACK, or more than one, for a CONNECT");
    vs::check(f.body[1] == 0, "a CONNECT was refused");
    x.send(&publish(0, 0, b"t", &[], b"z"));
    o.one(3, "a message was not delivered exactly once to a matching subscription");
    vs::reach("served");
}
/// A CONNECT that must be refused, whatever else it says.
pub fn b_refuse(k: u64) {
    start(cfg());
    let mut o = enter("o");
    sub(&mut o, 1, &[(b"#", 1), (b"+", 1)]);
    let mut c = con("x");
    c.resume = vs::flip();
    let want = match k {
        0 => {
            c.props = cat(&[&[0x15], &wbin(vs::ascii(vs::choice(3) as usize).as_bytes())]);
            if vs::flip() {
                c.props.extend_from_slice(&cat(&[&[0x16], &wbin(&vs::bytes(1))]));
            }
            0x8c
        }
        _ => {
            let t = letters(k as usize - 1, true);
            if !t.is_empty() && !t.iter().any(|b| *b == b'+' || *b == b'#') {
                vs::assume(false);
            }
            c.will = Some((vs::choice(3) as u8 * 8, vec![], t, vec![vs::u8()]));
            0x90
        }
    };
    let mut x = Cl::dial();
    x.send(&connect(&c));
    if vs::flip() {
        x.send(&publish(0, 0, b"t", &[], b"z"));
    }
    sim::run();
    let f = x.frames();
    if k == 0 || !f.is_empty() {
        vs::check(f.len() >= 1 && f[0].kind() == 2 && f[0].body[0] == 0 && f[0].body[1] == want, "a CONNECT that must be refused was accepted, or refused with another reason");
        vs::check(f[1..].iter().all(|g| g.kind() == 14), "a packet after a refused CONNECT was acted upon");
    }
    vs::check(x.p.closed_by_sut(), "the connection of a refused CONNECT was not closed");
    x.p.close();
    sim::run();
    o.none("a refused CONNECT, or what follows it, had an effect");
    vs::reach("refused");
}
/// A connected client sends something it must not: a second CONNECT, AUTH, a reserved packet type or one that only servers
/// send, with any content, or (16) a PUBLISH whose topic name has a wildcard or is an alias.
pub fn b_wrong(t: u64, n: u64) {
    start(cfg());
    let mut o = enter("o");
    sub(&mut o, 1, &[(b"#", 1)]);
    let mut x = enter("x");
    sub(&mut x, 1, &[(b"u", 1)]);
    if t < 16 {
        let mut b = vs::bytes(n as usize);
        b.insert(0, n as u8);
        b.insert(0, (t as u8) << 4 | vs::u8() & 15);
        x.send(&b);
    } else {
        // a topic name with a wildcard, or none but an alias (the broker allows none)
        let t = letters(n as usize, true);
        let mut props = vec![];
        if n == 0 {
            props = cat(&[&[0x23], &vs::bytes(2)]);
        } else {
            vs::assume(t.iter().any(|b| *b == b'+' || *b == b'#'));
        }
        x.send(&publish(vs::choice(3) as u8, 9, &t, &props, &vs::bytes(1)));
    }
    x.send(&publish(0, 0, b"t", &[], b"z"));
    sim::run();
    for f in x.frames() {
        vs::check(f.kind() == 14 && f.body.first().is_some_and(|r| *r >= 0x80), "a packet that the client must not send was answered");
        vs::reach("closed");
    }
    vs::check(x.p.closed_by_sut(), "a connection was not closed although the client broke the protocol");
    o.none("a packet after a protocol error was acted upon");
    o.send(&publish(0, 0, b"u", &[], b"z"));
    o.one(3, "a message was not delivered exactly once to a matching subscription");
}
/// Subscriptions to shared filters are refused, and announced to be.
pub fn b_shared(n: u64) {
    start(cfg());
    let (mut s, f) = join(&con("s"));
    let (ps, _) = match parse_props(&f.body[2..]) {
        Some(x) => x,
        None => vs::fail("malformed CONNACK"),
    };
    let off = ps.iter().any(|p| p.id == 0x2a && p.val == [0]);
    let f = cat(&[b"$share/g/", &letters(n as usize, true)]);
    let c = sub(&mut s, 1, &[(&f, vs::choice(3) as u8), (b"t", 0)]);
    vs::check(c[1] == 0, "a subscription was refused");
    vs::check(off, "shared subscriptions are neither available nor announced not to be");
    vs::check(c[0] >= 0x80, "a shared subscription was granted although they are not available");
    vs::check(c[0] == 0x9e || !filter_ok(&f[9..]), "a shared subscription was refused with another reason");
    vs::reach("refused");
}
/// A retained message is delivered to a client that subscribes later, unless retaining is announced to be unavailable.
pub fn b_retain(q: u64) {
    start(cfg());
    let (p, f) = join(&con("p"));
    let (ps, _) = match parse_props(&f.body[2..]) {
        Some(x) => x,
        None => vs::fail("malformed CONNACK"),
    };
    if ps.iter().any(|p| p.id == 0x25 && p.val == [0]) {
        vs::reach("not available");
        return;
    }
    let mut m = publish(q as u8, 3, b"t", &[], &vs::bytes(1));
    m[0] |= 1;
    p.send(&m);
    sim::run();
    let mut s = enter("s");
    s.send(&subscribe(1, &[(b"t", 2)]));
    sim::run();
    let f = s.frames();
    vs::reach("available");
    vs::check(f.iter().any(|f| f.kind() == 3 && f.head & 1 == 1), "a retained message was not delivered to a later subscriber");
}
/// Messages with an expiry interval that wait for a client that is away (or does not read): any interval, any waiting time.
/// what 0, 1: away, QoS 1 and 2; 3, 4: not reading, QoS 0 and 1
pub fn b_stale(what: u64) {
    start(Config { session_expiry: secs(u32::MAX as u64), max_keep_alive: secs(65535), default_keep_alive: secs(0), ..Default::default() });
    let mut p = Cl::dial();
    p.send(&connect(&Con { keep: 0, ..con("p") }));
    p.one(2, "no CONNACK, or more than one, for a CONNECT");
    let back = Con { keep: 0, ..keep("s", u32::MAX) };
    let (mut s, _) = join(&back);
    let q = if what == 1 { 2 } else if what == 3 { 0 } else { 1 };
    sub(&mut s, 1, &[(b"t", q)]);
    let ivl = vs::u32();
    let wait = vs::u32();
    vs::assume(wait < u32::MAX);
    let expiry = cat(&[&[2], &w32(ivl)]);
    let read = |f: &Frame| {
        let m = unpub(f);
        let e = m.props.iter().find(|p| p.id == 2).map(|p| u32::from_be_bytes([p.val[0], p.val[1], p.val[2], p.val[3]]));
        (m, e)
    };
    if what < 3 {
        s.p.close();
        sim::run();
    } else {
        // the first message blocks the connection
        s.p.conn().window = 1;
        p.send(&publish(0, 0, b"t", &[], b"0"));
        sim::run();
    }
    p.send(&publish(q, 3, b"t", &expiry, b"1"));
    p.send(&publish(q, 4, b"t", &[], b"2"));
    sim::run();
    p.frames();
    sim::elapse(secs(wait as u64));
    if what < 3 {
        s = Cl::dial();
        s.send(&connect(&back));
        sim::run();
    }
    s.p.conn().window = usize::MAX;
    let mut f = s.frames();
    sim::run();
    f.extend(s.frames());
    vs::check(f.len() >= 2, "a message without expiry interval was not delivered");
    if what < 3 {
        vs::check(f[0].kind() == 2 && f[0].body[..2] == [1, 0], "the session was not resumed");
    }
    let (last, e) = read(&f[f.len() - 1]);
    vs::check(last.payload == b"2" && e.is_none(), "a message without expiry interval was not delivered");
    // the broker counts whole seconds: an interval of zero lets a message be delivered within the first
    if wait >= ivl.max(1) {
        vs::reach("expired");
        vs::check(f.len() == 2, "a message was delivered after it had expired");
    } else {
        vs::reach("in time");
        vs::check(f.len() == 3, "a message was not delivered although it had not expired");
        let (m, e) = read(&f[1]);
        vs::check(m.payload == b"1" && m.qos == q, "the message delivered is not the one that was published");
        vs::check(e == Some(ivl - wait), "the message expiry interval was not reduced by the time the message waited");
    }
    // the identifiers of what was discarded are free, the others are still to be acknowledged
    if what < 3 {
        s.p.close();
        sim::run();
        let mut c = Cl::dial();
        c.send(&connect(&back));
        sim::run();
        vs::check(c.frames().len() == f.len(), "not exactly the unacknowledged messages were delivered again");
    }
}
/// Packets following a refused CONNECT have no effect either.
pub fn b_refused(k: u64) {
    let mut g = cfg();
    g.max_active_sessions = Some(1);
    start(g);
    let mut o = enter("o");
    sub(&mut o, 1, &[(b"#", 1)]);
    let mut x = Cl::dial();
    let mut w = connect(&con("x"));
    match k {
        0 => w.extend_from_slice(&publish(1, 1, &vs::bytes(1), &[], b"!")),
        1 => w.extend_from_slice(&subscribe(2, &[(b"#", 0)])),
        2 => w.extend_from_slice(&[0xe0, 0]),
        _ => w.extend_from_slice(&connect(&con("o"))),
    }
    x.send(&w);
    sim::run();
    let f = x.frames();
    vs::check(!f.is_empty() && f[0].kind() == 2 && f[0].body[..2] == [0, 0x97], "a CONNECT beyond the session limit was not refused with Quota exceeded");
    for g in &f[1..] {
        vs::check(g.kind() == 14, "a packet after a refused CONNECT was acted upon");
    }
    vs::check(x.p.closed_by_sut(), "the connection of a refused CONNECT was not closed");
    if k < 3 {
        o.none("a packet after a refused CONNECT was acted upon");
        o.send(&publish(0, 0, b"t", &[], b"z"));
        o.one(3, "a message was not delivered exactly once to a matching subscription");
    }
    vs::reach("refused");
}

/// CONNACK: negotiated values.
pub fn b_connack(dmin: u64, dmax: u64, maxexp: u64, kind: u64) {
    let g = Config { default_keep_alive: secs(dmin), max_keep_alive: secs(dmax), session_expiry: secs(maxexp), ..Default::default() };
    start(g);
    let keep = vs::u16();
    let exp = vs::u32();
    let with_exp = kind & 1 != 0;
    let anon = kind & 2 != 0;
    let mut c = con(if anon { "" } else { "id" });
    c.keep = keep;
    c.resume = vs::flip();
    if with_exp {
        c.props = cat(&[&[0x11], &w32(exp)]);
    }
    let (mut k, f) = join(&c);
    let (ps, used) = match parse_props(&f.body[2..]) {
        Some(x) => x,
        None => vs::fail("malformed CONNACK"),
    };
    vs::check(2 + used == f.body.len(), "malformed CONNACK");
    vs::check(f.body[0] == 0, "session present without a session");
    let get = |id: u8| {
        let v: Vec<&Prop> = ps.iter().filter(|p| p.id == id).collect();
        vs::check(v.len() < 2, "a property is in the CONNACK twice");
        v.first().map(|p| p.val.clone())
    };
    let eff = match get(0x13) {
        Some(v) => {
            vs::reach("server keep alive");
            u16::from_be_bytes([v[0], v[1]])
        }
        None => keep,
    };
    let most = |v: u64| v.min(65535) as u16;
    let want = if keep < most(dmin) { most(dmin) } else if keep > most(dmax) { most(dmax) } else { keep };
    vs::check(eff == want, "the keep alive the client is told to use is not within the configured bounds");
    match get(0x11) {
        Some(v) => {
            vs::reach("server session expiry");
            let v = u32::from_be_bytes([v[0], v[1], v[2], v[3]]);
            let asked = if with_exp { exp } else { 0 };
            vs::check(v as u64 == (asked as u64).min(maxexp), "the session expiry told to the client is not the requested one bounded by the configured maximum");
        }
        None => vs::check(!with_exp || exp as u64 <= maxexp, "the client is not told that its session expires earlier than requested"),
    }
    match get(0x12) {
        Some(v) => {
            vs::reach("assigned id");
            vs::check(anon && v.len() > 2, "a client identifier was assigned to a client that has one");
            // it is usable: subscriptions are those of this session, and another anonymous client gets another one
            let (mut k2, f2) = join(&con(""));
            let (ps2, _) = match parse_props(&f2.body[2..]) {
                Some(x) => x,
                None => vs::fail("malformed CONNACK"),
            };
            let v2 = ps2.iter().find(|p| p.id == 0x12).map(|p| p.val.clone());
            vs::check(v2.is_some_and(|x| x != v), "two clients were assigned the same client identifier");
            sub(&mut k, 1, &[(b"t", 0)]);
            k2.send(&publish(0, 0, b"t", &[], b"z"));
            k.one(3, "a message was not delivered exactly once to a matching subscription");
            k2.none("a message was delivered to a client without a subscription");
            vs::check(!k.p.closed_by_sut(), "a connection was closed");
        }
        None => vs::check(!anon, "no client identifier was assigned"),
    }
}

/// The limit on active sessions over a history of `n` events with three client ids.
pub fn b_cap(limit: u64, n: u64) {
    let mut g = cfg();
    // any limit at all
    let limit = if limit == 9 { vs::u32() } else { limit as u32 };
    g.max_active_sessions = Some(limit);
    start(g);
    let mut live: Vec<Option<Cl>> = vec![None, None, None];
    for _ in 0..n {
        let k = vs::choice(3) as usize;
        let id = ["x", "y", "z"][k];
        match vs::choice(4) {
            w @ (0 | 1) => {
                let active = live.iter().filter(|c| c.is_some()).count() as u32;
                let c = if w == 0 { con(id) } else { keep(id, 100) };
                let mut q = Cl::dial();
                q.send(&connect(&c));
                let f = q.one(2, "no CONNACK, or more than one, for a CONNECT");
                if live[k].is_none() && active >= limit {
                    vs::check(f.body[1] == 0x97, "a CONNECT beyond the session limit was not refused with Quota exceeded");
                    vs::check(q.p.closed_by_sut(), "the connection of a refused CONNECT was not closed");
                    vs::reach("refused");
                } else {
                    vs::check(f.body[1] == 0, "a CONNECT within the session limit was refused");
                    if let Some(mut old) = live[k].take() {
                        let d = old.one(14, "the previous connection got no DISCONNECT");
                        vs::check(d.body[0] == 0x8e && old.p.closed_by_sut(), "the previous connection was not closed as taken over");
                        vs::reach("taken over");
                        if vs::flip() {
                            old.p.close();
                            sim::run();
                        }
                    }
                    live[k] = Some(q);
                }
            }
            w => {
                if let Some(mut c) = live[k].take() {
                    end(&mut c, if w == 2 { 0 } else { 1 + vs::choice(2) * 3 });
                    c.frames();
                }
            }
        }
        for c in live.iter_mut().flatten() {
            c.send(&[0xc0, 0]);
            c.one(13, "a live connection is not served");
        }
    }
}

/// Taking a session over, with the old connection doing something at the same time.
pub fn b_takeover(act: u64, budget: u64) {
    start(cfg());
    let mut p = enter("p");
    let clean = vs::flip();
    // 1: the session ends with the connection that is taken over
    // 3: there is a will message (published for nobody)
    let how = if budget != 2 { vs::choice(4) } else { 0 };
    let fresh = clean || how == 1;
    let will = (how == 3).then(|| (0, vec![], b"w".to_vec(), vec![vs::u8()]));
    let (mut a, _) = join(&Con { will, ..if how == 1 { con("x") } else { keep("x", 100) } });
    sub(&mut a, 1, &[(b"t", 1)]);
    sub(&mut p, 1, &[(b"r", 0)]);
    let mut c = if how == 2 { con("x") } else { keep("x", 100) };
    c.resume = !clean;
    sim::set_budget(sim::Why::Task, budget as usize);
    sim::set_budget(sim::Why::Select, budget as usize);
    let mut b = Cl::dial();
    let before = vs::flip();
    if !before {
        b.send(&connect(&c));
    }
    match act {
        0 => {}
        1 => a.p.close(),
        2 => a.send(&[0xe0, 0]),
        3 => a.send(&[0xc0, 0]),
        4 => a.send(&vs::bytes(3)),
        5 => a.p.fail_reads(std::io::ErrorKind::ConnectionReset),
        6 => a.p.fail_writes(std::io::ErrorKind::BrokenPipe),
        7 => a.p.conn().window = 0,
        _ => a.send(&publish(0, 0, b"r", &[], b"r")),
    }
    if before {
        b.send(&connect(&c));
    }
    sim::run();
    let f = b.frames();
    vs::check(f.len() == 1 && f[0].kind() == 2 && f[0].body[1] == 0, "a CONNECT taking a session over was not accepted");
    vs::check(!fresh || f[0].body[0] == 0, "session present although a clean start was requested, or the session ended with its connection");
    vs::check(fresh || f[0].body[0] == 1, "the session was not resumed");
    let mut left = 0;
    if act == 7 {
        a.p.conn().window = usize::MAX;
        a.p.recv();
        sim::run();
    }
    for g in a.frames() {
        if g.kind() == 14 && act != 4 {
            vs::check(g.body[0] == 0x8e, "the previous connection was not disconnected as taken over");
            left += 1;
            vs::reach("taken over");
        }
    }
    vs::check(left <= 1, "the previous connection was disconnected twice");
    if act == 0 {
        vs::check(left == 1, "the previous connection got no DISCONNECT");
    }
    vs::check(a.p.closed_by_sut(), "the previous connection was not closed");
    // whatever the previous connection does now is without effect
    p.frames();
    match vs::choice(3) {
        0 => a.p.close(),
        1 => a.send(&publish(0, 0, b"r", &[], b"r")),
        _ => {}
    }
    sim::run();
    p.none("a connection that was taken over still publishes");
    p.send(&publish(1, 7, b"t", &[], b"m"));
    p.one(4, "no PUBACK, or more than one, for a QoS 1 PUBLISH");
    if fresh {
        b.none("subscriptions of a discarded session are still in force");
    } else {
        let m = unpub(&b.one(3, "a message was not delivered exactly once to the connection that owns the session"));
        vs::check(m.payload == b"m", "the message was delivered with another payload");
    }
    vs::check(a.frames().is_empty(), "something was sent on a connection that was taken over");
    sub(&mut b, 4, &[(b"u", 0)]);
    p.send(&publish(0, 0, b"u", &[], b"n"));
    b.one(3, "a message was not delivered exactly once to the connection that owns the session");
    vs::check(!b.p.closed_by_sut() && !p.p.closed_by_sut(), "a connection was closed");
}

/// Will messages: published exactly once unless the client disconnects normally.
pub fn b_will(how: u64, sel: u64, delay: u64) {
    let mut g = cfg();
    g.max_keep_alive = secs(30);
    start(g);
    let mut o = enter("o");
    let wq = vs::choice(if sel & 256 != 0 { 3 } else { 2 }) as u8;
    let oq = vs::choice(3) as u8;
    let rap = vs::flip();
    sub(&mut o, 1, &[(b"w/#", oq | (rap as u8) << 3)]);
    let mut x = keep("x", 300);
    // an earlier connection, with another will message or none, that this one succeeds or takes over
    let mut early = None;
    let past = if sel < 64 { vs::choice(4) } else { 0 };
    if past > 0 {
        let mut e = x.clone();
        if past != 2 {
            e.will = Some((1 << 3, cat(&[&[0x18], &w32(60)]), b"w/0".to_vec(), b"old".to_vec()));
        }
        let (c, _) = join(&e);
        if past < 3 {
            c.send(&[0xe0, 1, 4]);
            sim::run();
        }
        early = Some(c);
    }
    let ps = msg_props(sel);
    let mut wp = flat(&ps);
    if delay > 0 {
        wp.extend_from_slice(&cat(&[&[0x18], &w32(delay as u32)]));
    }
    let payload = vs::bytes(2);
    let retain = vs::bit();
    x.will = Some((wq << 3 | (retain as u8) << 5, wp, b"w/1".to_vec(), payload.clone()));
    let (mut c, _) = join(&x);
    sim::run();
    drop(early);
    o.none("a will message was published while its client was connected");
    // the client is alive for a while
    if vs::flip() {
        c.send(&[0xc0, 0]);
        c.one(13, "PINGREQ was not answered");
        o.none("a will message was published while its client was connected");
    }
    let pinged = |o: &mut Cl, d: u64| {
        // passes time, keeping the observer alive
        let mut d = d;
        let mut f = vec![];
        while d > 0 {
            let k = d.min(20);
            sim::elapse(secs(k));
            f.extend(o.frames());
            o.send(&[0xc0, 0]);
            d -= k;
        }
        sim::run();
        f.extend(o.frames());
        f.retain(|f| f.kind() != 13);
        f
    };
    let mut got = vec![];
    if how == 5 {
        got.extend(pinged(&mut o, 29));
        vs::check(got.is_empty() && !c.p.closed_by_sut(), "the keep alive expired too early");
        got.extend(pinged(&mut o, 16));
        vs::check(c.p.closed_by_sut(), "the connection of a silent client was not closed");
    } else if how == 8 {
        // the connection fails while something is sent to the client
        let p = enter("p");
        sub(&mut c, 1, &[(b"t", 0)]);
        c.p.fail_writes(std::io::ErrorKind::BrokenPipe);
        p.send(&publish(0, 0, b"t", &[], b"x"));
        sim::run();
    } else {
        end(&mut c, how);
    }
    sim::run();
    got.extend(o.frames());
    let due = how != 0;
    if delay > 0 {
        vs::check(got.is_empty() || how == 5, "a will message was published before its delay had passed");
        if how != 5 {
            got.extend(pinged(&mut o, delay - 1));
            vs::check(got.is_empty(), "a will message was published before its delay had passed");
            if vs::flip() {
                // the session is resumed in time: no will
                let (mut c2, _) = join(&keep("x", 300));
                got.extend(pinged(&mut o, 25));
                vs::check(got.is_empty(), "a will message was published although its client came back in time");
                c2.frames();
                vs::reach("cancelled");
                return;
            }
        }
        got.extend(pinged(&mut o, if how == 5 { delay } else { 21 }));
    }
    if !due {
        vs::check(got.is_empty(), "a will message was published although its client disconnected normally");
        vs::reach("discarded");
        return;
    }
    vs::check(got.len() == 1, "a will message was not published exactly once");
    let m = unpub(&got[0]);
    vs::check(m.topic == b"w/1" && vs::same(&m.payload, &payload), "the will message published is not the one the client left");
    vs::check(m.qos == wq.min(oq) && !m.dup && m.retain == (rap && retain), "the will message was published with other flags");
    vs::check(same_props(&m.props, &ps), "the properties of the will message were changed");
    vs::reach("published");
    let late = pinged(&mut o, 25);
    vs::check(late.is_empty(), "a will message was published twice");
    if m.qos > 0 {
        vs::check(m.id != 0, "the packet identifier is zero");
    }
}

/// Keep alive: a silent client is disconnected between 1 and 1.5 times the interval, one that sends in time is not.
pub fn b_keep(keep: u64, busy: u64) {
    start(cfg());
    let mut c = con("k");
    c.keep = keep as u16;
    let (mut k, _) = join(&c);
    let mut p = enter("p");
    sub(&mut k, 1, &[(b"t", 0)]);
    let eff = keep.clamp(30, 120);
    // sends something every so often, always in time
    let gap = eff * 1000 - vs::choice(3) * 997;
    let n = vs::choice(3);
    let wait = |p: &mut Cl, ms: u64| {
        // time passes; the other client stays alive and, if asked to, keeps sending to this one
        let mut left = ms;
        while left > 0 {
            let d = left.min(25_000);
            sim::elapse(Duration::from_millis(d));
            left -= d;
            p.send(&[0xc0, 0]);
            if busy > 0 {
                p.send(&publish(0, 0, b"t", &[], b"x"));
            }
            sim::run();
            p.frames();
        }
    };
    for _ in 0..n {
        wait(&mut p, gap);
        vs::check(!k.p.closed_by_sut(), "a client that sends in time was disconnected");
        match vs::choice(3) {
            0 => k.send(&[0xc0, 0]),
            1 => k.send(&publish(0, 0, b"u", &[], b"x")),
            _ => k.send(&publish(1, 3, b"u", &[], b"x")),
        }
        sim::run();
        k.frames();
    }
    wait(&mut p, eff * 1000 - 1);
    vs::check(!k.p.closed_by_sut(), "a client that sends in time was disconnected");
    k.frames();
    wait(&mut p, eff * 500 + 2);
    vs::check(k.p.closed_by_sut(), "the connection of a silent client was not closed");
    let f = k.frames();
    vs::check(f.iter().filter(|x| x.kind() == 14).count() <= 1, "a client was disconnected twice");
    if let Some(d) = f.iter().find(|x| x.kind() == 14) {
        vs::check(d.body[0] == 0x8d, "a silent client was disconnected with another reason than Keep Alive timeout");
        vs::reach("timed out");
    }
    // its session is no longer active
    let (_, f) = join(&c);
    vs::check(f.body[0] == 0, "session present although a clean start was requested");
}

/// One client sends arbitrary bytes; the others are served as if nothing had happened.
pub fn b_hostile(t: u64, n: u64, pre: u64) {
    start(cfg());
    let mut o = enter("the observer of it all");
    let mut p = enter("the publisher of it all");
    sub(&mut o, 1, &[(b"ok/1", 1)]);
    let mut x = if pre == 0 { enter("x") } else { Cl::dial() };
    let mut b = vs::bytes(n as usize);
    let fl = vs::u8() & 15;
    b.insert(0, n as u8);
    b.insert(0, (t as u8) << 4 | fl);
    x.send(&b);
    sim::run();
    x.frames();
    p.send(&publish(1, 3, b"ok/1", &[], b"z"));
    p.one(4, "no PUBACK, or more than one, for a QoS 1 PUBLISH");
    let m = unpub(&o.one(3, "a message was not delivered exactly once to a matching subscription"));
    vs::check(m.payload == b"z", "the message was delivered with another payload");
    x.p.close();
    sim::run();
    p.send(&publish(0, 0, b"ok/1", &[], b"y"));
    o.one(3, "a message was not delivered exactly once to a matching subscription");
    p.none("a client was sent something unasked");
    vs::check(!o.p.closed_by_sut() && !p.p.closed_by_sut(), "a connection was closed");
    let mut q = enter("q");
    q.send(&[0xc0, 0]);
    q.one(13, "a live connection is not served");
    vs::check(!sim::spinning(), "the broker is busy although there is nothing to do");
    vs::reach("unharmed");
}
/// A subscriber that does not read, up to any number of messages: nobody else is held up, and it is not kept forever.
pub fn b_slow(n: u64, size: u64) {
    let mut g = cfg();
    g.session_channel_size = size as usize;
    start(g);
    let mut o = enter("o");
    let mut p = enter("p");
    let mut x = enter("x");
    let xq = vs::choice(2) as u8;
    sub(&mut x, 1, &[(b"t", xq)]);
    sub(&mut o, 1, &[(b"t", 0)]);
    x.p.conn().window = vs::choice(3) as usize * 4;
    let pq = vs::choice(2) as u8;
    for i in 0..n as u8 {
        p.send(&publish(pq, 9, b"t", &[], &[i]));
        sim::run();
        let f = o.frames();
        vs::check(f.len() == 1 && unpub(&f[0]).payload == [i], "a subscriber that does not read holds up another one");
        vs::check(p.frames().len() == pq as usize, "a subscriber that does not read holds up the publisher");
    }
    // the same client may come back
    let (mut y, _) = join(&con("x"));
    y.send(&[0xc0, 0]);
    y.one(13, "a live connection is not served");
    let q = enter("q");
    q.send(&publish(0, 0, b"t", &[], b"q"));
    o.one(3, "a message was not delivered exactly once to a matching subscription");
    // when it reads again, what it gets is a prefix of what was sent, and if that is not everything it is disconnected
    let mut got = vec![];
    x.p.conn().window = usize::MAX;
    for _ in 0..3 {
        got.extend(x.frames());
        sim::run();
    }
    got.extend(x.frames());
    let mut k = 0;
    for f in &got {
        if f.kind() == 3 {
            vs::check(unpub(f).payload == [k as u8], "messages were reordered, lost or duplicated on the way to a slow subscriber");
            k += 1;
        }
    }
    vs::check(k <= n, "messages were duplicated on the way to a slow subscriber");
    vs::check(x.p.closed_by_sut(), "the previous connection was not closed");
    if k < n {
        vs::reach("overrun");
    } else {
        vs::reach("all delivered");
    }
}
/// A slow subscriber that overruns its queue is disconnected once it reads again.
pub fn b_overrun(n: u64, size: u64) {
    let mut g = cfg();
    g.session_channel_size = size as usize;
    start(g);
    let p = enter("p");
    let (mut x, _) = join(&keep("x", 100));
    sub(&mut x, 1, &[(b"t", 1)]);
    x.p.conn().window = 0;
    for i in 0..n as u8 {
        p.send(&publish(1, 9, b"t", &[], &[i]));
        sim::run();
    }
    x.p.conn().window = usize::MAX;
    let mut got = vec![];
    for _ in 0..3 {
        got.extend(x.frames());
        sim::run();
    }
    got.extend(x.frames());
    let pubs: Vec<Pub> = got.iter().filter(|f| f.kind() == 3).map(unpub).collect();
    let mut open = vec![];
    for (k, m) in pubs.iter().enumerate() {
        vs::check(m.payload == [k as u8], "messages were reordered, lost or duplicated on the way to a slow subscriber");
        open.push(m.id);
    }
    if (pubs.len() as u64) < n {
        vs::reach("overrun");
        vs::check(x.p.closed_by_sut(), "a subscriber that lost messages was not disconnected");
        let d: Vec<&Frame> = got.iter().filter(|f| f.kind() == 14).collect();
        vs::check(d.len() == 1 && d[0].body[0] == 0x97, "a subscriber that lost messages was not told Quota exceeded");
    } else {
        vs::reach("all delivered");
        vs::check(!x.p.closed_by_sut(), "a subscriber within its queue size was disconnected");
        x.p.close();
        sim::run();
    }
    // nothing is lost: all of them are unacknowledged, so all come again
    let mut y = Cl::dial();
    y.send(&connect(&keep("x", 100)));
    sim::run();
    let f = y.frames();
    vs::check(f.len() as u64 == 1 + n && f[0].body[..2] == [1, 0], "messages for a slow subscriber were lost");
    for (k, g) in f[1..].iter().enumerate() {
        vs::check(unpub(g).payload == [k as u8], "messages for a slow subscriber were lost");
    }
}

/// QoS 2: each message exactly once, through the four-packet handshake.
pub fn b_qos2(dir: u64) {
    start(cfg());
    let mut s = enter("s");
    let mut p = enter("p");
    sub(&mut s, 1, &[(b"t", 2)]);
    let id = vs::u16();
    vs::assume(id != 0);
    let m = publish(2, id, b"t", &[], b"x");
    p.send(&m);
    sim::run();
    let got = s.frames();
    vs::check(got.len() == 1, "a message was not delivered exactly once to a matching subscription");
    let d = unpub(&got[0]);
    vs::check(d.qos == 2 && d.payload == b"x" && d.id != 0, "the message delivered is not the one published");
    vs::reach("delivered");
    if dir == 0 {
        let f = p.frames();
        vs::check(f.len() == 1 && f[0].kind() == 5 && f[0].body[..2] == w16(id), "no PUBREC for a QoS 2 PUBLISH");
        let mut again = m.clone();
        again[0] |= 8;
        p.send(&again);
        p.one(5, "no PUBREC for a repeated QoS 2 PUBLISH");
        s.none("a QoS 2 message was delivered twice");
        p.send(&packet(0x62, &[&w16(id)]));
        p.one(7, "no PUBCOMP for a PUBREL");
    } else {
        s.send(&packet(0x50, &[&w16(d.id)]));
        sim::run();
        let f = s.frames();
        vs::check(f.len() == 1 && f[0].kind() == 6 && f[0].body[..2] == w16(d.id), "no PUBREL for a PUBREC");
        s.send(&packet(0x70, &[&w16(d.id)]));
        s.none("a PUBCOMP was answered");
    }
}
/// Messages for a client that is away but whose session is kept.
pub fn b_offline(q: u64) {
    start(cfg());
    let p = enter("p");
    let (mut s, _) = join(&keep("s", 300));
    sub(&mut s, 1, &[(b"t", 1)]);
    s.p.close();
    sim::run();
    p.send(&publish(q as u8, 3, b"t", &[], b"x"));
    sim::run();
    let mut s = Cl::dial();
    s.send(&connect(&keep("s", 300)));
    sim::run();
    let f = s.frames();
    vs::check(!f.is_empty() && f[0].kind() == 2 && f[0].body[..2] == [1, 0], "the session was not resumed");
    if q > 0 {
        vs::check(f.len() == 2, "a message published while the client was away was not delivered when it came back");
        vs::check(unpub(&f[1]).payload == b"x", "the message was delivered with another payload");
    }
    vs::reach("resumed");
}
/// A session resumed while messages for it are published: each of `n` messages is published before
/// the connection ends, while the client is away, or when it is about to return. `slow`: the client
/// does not read at once, so that sending CONNACK takes a while.
pub fn b_back(n: u64, budget: u64, slow: u64) {
    start(cfg());
    let p = enter("p");
    let (mut s, _) = join(&keep("s", 300));
    sub(&mut s, 1, &[(b"t", 1)]);
    let mut slot = 0;
    // payload, sent before, identifier
    let mut owed: Vec<(u8, bool)> = vec![];
    let mut s2 = None;
    for i in 0..n as u8 {
        let to = slot + vs::choice(3 - slot);
        while slot < to {
            slot += 1;
            if slot == 1 {
                s.frames();
                s.p.close();
                sim::run();
            } else {
                sim::set_budget(sim::Why::Task, budget as usize);
                sim::set_budget(sim::Why::Select, budget as usize);
                let mut c = Cl::dial();
                if slow > 0 {
                    c.p.conn().window = slow as usize;
                }
                c.send(&connect(&keep("s", 300)));
                if slow > 0 {
                    sim::run();
                }
                s2 = Some(c);
            }
        }
        p.send(&publish(1, 3 + i as u16, b"t", &[], &[i]));
        if slot == 2 {
            owed.push((i, false));
            continue;
        }
        sim::run();
        if slot == 1 {
            owed.push((i, false));
            continue;
        }
        let m = unpub(&s.one(3, "a message was not delivered exactly once to a matching subscription"));
        vs::check(m.payload == [i] && !m.dup, "the message delivered is not the one that was published");
        if vs::flip() {
            s.send(&packet(0x40, &[&w16(m.id)]));
            sim::run();
        } else {
            owed.push((i, true));
        }
    }
    let mut c = match s2 {
        Some(c) => c,
        None => {
            if slot == 0 {
                s.p.close();
                sim::run();
            }
            let c = Cl::dial();
            c.send(&connect(&keep("s", 300)));
            c
        }
    };
    sim::run();
    c.p.conn().window = usize::MAX;
    let mut f = c.frames();
    sim::run();
    f.extend(c.frames());
    vs::check(!f.is_empty() && f[0].kind() == 2 && f[0].body[..2] == [1, 0], "the session was not resumed");
    vs::check(f.len() == 1 + owed.len(), "not exactly the unacknowledged messages, and those published since, were delivered");
    let ms: Vec<Pub> = f[1..].iter().map(unpub).collect();
    for (m, (i, sent)) in ms.iter().zip(&owed) {
        vs::check(m.payload == [*i] && m.qos == 1, "the messages were delivered in another order");
        vs::check(m.dup || !*sent, "a message was delivered again without the duplicate flag");
        vs::check(!m.dup || *sent, "a message was delivered for the first time with the duplicate flag");
        vs::check(m.id != 0 && ms.iter().filter(|o| o.id == m.id).count() == 1, "a packet identifier is used twice");
        c.send(&packet(0x40, &[&w16(m.id)]));
    }
    vs::reach("resumed");
    c.p.close();
    sim::run();
    let mut c = Cl::dial();
    c.send(&connect(&keep("s", 300)));
    sim::run();
    vs::check(c.frames().len() == 1, "acknowledged messages were delivered again");
}
/// The limits a client announces in CONNECT.
pub fn b_limits(what: u64) {
    start(cfg());
    let p = enter("p");
    let mut c = con("s");
    c.props = if what == 0 { vec![0x21, 0, 1] } else { vec![0x27, 0, 0, 0, 20] };
    let (mut s, _) = join(&c);
    sub(&mut s, 1, &[(b"t", 1)]);
    for i in 0..2u8 {
        p.send(&publish(1, 3, b"t", &[], &vec![i; if what == 0 { 1 } else { 30 }]));
        sim::run();
    }
    let f = s.frames();
    vs::reach("sent");
    if what == 0 {
        vs::check(f.len() <= 1, "more unacknowledged messages were sent than the client's Receive Maximum");
    } else {
        vs::check(f.is_empty(), "a packet larger than the client's Maximum Packet Size was sent");
    }
}

/// Two clients with arbitrary identifiers: one session when they are equal, and otherwise nothing in common.
pub fn b_pair(na: u64, nb: u64) {
    start(cfg());
    let (a, b) = (vs::ascii(na as usize).into_bytes(), vs::ascii(nb as usize).into_bytes());
    let same = na == nb && vs::same(&a, &b);
    let c = |id: &[u8], resume: bool| Con { id: id.to_vec(), ..if resume { keep("", 100) } else { con("") } };
    let (mut x, _) = join(&c(&a, true));
    // No Local
    sub(&mut x, 1, &[(b"t", 4), (b"w", 5)]);
    let resume = vs::flip();
    let mut c2 = c(&b, resume);
    c2.will = Some((8, vec![], b"w".to_vec(), b"gone".to_vec()));
    let (mut y, f) = join(&c2);
    vs::check((f.body[0] & 1 == 1) == (same && resume), "session present does not tell whether the session was resumed");
    if same {
        vs::reach("the same");
        let d = x.one(14, "the previous connection got no DISCONNECT");
        vs::check(d.body[0] == 0x8e && x.p.closed_by_sut(), "the previous connection was not closed as taken over");
        y.send(&publish(0, 0, b"t", &[], b"own"));
        y.none("a message was delivered to its publisher in spite of No Local");
        let mut z = enter("0123456");
        z.send(&publish(0, 0, b"t", &[], b"m"));
        sim::run();
        vs::check(y.frames().len() == resume as usize, "a resumed session lost its subscriptions, or a fresh one has some");
        return;
    }
    vs::reach("different");
    x.send(&publish(0, 0, b"t", &[], b"own"));
    x.none("a message was delivered to its publisher in spite of No Local");
    y.send(&publish(0, 0, b"t", &[], b"1"));
    let m = unpub(&x.one(3, "a message of another client was not delivered in spite of a matching subscription"));
    vs::check(m.payload == b"1", "the message was changed");
    y.none("a message was delivered to a client without subscription");
    // the end of one session does not touch the other
    y.p.close();
    let m = unpub(&x.one(3, "the will message of another client was not delivered"));
    vs::check(m.payload == b"gone" && m.qos == 1, "the will message was changed");
    let (mut y, _) = join(&c(&b, false));
    x.send(&[0xc0, 0]);
    x.one(13, "a client is disturbed by the end of another session");
    y.send(&publish(0, 0, b"t", &[], b"2"));
    let m = unpub(&x.one(3, "a subscription was lost with another session"));
    vs::check(m.payload == b"2", "the message was changed");
}

/// The expiry of a session: any interval asked for, any maximum, any time away.
/// `how` 8 and 9: the DISCONNECT says another one.
pub fn b_expiry(how: u64, asked: u64) {
    let most = vs::u32();
    start(Config { session_expiry: secs(most as u64), ..cfg() });
    let mut c = con("s");
    c.resume = vs::flip();
    let e = if asked > 0 { vs::u32() } else { 0 };
    if asked > 0 {
        c.props = cat(&[&[0x11], &w32(e)]);
    }
    let (mut s, f) = join(&c);
    vs::check(f.body[0] == 0, "session present without a session");
    sub(&mut s, 1, &[(b"t", 1)]);
    // connected for a while
    let on = vs::u8();
    vs::assume(on < 90);
    sim::elapse(secs(on as u64));
    vs::check(!s.p.closed_by_sut(), "a connection was closed");
    let mut eff = e.min(most);
    if how >= 8 {
        let f = vs::u32();
        s.send(&cat(&[&[0xe0, 7, if how == 8 { 0 } else { 4 }, 5, 0x11], &w32(f)]));
        sim::run();
        vs::check(s.p.closed_by_sut(), "the connection was not closed");
        let end = s.frames();
        if e == 0 && f > 0 {
            vs::reach("not allowed");
            vs::check(end.len() == 1 && end[0].kind() == 14 && end[0].body[0] == 0x82, "a session expiry in DISCONNECT that is not allowed was not reported as a protocol error");
        } else {
            vs::reach("changed");
            vs::check(end.is_empty(), "something was sent after DISCONNECT");
            eff = f.min(most);
        }
    } else {
        end(&mut s, how);
    }
    let (t, ms) = (vs::u32(), vs::u16());
    vs::assume(ms < 1000);
    sim::elapse(Duration::new(t as u64, ms as u32 * 1_000_000));
    let (mut s, f) = join(&Con { resume: true, ..con("s") });
    let kept = f.body[0] & 1 == 1;
    if t < eff {
        vs::reach("kept");
        vs::check(kept, "a session is gone before its expiry interval has passed");
    }
    if t > eff || (t == eff && (ms > 0 || eff == 0)) {
        vs::reach("expired");
        vs::check(!kept, "a session was resumed after its expiry interval");
    }
    s.send(&publish(0, 0, b"t", &[], b"m"));
    sim::run();
    vs::check(s.frames().len() == kept as usize, "the subscriptions do not go with the session");
}

/// The moment a will message is published: any delay, any session expiry, any time away.
/// `back`: whether and how the client returns (1 resuming, 2 with clean start), 4 more: while it is still connected.
/// `by`: the connection is closed, fails, or ends with a DISCONNECT (2 with will message, 3 without) that says another expiry.
pub fn b_delay(back: u64, by: u64) {
    start(Config { default_keep_alive: secs(0), session_expiry: secs(u32::MAX as u64), ..cfg() });
    let still = |c: Con| Con { keep: 0, ..c };
    let mut o = join(&still(con("o"))).0;
    sub(&mut o, 1, &[(b"w", 0)]);
    let (delay, mut e) = (vs::u32(), vs::u32());
    let mut c = still(keep("s", e));
    c.will = Some((0, cat(&[&[0x18], &w32(delay)]), b"w".to_vec(), b"gone".to_vec()));
    let (mut s, _) = join(&c);
    // connected for a while, which does not count
    sim::elapse(secs(vs::u16() as u64));
    o.none("a will message was published while its client was connected");
    let again = |clean: bool| {
        let mut c = still(keep("s", 9));
        c.resume = !clean;
        join(&c)
    };
    if back >= 4 {
        // it is the first connection that is still there
        let clean = back == 6;
        let (_n, f) = again(clean);
        vs::check((f.body[0] & 1 == 1) == (!clean && e > 0), "session present does not tell whether the session was resumed");
        sim::run();
        let n = o.frames().len();
        if clean || e == 0 || delay == 0 {
            vs::reach("taken over, published");
            vs::check(n == 1, "the will message of a session that ended with a takeover was not published exactly once");
        } else {
            vs::reach("taken over, not published");
            vs::check(n == 0, "a will message was published although the client had returned");
        }
        sim::elapse(secs(1 << 33));
        o.none("a will message was published twice, or although the client had returned");
        return;
    }
    match by {
        0 => s.p.close(),
        1 => s.p.fail_reads(std::io::ErrorKind::ConnectionReset),
        _ => {
            let f = vs::u32();
            s.send(&cat(&[&[0xe0, 7, if by == 2 { 4 } else { 0 }, 5, 0x11], &w32(f)]));
            if e > 0 || f == 0 {
                e = f;
                if by == 3 {
                    sim::elapse(secs(1 << 33));
                    vs::reach("discarded");
                    return o.none("a will message was published although its client disconnected normally");
                }
            }
        }
    }
    sim::run();
    s.frames();
    // the will waits for its delay, but not longer than the session lasts
    let due = delay.min(e);
    let t = vs::u32();
    sim::elapse(secs(t as u64));
    let mut n = o.frames().len();
    if t < due {
        vs::reach("early");
        vs::check(n == 0, "a will message was published before its delay had passed");
    }
    if t > due || due == 0 {
        vs::reach("late");
        vs::check(n == 1, "a will message was not published exactly once when its delay had passed or its session ended");
    }
    let mut s2 = None;
    if back > 0 {
        let (c, f) = again(back == 2);
        if t < due {
            vs::check((f.body[0] & 1 == 1) == (back == 1), "session present does not tell whether the session was resumed");
        }
        sim::run();
        s2 = Some(c);
        if back == 2 {
            n += o.frames().len();
            vs::check(n == 1, "the will message of a session that ended with a clean start was not published exactly once");
        }
    }
    sim::elapse(secs(1 << 33));
    n += o.frames().len();
    if back == 1 && t < due {
        vs::check(n == 0, "a will message was published although the client had returned");
    } else if back != 1 || t != due {
        vs::check(n == 1, "a will message was not published exactly once");
    }
    drop(s2);
}

/// Keep alive: any interval, any bounds.
/// The interval has `bits` binary digits.
pub fn b_alive(busy: u64, bits: u64) {
    let (low, high) = (vs::u16(), vs::u16());
    vs::assume(low <= high);
    start(Config { default_keep_alive: secs(low as u64), max_keep_alive: secs(high as u64), ..cfg() });
    let keep = vs::u16();
    let eff = keep.max(low).min(high);
    vs::assume(eff as u64 >> bits == 0 && (bits == 0 || eff as u64 >> (bits - 1) == 1));
    let (mut k, _) = join(&Con { keep, ..con("k") });
    sub(&mut k, 1, &[(b"t", 0)]);
    let right = |since: Duration| match sim::next_timer() {
        None => vs::check(eff == 0, "a silent client is never disconnected"),
        Some(at) => {
            let ms = (at - since).as_millis() as u64;
            vs::check(eff > 0, "a client without keep alive is disconnected");
            vs::check(ms >= eff as u64 * 1000, "a client is disconnected within its keep alive interval");
            vs::check(ms <= eff as u64 * 1500, "a silent client is disconnected too late");
        }
    };
    right(sim::now());
    let t0 = sim::now();
    // another packet in time
    let x = vs::u16();
    vs::assume(x <= eff || eff == 0);
    sim::elapse(secs(x as u64));
    vs::check(!k.p.closed_by_sut(), "a client that sends in time was disconnected");
    let since = if busy == 0 {
        k.send(&[0xc0, 0]);
        sim::now()
    } else {
        // something is sent to it instead
        let mut p = enter("p");
        p.send(&publish(0, 0, b"t", &[], b"m"));
        sim::run();
        p.send(&[0xe0, 0]);
        t0
    };
    sim::run();
    vs::check(k.frames().len() == 1, "a client is not served");
    right(since);
    if let Some(at) = sim::next_timer() {
        let left = at - sim::now();
        sim::elapse(left);
        vs::check(k.p.closed_by_sut(), "the connection of a silent client was not closed");
        let d = k.one(14, "a silent client got no DISCONNECT");
        vs::check(d.body[0] == 0x8d, "a silent client was disconnected with another reason than Keep Alive timeout");
        vs::reach("timed out");
    } else {
        vs::reach("no keep alive");
    }
}
