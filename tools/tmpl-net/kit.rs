#![allow(dead_code)]
//! Real sockets on the loopback interface: a broker, hand-written clients, a hand-written server.
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::time::{Duration, Instant};

pub fn fail(what: &str) -> ! {
    eprintln!("FAIL: {what}");
    std::process::exit(1)
}
pub fn check(ok: bool, what: &str) {
    if !ok {
        fail(what)
    }
}
pub fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap()
}
/// A running broker; the runtime must be kept.
pub fn broker(mut cfg: vaux_broker::Config) -> (tokio::runtime::Runtime, SocketAddr) {
    let rt = rt();
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let at = l.local_addr().unwrap();
    drop(l);
    cfg.listen_addr = at;
    rt.block_on(async {
        let b = Box::leak(Box::new(vaux_broker::Broker::new_with_config(cfg)));
        b.run().await.unwrap_or_else(|_| fail("the broker does not start"));
    });
    (rt, at)
}
pub struct Raw {
    pub s: TcpStream,
    buf: Vec<u8>,
}
pub fn w16(n: u16) -> Vec<u8> {
    n.to_be_bytes().to_vec()
}
pub fn bin(b: &[u8]) -> Vec<u8> {
    [&w16(b.len() as u16)[..], b].concat()
}
pub fn packet(head: u8, parts: &[&[u8]]) -> Vec<u8> {
    let b = parts.concat();
    let mut v = vec![head];
    let mut n = b.len();
    loop {
        let d = (n % 128) as u8;
        n /= 128;
        v.push(if n > 0 { d | 128 } else { d });
        if n == 0 {
            break;
        }
    }
    v.extend(b);
    v
}
pub fn connect(id: &str, clean: bool, keep: u16, props: &[u8], will: Option<(&str, &str, u8)>) -> Vec<u8> {
    let mut fl = (clean as u8) << 1;
    let mut w = vec![];
    if let Some((t, m, f)) = will {
        fl |= 4 | f;
        w = [&[0][..], &bin(t.as_bytes()), &bin(m.as_bytes())].concat();
    }
    packet(0x10, &[&[0, 4], b"MQTT", &[5, fl], &w16(keep), &[props.len() as u8], props, &bin(id.as_bytes()), &w])
}
pub fn expiry(s: u32) -> Vec<u8> {
    [&[0x11][..], &s.to_be_bytes()].concat()
}
pub fn subscribe(id: u16, f: &str, opt: u8) -> Vec<u8> {
    packet(0x82, &[&w16(id), &[0], &bin(f.as_bytes()), &[opt]])
}
pub fn unsubscribe(id: u16, f: &str) -> Vec<u8> {
    packet(0xa2, &[&w16(id), &[0], &bin(f.as_bytes())])
}
pub fn publish(q: u8, id: u16, t: &str, props: &[u8], m: &str) -> Vec<u8> {
    let i = if q > 0 { w16(id) } else { vec![] };
    packet(0x30 | q << 1, &[&bin(t.as_bytes()), &i, &[props.len() as u8], props, m.as_bytes()])
}
#[derive(Debug, Clone)]
pub struct Pub {
    pub head: u8,
    pub topic: String,
    pub id: u16,
    pub props: Vec<u8>,
    pub payload: String,
}
pub fn unpub(p: &[u8]) -> Pub {
    check(p[0] >> 4 == 3, "not a PUBLISH");
    let b = &p[2..];
    let n = b[1] as usize;
    let mut at = 2 + n;
    let mut id = 0;
    if p[0] & 6 != 0 {
        id = u16::from_be_bytes([b[at], b[at + 1]]);
        at += 2;
    }
    let k = b[at] as usize;
    Pub {
        head: p[0],
        topic: String::from_utf8(b[2..2 + n].to_vec()).unwrap(),
        id,
        props: b[at + 1..at + 1 + k].to_vec(),
        payload: String::from_utf8(b[at + 1 + k..].to_vec()).unwrap(),
    }
}
impl Raw {
    pub fn on(s: TcpStream) -> Raw {
        s.set_nodelay(true).unwrap();
        Raw { s, buf: vec![] }
    }
    pub fn dial(at: SocketAddr) -> Raw {
        Raw::on(TcpStream::connect(at).unwrap())
    }
    /// Connected; and the CONNACK.
    pub fn join(at: SocketAddr, id: &str, clean: bool, keep: u16, props: &[u8]) -> (Raw, Vec<u8>) {
        let mut r = Raw::dial(at);
        r.send(&connect(id, clean, keep, props, None));
        let a = r.get("CONNACK");
        check(a[0] == 0x20 && a[3] == 0, "CONNECT was refused");
        (r, a)
    }
    pub fn send(&mut self, b: &[u8]) {
        let _ = self.s.write_all(b);
    }
    /// The next packet within `ms`; Ok(None): the connection has ended; Err: nothing comes.
    pub fn read(&mut self, ms: u64) -> Result<Option<Vec<u8>>, ()> {
        let end = Instant::now() + Duration::from_millis(ms);
        loop {
            let mut n = 0;
            let mut k = 1;
            let mut sh = 0;
            while k < self.buf.len() {
                n |= ((self.buf[k] & 127) as usize) << sh;
                sh += 7;
                k += 1;
                if self.buf[k - 1] < 128 {
                    if self.buf.len() >= k + n {
                        return Ok(Some(self.buf.drain(..k + n).collect()));
                    }
                    break;
                }
            }
            let left = end.saturating_duration_since(Instant::now());
            if left.is_zero() {
                return Err(());
            }
            self.s.set_read_timeout(Some(left)).unwrap();
            let mut b = [0; 4096];
            match self.s.read(&mut b) {
                Ok(0) => return Ok(None),
                Ok(n) => self.buf.extend(&b[..n]),
                Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => return Err(()),
                Err(_) => return Ok(None),
            }
        }
    }
    pub fn get(&mut self, what: &str) -> Vec<u8> {
        match self.read(5000) {
            Ok(Some(p)) => p,
            Ok(None) => fail(&format!("the connection ended instead of: {what}")),
            Err(()) => fail(&format!("missing: {what}")),
        }
    }
    pub fn none(&mut self, ms: u64, what: &str) {
        if let Ok(Some(_)) = self.read(ms) {
            fail(what)
        }
    }
    pub fn ended(&mut self, what: &str) {
        loop {
            match self.read(5000) {
                Ok(None) => return,
                Ok(Some(_)) => {}
                Err(()) => fail(what),
            }
        }
    }
}

/// A server for one client at a time.
pub struct Server(pub TcpListener);
impl Server {
    pub fn new() -> Server {
        Server(TcpListener::bind("127.0.0.1:0").unwrap())
    }
    pub fn at(&self) -> vaux_client::MqttConnection {
        vaux_client::MqttConnection::new().with_host("127.0.0.1").with_port(self.0.local_addr().unwrap().port())
    }
    /// The next connection, accepted with this CONNACK; and the CONNECT.
    pub fn accept(&self, present: u8, props: &[u8]) -> (Raw, Vec<u8>) {
        let mut r = Raw::on(self.0.accept().unwrap().0);
        let c = r.get("CONNECT");
        r.send(&packet(0x20, &[&[present, 0, props.len() as u8], props]));
        (r, c)
    }
}
