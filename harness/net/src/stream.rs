//! PacketStream: reassembly, end of stream, errors, writing, buffer management.
use crate::refc::*;
use bytes::BytesMut;
use std::future::Future;
use std::pin::Pin;
use std::task::Poll;
use tokio::sim::{self, Peer};
use vaux_async::stream::{AsyncMqttStream, Error, MqttStream, PacketStream};
use vaux_mqtt::{codec, Packet};

pub fn stream(init: Option<usize>, max: Option<usize>) -> (PacketStream, Peer) {
    let (t, p) = sim::pair();
    let m = if !sim::tls() {
        MqttStream::TcpStream(t)
    } else if vs::flip() {
        MqttStream::ClientTlsStream(Box::new(tokio_rustls::client::TlsStream::new(t)))
    } else {
        MqttStream::ServerTlsStream(Box::new(tokio_rustls::server::TlsStream::new(t)))
    };
    (PacketStream::new(AsyncMqttStream(m), init, max), p)
}
/// The wire bytes of a packet with symbolic contents.
pub fn menu(k: u64) -> Vec<u8> {
    match k {
        0 => vec![0xc0, 0],
        1 => cat(&[&[0x40, 2], &vs::bytes(2)]),
        2 => cat(&[&[0x30 | vs::bit() as u8, 6], &wbin(&vs::bytes(1)), &[0], &vs::bytes(2)]),
        3 => cat(&[&[0x32, 9], &wstr("a"), &vs::bytes(2), &[2, 1, vs::bit() as u8], &vs::bytes(1)]),
        4 => cat(&[&[0x10, 16, 0, 4], b"MQTT", &[5, 2 * vs::bit() as u8], &vs::bytes(2), &[0], &wbin(&vs::bytes(3))]),
        5 => cat(&[&[0x82, 8], &vs::bytes(2), &[0], &wbin(&vs::bytes(2)), &[vs::u8() & 0x2f]]),
        6 => cat(&[&[0xe0, 4], &vs::bytes(1), &[2, 0x11, 0]]), // truncated property: malformed
        7 => {
            let mut b = vec![0x5a; 126];
            vs::fill(&mut b[124..]);
            cat(&[&[0x30, 0x82, 1], &wstr("t"), &[0], &b])
        }
        8 => vec![0xd0, 0],
        _ => cat(&[&[0x90, 5], &vs::bytes(2), &[0], &vs::bytes(2)]),
    }
}
fn alone(b: &[u8]) -> Option<Packet> {
    let mut d = BytesMut::with_capacity(b.len().max(1));
    d.extend_from_slice(b);
    match codec::decode(&mut d) {
        Ok(Some((p, n))) if n == b.len() => Some(p),
        _ => None,
    }
}
type Got = Result<Option<Packet>, Error>;
fn poll<F: Future<Output = Got> + ?Sized>(f: Pin<&mut F>) -> Option<Got> {
    match sim::poll_once(f) {
        Poll::Ready(r) => Some(r),
        Poll::Pending => None,
    }
}

/// Packets arrive cut into pieces at up to `cuts` chosen places; after each piece the pending read is
/// either kept or dropped and started again.
pub fn s_reasm(m: u64, init: u64, max_read: u64, cuts: u64) {
    let (mut s, p) = stream(Some(init as usize), Some(4096));
    if max_read > 0 {
        p.conn().max_read = max_read as usize;
    }
    let mut ks = vec![];
    let mut x = m;
    while x > 0 {
        ks.push(x % 16);
        x /= 16;
    }
    let pk: Vec<Vec<u8>> = ks.iter().map(|k| menu(*k)).collect();
    let want: Vec<Option<Packet>> = pk.iter().map(|b| alone(b)).collect();
    for w in &want {
        vs::assume(w.is_some());
    }
    let mut wire = vec![];
    let mut ends = vec![];
    for b in &pk {
        wire.extend_from_slice(b);
        ends.push(wire.len());
    }
    let mut at = vec![];
    let mut lo = 0;
    for _ in 0..cuts {
        let c = lo + vs::choice((wire.len() - lo) as u64) as usize;
        at.push(c);
        lo = c;
    }
    at.push(wire.len());
    let mut next = 0;
    let mut sent = 0;
    for c in at {
        let c = c.max(sent);
        p.send(&wire[sent..c]);
        sent = c;
        // with every piece: read until nothing more comes; what is complete must come out
        loop {
            let again = {
                let mut f = Box::pin(s.read());
                let mut r = poll(f.as_mut());
                if r.is_none() && next < pk.len() && sent < wire.len() && vs::flip() {
                    // the same future is polled again with one more byte
                    p.send(&wire[sent..sent + 1]);
                    sent += 1;
                    r = poll(f.as_mut());
                }
                match r {
                    Some(Ok(Some(q))) => {
                        vs::check(next < pk.len() && ends[next] <= sent, "a packet was delivered before it had arrived");
                        vs::check(Some(q) == want[next], "the packet delivered is not the one that was sent");
                        next += 1;
                        vs::reach("packet");
                        true
                    }
                    Some(Ok(None)) => vs::fail("end of stream reported on an open connection"),
                    Some(Err(_)) => vs::fail("reading well-formed packets failed"),
                    None => false,
                }
            };
            if !again {
                break;
            }
        }
        vs::check(next >= pk.len() || ends[next] > sent, "a packet that has arrived completely was not delivered");
    }
    while next < pk.len() {
        match sim::drive(s.read()) {
            Some(Ok(Some(q))) => {
                vs::check(Some(q) == want[next], "the packet delivered is not the one that was sent");
                next += 1;
            }
            _ => vs::fail("a packet that has arrived completely was not delivered"),
        }
    }
    p.close();
    match sim::drive(s.read()) {
        Some(Ok(None)) => vs::reach("end of stream"),
        _ => vs::fail("the end of the stream was not reported as such"),
    }
}

/// The stream ends (0: closed, 1: error, 2: time-out and goes on, 3: another error) after a chosen number of bytes.
pub fn s_end(m: u64, how: u64, init: u64) {
    let (mut s, p) = stream(Some(init as usize), Some(64));
    let a = menu(m / 16);
    let b = menu(m % 16);
    let (wa, wb) = (alone(&a), alone(&b));
    vs::assume(wa.is_some());
    vs::assume(wb.is_some());
    let wire = cat(&[&a, &b]);
    let n = vs::choice(wire.len() as u64 + 1) as usize;
    p.send(&wire[..n]);
    match how {
        0 => p.close(),
        1 => p.fail_reads(std::io::ErrorKind::ConnectionReset),
        2 => p.fail_reads(if vs::flip() { std::io::ErrorKind::TimedOut } else { std::io::ErrorKind::WouldBlock }),
        _ => p.fail_reads(std::io::ErrorKind::Other),
    }
    let mut got = 0;
    let end = loop {
        match sim::drive(s.read()) {
            Some(Ok(Some(q))) => {
                vs::check(got < 2 && Some(q) == if got == 0 { alone(&a) } else { alone(&b) }, "the packet delivered is not the one that was sent");
                got += 1;
                vs::check(n >= if got == 1 { a.len() } else { wire.len() }, "a packet was delivered that has not arrived");
            }
            Some(Ok(None)) => break None,
            Some(Err(e)) => break Some(e),
            None => vs::fail("the end of the stream was not noticed"),
        }
    };
    vs::check(got == (n >= a.len()) as usize + (n >= wire.len()) as usize, "a packet that has arrived completely was lost");
    let boundary = n == 0 || n == a.len() || n == wire.len();
    match (how, end) {
        (0, None) => {
            vs::reach("clean end");
            vs::check(boundary, "a connection closed inside a packet was reported as a clean end of stream");
        }
        (0, Some(e)) => {
            vs::reach("cut end");
            vs::check(!boundary, "a clean end of stream was reported as an error");
            vs::check(matches!(e, Error::Io(_)), "the end of the stream inside a packet is not an I/O error");
        }
        (2, Some(Error::ReadTimeout(_))) => {
            // nothing is lost: the rest arrives, and reading goes on
            p.conn().read_err = None;
            p.send(&wire[n..]);
            while got < 2 {
                match sim::drive(s.read()) {
                    Some(Ok(Some(q))) => {
                        vs::check(Some(q) == if got == 0 { alone(&a) } else { alone(&b) }, "after a time-out the packet delivered is not the one that was sent");
                        got += 1;
                    }
                    _ => vs::fail("after a time-out a packet was lost"),
                }
            }
            vs::reach("resumed");
        }
        (2, _) => vs::fail("a read time-out was not reported as one"),
        (_, Some(Error::Io(_))) => vs::reach("io error"),
        _ => vs::fail("an I/O error was not reported as one"),
    }
}

/// Arbitrary bytes: reading ends in a packet, an error or waits for more - and agrees with decoding the bytes.
pub fn s_bytes(t: u64, n: u64, init: u64) {
    let (mut s, p) = stream(Some(init as usize), Some(64));
    let mut b = vs::bytes(n as usize);
    b[0] = (t as u8) << 4 | b[0] & 0x0f;
    p.send(&b);
    let mut d = BytesMut::from(&b[..]);
    let want = codec::decode(&mut d);
    let mut f = Box::pin(s.read());
    match (poll(f.as_mut()), want) {
        (Some(Ok(Some(q))), Ok(Some((w, _)))) => {
            vs::reach("packet");
            vs::check(q == w, "the packet read differs from the packet decoded");
        }
        (Some(Err(Error::Codec(_))), Err(e)) => {
            vs::reach("error");
            vs::check(!matches!(e.kind, codec::ErrorKind::InsufficientData(_, _)), "an incomplete packet was reported as malformed");
        }
        (None, Err(e)) => {
            vs::reach("waits");
            vs::check(matches!(e.kind, codec::ErrorKind::InsufficientData(_, _)), "a malformed packet was not reported");
        }
        (None, Ok(None)) => vs::reach("waits"),
        _ => vs::fail("reading and decoding the same bytes disagree"),
    }
}

/// Writing: the peer gets exactly the encodings, in order, however the connection takes them.
pub fn s_write(m: u64, max_write: u64, window: u64) {
    let (mut s, p) = stream(None, None);
    if max_write > 0 {
        p.conn().max_write = max_write as usize;
    }
    if window > 0 {
        p.conn().window = window as usize;
    }
    let mut got = vec![];
    let mut want = vec![];
    let mut x = m;
    while x > 0 {
        let b = menu(x % 16);
        x /= 16;
        let mut q = match alone(&b) {
            Some(q) => q,
            None => {
                vs::assume(false);
                return;
            }
        };
        want.extend_from_slice(&b);
        let mut f = Box::pin(s.write(&mut q));
        let mut idle = 0;
        loop {
            match sim::poll_once(f.as_mut()) {
                Poll::Ready(Ok(())) => break,
                Poll::Ready(Err(_)) => vs::fail("writing to a working connection failed"),
                Poll::Pending => {
                    vs::reach("pending");
                    let r = p.recv();
                    idle = if r.is_empty() { idle + 1 } else { 0 };
                    vs::check(idle < 3, "a write made no progress on a working connection");
                    got.extend_from_slice(&r);
                }
            }
        }
        drop(f);
        got.extend_from_slice(&p.conn().from_sut);
        p.conn().from_sut.clear();
        vs::check(got.len() == want.len(), "write returned before the whole packet was handed over");
    }
    got.extend_from_slice(&p.recv());
    vs::check(got.len() == want.len(), "the bytes written are not the encodings of the packets");
    vs::check(vs::same(&got, &want), "the bytes written are not the encodings of the packets");
    vs::reach("written");
    if sim::drive(s.shutdown()).is_none() {
        vs::fail("shutdown did not complete");
    }
    vs::check(p.closed_by_sut(), "shutdown did not close the connection");
}
/// A connection that fails after `n` bytes makes the write fail; a packet that cannot be encoded writes nothing.
pub fn s_wfail(m: u64) {
    let (mut s, p) = stream(None, None);
    let b = menu(m);
    let mut q = match alone(&b) {
        Some(q) => q,
        None => {
            vs::assume(false);
            return;
        }
    };
    let n = vs::choice(b.len() as u64) as usize;
    p.conn().window = n;
    {
        let mut f = Box::pin(s.write(&mut q));
        match sim::poll_once(f.as_mut()) {
            Poll::Pending => {}
            _ => vs::fail("write returned before the whole packet was handed over"),
        }
        p.fail_writes(std::io::ErrorKind::BrokenPipe);
        match sim::poll_once(f.as_mut()) {
            Poll::Ready(Err(Error::Io(_))) => vs::reach("write error"),
            _ => vs::fail("a failed write was not reported"),
        }
    }
    let (mut s, p) = stream(None, None);
    let mut f = vaux_mqtt::Publish::default();
    f.topic_name = "t".to_string();
    f.set_qos(vaux_mqtt::QoSLevel::AtLeastOnce);
    match sim::drive(s.write(&mut Packet::Publish(f))) {
        Some(Err(Error::Codec(_))) => {}
        _ => vs::fail("a packet that cannot be encoded was not refused"),
    }
    vs::check(p.recv().is_empty(), "bytes of a refused packet were written");
}

/// A packet of `n` bytes and one after it, through a buffer of `init` growing to `max`.
pub fn s_big(n: u64, init: u64, max: u64, chunk: u64) {
    let (init, max) = (init as usize, max as usize);
    let (mut s, p) = if init == 0 { stream(None, None) } else { stream(Some(init), Some(max)) };
    let n = n as usize;
    let rl = if n - 2 < 128 { n - 2 } else { n - 3 };
    let body = rl - 4;
    let mut b = vec![0x61u8; body];
    let e = body.min(2);
    vs::fill(&mut b[..e]);
    let l = b.len();
    if l > 8 {
        vs::fill(&mut b[l - 2..]);
        let m = l / 2;
        vs::fill(&mut b[m..m + 1]);
    }
    let one = cat(&[&[0x30], &vbi(rl as u32), &wstr("t"), &[0], &b]);
    vs::check(one.len() == n, "harness");
    let two = menu(1);
    vs::assume(two[2] | two[3] != 0); // a packet identifier MQTT allows
    p.send(&one);
    p.send(&two);
    p.close();
    if chunk > 0 {
        p.conn().max_read = chunk as usize;
    }
    let raw = chunk % 2 == 1;
    let first = if raw {
        match sim::drive(s.read_raw()) {
            Some(Ok(Some((q, bytes)))) => {
                vs::check(bytes.len() == n && vs::same(&bytes, &one), "read_raw did not return the packet's own bytes");
                vs::reach("raw");
                Ok(Some(q))
            }
            Some(Ok(None)) => Ok(None),
            Some(Err(e)) => Err(e),
            None => vs::fail("reading from a closed connection waits"),
        }
    } else {
        match sim::drive(s.read()) {
            Some(r) => r,
            None => vs::fail("reading from a closed connection waits"),
        }
    };
    let lim = if init == 0 { 4 << 20 } else { max.max(init) };
    vs::check(s.buffer_size() <= lim, "the read buffer is larger than its limit");
    match first {
        Ok(Some(Packet::Publish(q))) => {
            vs::reach("fits");
            match &q.payload {
                Some(x) => vs::check(x.len() == body && vs::same(x, &b), "the payload read is not the payload sent"),
                None => vs::fail("the payload was lost"),
            }
            let second = if raw {
                match sim::drive(s.read_raw()) {
                    Some(Ok(Some((q, bytes)))) => {
                        vs::check(vs::same(&bytes, &two), "read_raw did not return the packet's own bytes");
                        Some(q)
                    }
                    _ => None,
                }
            } else {
                match sim::drive(s.read()) {
                    Some(Ok(q)) => q,
                    _ => None,
                }
            };
            vs::check(second == alone(&two), "the packet after a large one is not the one that was sent");
            vs::check(matches!(sim::drive(s.read()), Some(Ok(None))), "the end of the stream was not reported as such");
            vs::check(s.buffer_size() <= lim, "the read buffer is larger than its limit");
        }
        Ok(_) => vs::fail("a packet was lost"),
        Err(Error::ReadBuffer) => {
            vs::reach("too large");
            vs::check(n > lim, "a packet within the buffer limit was refused");
        }
        Err(_) => vs::fail("reading a well-formed packet failed"),
    }
}
