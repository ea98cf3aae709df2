use crate::refc::*;
use bytes::{Bytes, BytesMut};
use vaux_mqtt::codec::{self, CodecSize, Encode, Decode, ErrorKind, FixedHeader, Packet, PacketType, QoSLevel, Reason};
use vaux_mqtt::property::{PropertyType, UserProperty};
use vaux_mqtt::subscribe::{RetainHandling, SubAck, Subscribe, SubscriptionFilter};
use vaux_mqtt::unsubscribe::{UnsubAck, Unsubscribe};
use vaux_mqtt::*;

fn buf(b: &[u8]) -> BytesMut {
    let mut d = BytesMut::with_capacity(b.len().max(1));
    d.extend_from_slice(b);
    d
}
fn dec(b: &[u8]) -> Result<Option<(Packet, usize)>, codec::MqttCodecError> {
    codec::decode(&mut buf(b))
}
fn needs_more(r: &Result<Option<(Packet, usize)>, codec::MqttCodecError>) -> bool {
    match r {
        Ok(None) => true,
        Err(e) => matches!(e.kind, ErrorKind::InsufficientData(_, _)),
        _ => false,
    }
}
fn tag(p: &Packet) -> u8 {
    match p {
        Packet::Connect(_) => 1,
        Packet::ConnAck(_) => 2,
        Packet::Publish(_) => 3,
        Packet::PubAck(_) => 4,
        Packet::PubRec(_) => 5,
        Packet::PubRel(_) => 6,
        Packet::PubComp(_) => 7,
        Packet::Subscribe(_) => 8,
        Packet::SubAck(_) => 9,
        Packet::Unsubscribe(_) => 10,
        Packet::UnsubAck(_) => 11,
        Packet::PingRequest(_) => 12,
        Packet::PingResponse(_) => 13,
        Packet::Disconnect(_) => 14,
    }
}
fn size_of(p: &Packet) -> u32 {
    match p {
        Packet::Connect(x) => x.codec_size(),
        Packet::ConnAck(x) => x.codec_size(),
        Packet::Publish(x) => x.codec_size(),
        Packet::PubAck(x) | Packet::PubRec(x) | Packet::PubRel(x) | Packet::PubComp(x) => x.codec_size(),
        Packet::Subscribe(x) => x.codec_size(),
        Packet::SubAck(x) => x.codec_size(),
        Packet::Unsubscribe(x) => x.codec_size(),
        Packet::UnsubAck(x) => x.codec_size(),
        Packet::PingRequest(x) => x.codec_size(),
        Packet::PingResponse(x) => x.codec_size(),
        Packet::Disconnect(x) => x.codec_size(),
    }
}

/// Totality, framing and need-more classification on arbitrary bytes.
pub fn h_frame(t: u64, n: u64) {
    let mut b = vs::bytes(n as usize);
    if !b.is_empty() {
        b[0] = (t as u8) << 4 | b[0] & 0x0f;
    }
    let r = dec(&b);
    match frame(&b) {
        Fr::Incomplete => {
            if let Ok(Some(_)) = &r {
                vs::fail("a packet was returned although the frame is incomplete");
            }
            if b.is_empty() || first_ok(b[0]) {
                vs::reach("incomplete");
                vs::check(needs_more(&r), "an incomplete frame was reported as malformed");
            }
        }
        Fr::BadLength => {
            vs::reach("bad length");
            if let Ok(Some(_)) = &r {
                vs::fail("a packet was returned although the remaining length is malformed");
            }
            vs::check(!needs_more(&r), "a malformed remaining length was reported as incomplete");
        }
        Fr::Complete { total, .. } => {
            let total = vs::concrete(total);
            match &r {
                Ok(Some((p, used))) => {
                    vs::reach("decoded");
                    vs::check(*used == total, "the reported length is not the length of the frame");
                    vs::check(tag(p) == b[0] >> 4, "the packet kind does not match the packet type on the wire");
                    vs::check(first_ok(b[0]), "a packet with illegal fixed header flags was accepted");
                    if total < b.len() {
                        vs::reach("decoded with trailing data");
                        match dec(&b[..total]) {
                            Ok(Some((q, u))) => vs::check(u == total && q == *p, "the result depends on bytes after the frame"),
                            _ => vs::fail("the result depends on bytes after the frame"),
                        }
                    }
                }
                _ => {
                    vs::reach("rejected");
                    vs::check(!needs_more(&r), "a complete but malformed frame was reported as incomplete");
                    if total < b.len() {
                        if let Ok(Some(_)) = dec(&b[..total]) {
                            vs::fail("the result depends on bytes after the frame");
                        }
                    }
                }
            }
        }
    }
}

/// Whatever was decoded can be encoded again, into a self-consistent frame that decodes to the same packet.
pub fn h_reenc(t: u64, n: u64) {
    let n = n as usize;
    let mut b = vec![0u8; 2 + n];
    vs::fill(&mut b[2..]);
    let f = vs::u8();
    b[0] = (t as u8) << 4 | f & 0x0f;
    b[1] = n as u8;
    if let Ok(Some((p, _))) = dec(&b) {
        vs::reach("decoded");
        let mut d = BytesMut::with_capacity(64);
        if p.encode(&mut d).is_err() {
            vs::fail("a decoded packet cannot be encoded");
        }
        self_consistent(&p, &d);
        match dec(&d) {
            Ok(Some((q, _))) => vs::check(explicit(q) == explicit(p), "re-encoding a decoded packet changes it"),
            _ => vs::fail("the re-encoded packet does not decode"),
        }
    }
}

/// An omitted reason in an acknowledgement means Success (MQTT 3.4.2.1): make it explicit.
fn explicit(mut p: Packet) -> Packet {
    if let Packet::PubAck(x) | Packet::PubRec(x) | Packet::PubRel(x) | Packet::PubComp(x) = &mut p {
        if x.reason().is_none() {
            let _ = x.set_reason(Reason::Success);
        }
    }
    p
}

/// `d` is exactly one frame with a minimal remaining length that equals codec_size().
fn self_consistent(p: &Packet, d: &[u8]) -> usize {
    match frame(d) {
        Fr::Complete { hdr, total } => {
            vs::check(total == d.len(), "the encoded remaining length does not match the encoded body");
            vs::check(hdr == 2 || d[hdr - 1] != 0, "the remaining length is not minimally encoded");
            vs::check(size_of(p) as usize == d.len() - hdr, "codec_size() differs from the encoded body length");
            vs::check(d[0] >> 4 == tag(p), "the encoded packet type does not match the packet");
            vs::check(first_ok(d[0]), "the encoded fixed header flags are not legal");
            hdr
        }
        _ => vs::fail("the encoded packet is not a complete frame"),
    }
}

/// Full structural check of one packet against the reference layout.
fn wire(p: Packet, first: u8, vh: &[u8], ps: &[Prop], has_props: bool, payload: &[u8], rot: u64) {
    let mut d = BytesMut::with_capacity(256);
    if p.encode(&mut d).is_err() {
        vs::fail("encoding a valid packet failed");
    }
    let hdr = self_consistent(&p, &d);
    vs::check(d[0] == first, "first byte");
    let body = &d[hdr..];
    vs::check(body.len() >= vh.len() && vs::same(&body[..vh.len()], vh), "variable header bytes");
    let mut i = vh.len();
    if has_props {
        match parse_props(&body[i..]) {
            Some((mut got, used)) => {
                i += used;
                vs::check(got.len() == ps.len(), "number of encoded properties");
                for want in ps {
                    let mut hit = None;
                    for (k, g) in got.iter().enumerate() {
                        if g.id == want.id && g.val.len() == want.val.len() {
                            // duplicates only occur for user properties; match by content
                            if want.id != 0x26 || g.val == want.val {
                                hit = Some(k);
                                break;
                            }
                        }
                    }
                    match hit {
                        Some(k) => {
                            let g = got.remove(k);
                            vs::check(vs::same(&g.val, &want.val), "encoded property value");
                        }
                        None => vs::fail("a property is missing from the encoded packet"),
                    }
                }
            }
            None => vs::fail("the encoded property section is malformed"),
        }
    }
    vs::check(vs::same(&body[i..], payload), "encoded payload");
    match dec(&d) {
        Ok(Some((q, u))) => {
            vs::check(u == d.len(), "decoded length of an encoded packet");
            vs::check(q == p, "decoding an encoded packet yields a different packet");
        }
        _ => vs::fail("an encoded packet does not decode"),
    }
    // and from the reference bytes, with the properties in another order
    let mut rp = ps.to_vec();
    if !rp.is_empty() {
        let k = rot as usize % rp.len();
        rp.rotate_left(k);
    }
    let mut rb = vh.to_vec();
    if has_props {
        rb.extend_from_slice(&props(&rp));
    }
    rb.extend_from_slice(payload);
    let frame = cat(&[&[first], &vbi(rb.len() as u32), &rb]);
    match dec(&frame) {
        Ok(Some((q, u))) => {
            vs::check(u == frame.len(), "decoded length of a reference packet");
            vs::check(q == p, "decoding the reference encoding yields a different packet");
        }
        _ => vs::fail("the reference encoding of a packet does not decode"),
    }
    vs::reach("round trip");
}

// ---- value generators -------------------------------------------------------
fn s(max: u64) -> String {
    vs::string(vs::choice(max + 1) as usize)
}
fn s1(max: u64) -> String {
    vs::string(1 + vs::choice(max) as usize)
}
fn user(ps: &mut Vec<Prop>, n: u64) -> UserProperty {
    let mut u = UserProperty::new();
    for i in 0..n {
        let k = vs::string(if i == 0 { 2 } else { 1 });
        let v = vs::string((i % 2) as usize + 1);
        ps.push(Prop { id: 0x26, val: cat(&[&wstr(&k), &wstr(&v)]) });
        u.add(k, v);
    }
    u
}
fn has(sel: u64, i: u32) -> bool {
    sel >> i & 1 == 1
}
fn p32(ps: &mut Vec<Prop>, id: u8) -> u32 {
    let v = vs::u32();
    vs::assume((v != 0) | (id != 0x27));
    ps.push(Prop { id, val: w32(v) });
    v
}
fn p16(ps: &mut Vec<Prop>, id: u8) -> u16 {
    let v = vs::u16();
    vs::assume((v != 0) | (id != 0x21) & (id != 0x23));
    ps.push(Prop { id, val: w16(v) });
    v
}
fn pb(ps: &mut Vec<Prop>, id: u8) -> bool {
    let v = vs::bit();
    ps.push(Prop { id, val: vec![v as u8] });
    v
}
fn pstr(ps: &mut Vec<Prop>, id: u8) -> String {
    let v = s(2);
    ps.push(Prop { id, val: wstr(&v) });
    v
}
fn pbin(ps: &mut Vec<Prop>, id: u8) -> Vec<u8> {
    let v = vs::bytes(1 + vs::choice(2) as usize);
    ps.push(Prop { id, val: wbin(&v) });
    v
}
fn qos(b: u8) -> QoSLevel {
    match b {
        0 => QoSLevel::AtMostOnce,
        1 => QoSLevel::AtLeastOnce,
        _ => QoSLevel::ExactlyOnce,
    }
}
fn any_qos() -> (QoSLevel, u8) {
    let q = vs::choice(3) as u8;
    (qos(q), q)
}
/// Reason codes of the specification.
const REASONS: [u8; 43] = [
    0x00, 0x01, 0x02, 0x04, 0x10, 0x11, 0x18, 0x19, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8a,
    0x8b, 0x8c, 0x8d, 0x8e, 0x8f, 0x90, 0x91, 0x92, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9a, 0x9b, 0x9c, 0x9d,
    0x9e, 0x9f, 0xa0, 0xa1, 0xa2,
];
fn is_reason(b: u8) -> bool {
    (b <= 2) | (b == 4) | (b == 0x10) | (b == 0x11) | (b == 0x18) | (b == 0x19) | ((b >= 0x80) & (b <= 0xa2))
}
/// Any reason code that belongs to packets of type `t` (0: any there is).
fn any_reason(t: u64) -> (Reason, u8) {
    let b = vs::u8();
    vs::assume(is_reason(b));
    vs::assume(t == 0 || reason(t, b).is_ok());
    match Reason::try_from(b) {
        Ok(r) => (r, b),
        Err(_) => vs::fail("a reason code of the specification is rejected"),
    }
}

fn pid() -> u16 {
    let id = vs::u16();
    vs::assume(id != 0);
    id
}

// ---- packets ------------------------------------------------------------------
/// sel: properties 0..8, 9 will, 10..16 will properties, 17 username, 18 password, 19 second user property
pub fn h_connect(sel: u64, rot: u64) {
    let mut ps = vec![];
    let mut c = Connect::new();
    let clean = vs::bit();
    c.set_clean_start(clean);
    let ka = vs::u16();
    c.keep_alive = ka;
    if has(sel, 0) {
        c.session_expiry_interval = Some(p32(&mut ps, 0x11));
    }
    if has(sel, 1) {
        c.receive_maximum = Some(p16(&mut ps, 0x21));
    }
    if has(sel, 2) {
        c.max_packet_size = Some(p32(&mut ps, 0x27));
    }
    if has(sel, 3) {
        c.topic_alias_maximum = Some(p16(&mut ps, 0x22));
    }
    if has(sel, 4) {
        c.request_response_info = Some(pb(&mut ps, 0x19));
    }
    if has(sel, 5) {
        c.request_problem_info = Some(pb(&mut ps, 0x17));
    }
    if has(sel, 6) || has(sel, 7) {
        c.auth_method = Some(pstr(&mut ps, 0x15));
    }
    if has(sel, 7) {
        c.auth_data = pbin(&mut ps, 0x16);
    }
    if has(sel, 8) {
        c.user_properties = user(&mut ps, 1 + has(sel, 19) as u64);
    }
    let id = s(2);
    c.client_id = id.clone();
    let mut payload = wstr(&id);
    let mut flags = (clean as u8) << 1;
    if has(sel, 9) {
        let topic = s1(2);
        let body = vs::bytes(vs::choice(3) as usize);
        let (q, qb) = any_qos();
        let retain = vs::bit();
        let mut wp = vec![];
        let mut w = WillMessage::new(topic.clone(), &body, q, retain);
        if has(sel, 10) {
            w.header.will_delay = Some(p32(&mut wp, 0x18));
        }
        if has(sel, 11) {
            wp.push(Prop { id: 0x01, val: vec![1] });
            w.header.payload_format = Some(PayloadFormat::Utf8);
        }
        if has(sel, 12) {
            w.header.message_expiry = Some(p32(&mut wp, 0x02));
        }
        if has(sel, 13) {
            w.header.content_type = Some(pstr(&mut wp, 0x03));
        }
        if has(sel, 14) {
            w.header.response_topic = Some(pstr(&mut wp, 0x08));
        }
        if has(sel, 15) {
            w.header.correlation_data = pbin(&mut wp, 0x09);
        }
        if has(sel, 16) {
            w.header.user_properties = user(&mut wp, 1);
        }
        c.set_will_message(w);
        flags |= 0x04 | qb << 3 | (retain as u8) << 5;
        payload.extend_from_slice(&props(&wp));
        payload.extend_from_slice(&wstr(&topic));
        payload.extend_from_slice(&wbin(&body));
    }
    if has(sel, 17) {
        let u = s(2);
        c.set_username(Some(u.clone()));
        flags |= 0x80;
        payload.extend_from_slice(&wstr(&u));
    }
    if has(sel, 18) {
        let p = vs::bytes(vs::choice(3) as usize);
        c.set_password(Some(p.clone()));
        flags |= 0x40;
        payload.extend_from_slice(&wbin(&p));
    }
    let vh = cat(&[&wstr("MQTT"), &[5, flags], &w16(ka)]);
    wire(Packet::Connect(Box::new(c)), 0x10, &vh, &ps, true, &payload, rot);
}

pub fn h_connack(sel: u64, rot: u64) {
    let mut ps = vec![];
    let mut a = ConnAck::default();
    let sp = vs::bit();
    a.set_session_present(sp);
    let (r, rb) = any_reason(2);
    vs::assume(!sp | (rb == 0));
    a.reason = r;
    if has(sel, 0) {
        a.session_expiry_interval = Some(p32(&mut ps, 0x11));
    }
    if has(sel, 1) {
        a.receive_maximum = Some(p16(&mut ps, 0x21));
    }
    if has(sel, 2) {
        let q = vs::choice(2) as u8;
        ps.push(Prop { id: 0x24, val: vec![q] });
        a.maximum_qos = Some(qos(q));
    }
    if has(sel, 3) {
        a.retain_available = Some(pb(&mut ps, 0x25));
    }
    if has(sel, 4) {
        a.maximum_packet_size = Some(p32(&mut ps, 0x27));
    }
    if has(sel, 5) {
        a.assigned_client_id = Some(pstr(&mut ps, 0x12));
    }
    if has(sel, 6) {
        a.topic_alias_maximum = Some(p16(&mut ps, 0x22));
    }
    if has(sel, 7) {
        a.reason_string = Some(pstr(&mut ps, 0x1f));
    }
    if has(sel, 8) {
        a.subscription_identifier_available = Some(pb(&mut ps, 0x29));
    }
    if has(sel, 9) {
        a.user_properties = user(&mut ps, 1);
    }
    if has(sel, 10) {
        a.wildcard_subscription_available = Some(pb(&mut ps, 0x28));
    }
    if has(sel, 11) {
        a.shared_subscription_available = Some(pb(&mut ps, 0x2a));
    }
    if has(sel, 12) {
        a.server_keep_alive = Some(p16(&mut ps, 0x13));
    }
    if has(sel, 13) {
        a.response_information = Some(pstr(&mut ps, 0x1a));
    }
    if has(sel, 14) {
        a.server_reference = Some(pstr(&mut ps, 0x1c));
    }
    if has(sel, 15) {
        a.auth_method = Some(pstr(&mut ps, 0x15));
    }
    if has(sel, 16) {
        a.auth_data = pbin(&mut ps, 0x16);
    }
    wire(Packet::ConnAck(a), 0x20, &[sp as u8, rb], &ps, true, &[], rot);
}

pub fn h_publish(sel: u64, rot: u64) {
    let mut ps = vec![];
    let (q, qb) = any_qos();
    let topic = if has(sel, 2) { s(2) } else { s1(2) };
    let id = vs::u16();
    let payload = vs::bytes(vs::choice(4) as usize);
    let pid = if qb > 0 { Some(id) } else { None };
    if qb > 0 {
        vs::assume(id != 0);
    }
    let mut p = match Publish::new_with_payload(pid, topic.clone(), q, payload.clone()) {
        Ok(p) => p,
        Err(_) => vs::fail("a valid PUBLISH cannot be constructed"),
    };
    let retain = vs::bit();
    p.set_retain(retain);
    let mut first = 0x30 | qb << 1 | retain as u8;
    if qb > 0 {
        let dup = vs::bit();
        if p.set_dup(dup).is_err() {
            vs::fail("DUP cannot be set on a QoS > 0 PUBLISH");
        }
        first |= (dup as u8) << 3;
    }
    if has(sel, 0) {
        p.message_expiry = Some(p32(&mut ps, 0x02));
    }
    if has(sel, 1) {
        ps.push(Prop { id: 0x01, val: vec![1] });
        p.set_payload_format(PayloadFormat::Utf8);
    }
    if has(sel, 2) {
        p.topic_alias = Some(p16(&mut ps, 0x23));
    }
    if has(sel, 3) {
        p.response_topic = Some(pstr(&mut ps, 0x08));
    }
    if has(sel, 4) {
        p.correlation_data = pbin(&mut ps, 0x09);
    }
    if has(sel, 5) {
        let v = vs::u32();
        vs::assume(v >= 1 && v <= 268_435_455);
        ps.push(Prop { id: 0x0b, val: vbi(v) });
        p.subscription_identifiers = Some(v);
    }
    if has(sel, 6) {
        p.content_type = Some(pstr(&mut ps, 0x03));
    }
    if has(sel, 7) {
        p.user_properties = user(&mut ps, 1 + has(sel, 8) as u64);
    }
    let mut vh = wstr(&topic);
    if qb > 0 {
        vh.extend_from_slice(&w16(id));
    }
    wire(Packet::Publish(p), first, &vh, &ps, true, &payload, rot);
}

/// kind 4..7; sel: 0 reason omitted, 1 properties omitted, 2 reason string, 3 user property
pub fn h_pubresp(kind: u64, sel: u64, rot: u64) {
    let id = pid();
    let first = (kind as u8) << 4 | if kind == 6 { 2 } else { 0 };
    let mk = |id| match kind {
        4 => (PubResp4::new_puback_with_packet_id(id), PacketType::PubAck),
        5 => (PubResp4::new_pubrec_with_packet_id(id), PacketType::PubRec),
        6 => (PubResp4::new_pubrel_with_packet_id(id), PacketType::PubRel),
        _ => (PubResp4::new_pubcomp_with_packet_id(id), PacketType::PubComp),
    };
    let wrap = |p| match kind {
        4 => Packet::PubAck(p),
        5 => Packet::PubRec(p),
        6 => Packet::PubRel(p),
        _ => Packet::PubComp(p),
    };
    let mut ps = vec![];
    if has(sel, 2) {
        pstr(&mut ps, 0x1f);
    }
    if has(sel, 3) {
        user(&mut ps, 1);
    }
    let (r, rb) = any_reason(kind);
    let mut body = w16(id).to_vec();
    if !has(sel, 0) {
        body.push(rb);
        if !has(sel, 1) {
            if !ps.is_empty() {
                let k = rot as usize % ps.len();
                ps.rotate_left(k);
            }
            body.extend_from_slice(&props(&ps));
        }
    }
    let fr = cat(&[&[first], &vbi(body.len() as u32), &body]);
    let got = match dec(&fr) {
        Ok(Some((q, u))) => {
            vs::check(u == fr.len(), "decoded length of a reference packet");
            q
        }
        _ => vs::fail("the reference encoding of a packet does not decode"),
    };
    vs::check(tag(&got) == kind as u8, "packet kind");
    let inner = match &got {
        Packet::PubAck(p) | Packet::PubRec(p) | Packet::PubRel(p) | Packet::PubComp(p) => p.clone(),
        _ => vs::fail("packet kind"),
    };
    vs::check(inner.packet_id == id, "decoded packet identifier");
    let want = if has(sel, 0) { Reason::Success } else { r };
    vs::check(inner.reason().unwrap_or_default() as u8 == want as u8, "decoded reason code");
    // forwarding the decoded packet reproduces it (reason Success without properties may be abbreviated)
    let mut d = BytesMut::with_capacity(64);
    if got.encode(&mut d).is_err() {
        vs::fail("a decoded packet cannot be encoded");
    }
    let hdr = self_consistent(&got, &d);
    vs::check(d[0] == first, "first byte of the re-encoded packet");
    let body2 = &d[hdr..];
    vs::check(body2.len() >= 2 && vs::same(&body2[..2], &w16(id)), "packet identifier of the re-encoded packet");
    let no_props = has(sel, 0) || has(sel, 1) || ps.is_empty();
    if no_props {
        if body2.len() == 2 {
            vs::check(want as u8 == 0, "a non-success reason was dropped");
        } else {
            vs::check(body2[2] == want as u8, "reason of the re-encoded packet");
            vs::check(body2.len() == 3 || (body2.len() == 4 && body2[3] == 0), "properties of the re-encoded packet");
        }
    } else if ps.len() == 1 {
        vs::check(vs::same(body2, &body), "re-encoded packet differs");
    } else {
        vs::check(body2.len() == body.len(), "re-encoded packet differs in length");
    }
    // construction through the API
    let (r, rb) = any_reason(0);
    let (mut p, pt) = mk(id);
    let ok = match pt {
        PacketType::PubAck | PacketType::PubRec => matches!(rb, 0 | 0x10 | 0x80 | 0x83 | 0x87 | 0x90 | 0x91 | 0x97 | 0x99),
        _ => matches!(rb, 0 | 0x92) || rb == 0x91,
    };
    match p.set_reason(r) {
        Ok(()) => {
            vs::check(ok, "set_reason accepts a reason that is illegal for the packet");
            if ps.is_empty() {
                let mut d = BytesMut::with_capacity(64);
                let w = wrap(p.clone());
                if w.encode(&mut d).is_err() {
                    vs::fail("encoding a valid packet failed");
                }
                self_consistent(&w, &d);
                match dec(&d) {
                    Ok(Some((q, _))) => match &q {
                        Packet::PubAck(x) | Packet::PubRec(x) | Packet::PubRel(x) | Packet::PubComp(x) => {
                            vs::check(tag(&q) == kind as u8 && x.packet_id == id && x.reason().unwrap_or_default() == r, "round trip of an acknowledgement")
                        }
                        _ => vs::fail("packet kind"),
                    },
                    _ => vs::fail("an encoded packet does not decode"),
                }
            }
        }
        Err(_) => {}
    }
    vs::reach("round trip");
}
use vaux_mqtt::pubresp::PubResp as PubResp4;

pub fn h_disconnect(sel: u64, rot: u64) {
    let mut ps = vec![];
    let (r, rb) = any_reason(14);
    let mut p = Disconnect::new(r);
    if has(sel, 0) {
        p.session_expiry_interval = Some(p32(&mut ps, 0x11));
    }
    if has(sel, 1) {
        p.reason_string = Some(pstr(&mut ps, 0x1f));
    }
    if has(sel, 2) {
        p.server_reference = Some(pstr(&mut ps, 0x1c));
    }
    if has(sel, 3) {
        p.user_properties = user(&mut ps, 1);
    }
    if has(sel, 4) {
        // abbreviated forms on the wire
        let body: Vec<u8> = if has(sel, 5) { vec![] } else { vec![rb] };
        let fr = cat(&[&[0xe0, body.len() as u8], &body]);
        match dec(&fr) {
            Ok(Some((Packet::Disconnect(d), u))) => {
                vs::check(u == fr.len(), "decoded length");
                vs::check(d.reason as u8 == if body.is_empty() { 0 } else { rb }, "decoded reason");
                vs::reach("round trip");
            }
            _ => vs::fail("an abbreviated DISCONNECT does not decode"),
        }
        return;
    }
    if ps.is_empty() {
        let mut d = BytesMut::with_capacity(16);
        let w = Packet::Disconnect(p);
        if w.encode(&mut d).is_err() {
            vs::fail("encoding a valid packet failed");
        }
        let hdr = self_consistent(&w, &d);
        let body = &d[hdr..];
        if body.is_empty() {
            vs::check(rb == 0, "a non-zero reason was dropped");
        } else {
            vs::check(body[0] == rb && (body.len() == 1 || (body.len() == 2 && body[1] == 0)), "body of DISCONNECT");
        }
        match dec(&d) {
            Ok(Some((q, u))) => vs::check(u == d.len() && q == w, "round trip of DISCONNECT"),
            _ => vs::fail("an encoded packet does not decode"),
        }
        vs::reach("round trip");
        return;
    }
    wire(Packet::Disconnect(p), 0xe0, &[rb], &ps, true, &[], rot);
}

pub fn h_subscribe(sel: u64, nf: u64) {
    let mut ps = vec![];
    let id = pid();
    let mut p = Subscribe::new_with_packet_id(id);
    if has(sel, 0) {
        let v = vs::u32();
        vs::assume(v >= 1 && v <= 268_435_455);
        if p.set_subscription_id(v).is_err() {
            vs::fail("a legal subscription identifier is rejected");
        }
        ps.push(Prop { id: 0x0b, val: vbi(v) });
    }
    if has(sel, 1) {
        p.user_props = user(&mut ps, 1);
    }
    let mut payload = vec![];
    for _ in 0..nf {
        let f = s(2);
        let (q, qb) = any_qos();
        let (nl, rap) = (vs::bit(), vs::bit());
        let rh = vs::choice(3) as u8;
        let mut sf = SubscriptionFilter::new(f.clone(), q);
        sf.set_no_local(nl);
        sf.set_retain_as_published(rap);
        sf.set_retain_handling(match rh {
            0 => RetainHandling::Send,
            1 => RetainHandling::SendNew,
            _ => RetainHandling::None,
        });
        payload.extend_from_slice(&wstr(&f));
        payload.push(qb | (nl as u8) << 2 | (rap as u8) << 3 | rh << 4);
        p.add_filter(sf);
    }
    wire(Packet::Subscribe(p), 0x82, &w16(id), &ps, true, &payload, 1);
}
pub fn h_suback(sel: u64, n: u64) {
    let mut ps = vec![];
    let id = vs::u16();
    let mut p = match SubAck::new_with_packet_id(id) {
        Ok(p) => p,
        Err(_) => {
            vs::check(id == 0, "SUBACK with a non-zero packet id is rejected");
            return;
        }
    };
    vs::check(id != 0, "SUBACK with packet id 0 is accepted");
    if has(sel, 0) {
        p.reason = Some(pstr(&mut ps, 0x1f));
    }
    if has(sel, 1) {
        p.user_properties = user(&mut ps, 1);
    }
    let mut payload = vec![];
    for _ in 0..n {
        let (r, b) = any_reason(9);
        p.reason_codes.push(r);
        payload.push(b);
    }
    wire(Packet::SubAck(p), 0x90, &w16(id), &ps, true, &payload, 1);
}
pub fn h_unsubscribe(sel: u64, n: u64) {
    let mut ps = vec![];
    let id = pid();
    let mut p = Unsubscribe::new(id, vec![]);
    if has(sel, 1) {
        p.props = user(&mut ps, 1);
    }
    let mut payload = vec![];
    for _ in 0..n {
        let f = s(2);
        payload.extend_from_slice(&wstr(&f));
        p.add_topic(f);
    }
    wire(Packet::Unsubscribe(p), 0xa2, &w16(id), &ps, true, &payload, 1);
}
pub fn h_unsuback(sel: u64, n: u64) {
    let mut ps = vec![];
    let id = pid();
    let mut p = UnsubAck { packet_id: id, ..Default::default() };
    // the reason string is not optional in this representation: it is always on the wire
    let rs = s(2);
    ps.push(Prop { id: 0x1f, val: wstr(&rs) });
    p.reason = rs;
    if has(sel, 1) {
        p.user_properties = user(&mut ps, 1);
    }
    let mut payload = vec![];
    for _ in 0..n {
        let (r, b) = any_reason(11);
        p.reason_code.push(r);
        payload.push(b);
    }
    wire(Packet::UnsubAck(p), 0xb0, &w16(id), &ps, true, &payload, 1);
}
pub fn h_ping(k: u64) {
    if k == 0 {
        wire(Packet::PingRequest(PingReq::default()), 0xc0, &[], &[], false, &[], 0);
    } else {
        wire(Packet::PingResponse(PingResp::default()), 0xd0, &[], &[], false, &[], 0);
    }
}

// ---- variable byte integers ------------------------------------------------------
pub fn h_vbi() {
    let v = vs::u32();
    let mut d = BytesMut::with_capacity(16);
    let r = codec::encode_variable_byte_int(v, &mut d);
    if v > 268_435_455 {
        vs::reach("too large");
        vs::check(r.is_err(), "a value above the MQTT maximum was encoded");
        return;
    }
    vs::check(r.is_ok(), "a legal value was rejected");
    let want = vbi(v);
    vs::check(vs::same(&d, &want), "variable byte integer encoding");
    vs::check(codec::variable_byte_int_size(v) as usize == want.len(), "variable_byte_int_size");
    match codec::decode_variable_byte_int(&mut d) {
        Ok((x, n)) => vs::check(x == v && n == want.len() && d.is_empty(), "variable byte integer round trip"),
        Err(_) => vs::fail("an encoded variable byte integer does not decode"),
    }
    vs::reach("round trip");
}
pub fn h_vbi_dec(n: u64) {
    let b = vs::bytes(n as usize);
    let mut d = buf(&b);
    match (codec::decode_variable_byte_int(&mut d), parse_vbi(&b)) {
        (Ok((x, k)), Some((y, m))) => {
            vs::reach("decoded");
            vs::check(x == y && k == m && d.len() == b.len() - m, "variable byte integer decoding");
        }
        (Err(_), None) => vs::reach("rejected"),
        (Ok(_), None) => vs::fail("an illegal variable byte integer was accepted"),
        (Err(_), Some(_)) => vs::fail("a legal variable byte integer was rejected"),
    }
}

// ---- code tables ------------------------------------------------------------------
pub fn h_codes(which: u64) {
    let b = vs::u8();
    match which {
        0 => match Reason::try_from(b) {
            Ok(r) => vs::check(is_reason(b) && r as u8 == b, "reason code table"),
            Err(_) => vs::check(!is_reason(b), "reason code table"),
        },
        1 => match QoSLevel::try_from(b) {
            Ok(q) => vs::check(b <= 2 && q as u8 == b, "QoS table"),
            Err(_) => vs::check(b > 2, "QoS table"),
        },
        2 => match PropertyType::try_from(b) {
            Ok(p) => vs::check(layout(b).is_some() && p as u8 == b, "property identifier table"),
            Err(_) => vs::check(layout(b).is_none(), "property identifier table"),
        },
        3 => match PayloadFormat::try_from(b) {
            Ok(p) => vs::check(b <= 1 && p as u8 == b, "payload format table"),
            Err(_) => vs::check(b > 1, "payload format table"),
        },
        4 => match RetainHandling::try_from(b) {
            Ok(p) => vs::check(b <= 2 && p as u8 == b, "retain handling table"),
            Err(_) => vs::check(b > 2, "retain handling table"),
        },
        5 => {
            let t = PacketType::from(b);
            vs::check(b < 0x10 || t as u8 == b & 0xf0, "packet type table");
        }
        _ => {
            // named constants carry the value the specification assigns to that name
            let named: [(Reason, u8); 43] = [
                (Reason::Success, 0x00), (Reason::GrantedQoS1, 0x01), (Reason::GrantedQoS2, 0x02),
                (Reason::DisconnectWillMsg, 0x04), (Reason::NoSubscribers, 0x10), (Reason::NoSubscriptionExisted, 0x11),
                (Reason::ContinueAuth, 0x18), (Reason::Reauthenticate, 0x19), (Reason::UnspecifiedErr, 0x80),
                (Reason::MalformedPacket, 0x81), (Reason::ProtocolErr, 0x82), (Reason::ImplementationErr, 0x83),
                (Reason::UnsupportedProtocolVersion, 0x84), (Reason::InvalidClientId, 0x85), (Reason::AuthenticationErr, 0x86),
                (Reason::NotAuthorized, 0x87), (Reason::ServerUnavailable, 0x88), (Reason::ServerBusy, 0x89),
                (Reason::Banned, 0x8a), (Reason::ServerShutdown, 0x8b), (Reason::AuthMethodErr, 0x8c),
                (Reason::KeepAliveTimeout, 0x8d), (Reason::SessionTakeOver, 0x8e), (Reason::InvalidTopicFilter, 0x8f),
                (Reason::InvalidTopicName, 0x90), (Reason::PacketIdInUse, 0x91), (Reason::PacketIdNotFound, 0x92),
                (Reason::ReceiveMaxExceeded, 0x93), (Reason::InvalidTopicAlias, 0x94), (Reason::PacketTooLarge, 0x95),
                (Reason::MessageRate, 0x96), (Reason::QuotaExceeded, 0x97), (Reason::AdminAction, 0x98),
                (Reason::PayloadFormatErr, 0x99), (Reason::RetainUnsupported, 0x9a), (Reason::QoSUnsupported, 0x9b),
                (Reason::UseDiffServer, 0x9c), (Reason::ServerMoved, 0x9d), (Reason::SharedSubUnsupported, 0x9e),
                (Reason::ConnRateExceeded, 0x9f), (Reason::MaxConnectTime, 0xa0), (Reason::SubIdUnsupported, 0xa1),
                (Reason::WildcardSubUnsupported, 0xa2),
            ];
            vs::assume((b as usize) < named.len());
            let (r, v) = named[b as usize];
            vs::check(r as u8 == v, "value of a named reason code");
            vs::check(REASONS[b as usize] == v, "value of a named reason code");
        }
    }
    vs::reach("table");
}

// ---- flag fields: every setter changes its own field only --------------------------
pub fn h_flags(which: u64) {
    match which {
        0 => {
            let mut h = FixedHeader::new(PacketType::Publish);
            let f = vs::u8();
            vs::assume(f < 16 && f & 6 != 6);
            vs::check(h.set_flags(f).is_ok(), "set_flags rejects legal flags");
            vs::check(h.flags() == f && h.retain() == (f & 1 == 1) && h.dup() == (f & 8 == 8) && h.qos() as u8 == f >> 1 & 3, "flag getters");
            let (d, r) = (vs::bit(), vs::bit());
            let (q, qb) = any_qos();
            match vs::choice(3) {
                0 => {
                    h.set_dup(d);
                    vs::check(h.flags() == f & !8 | (d as u8) << 3, "set_dup");
                }
                1 => {
                    h.set_retain(r);
                    vs::check(h.flags() == f & !1 | r as u8, "set_retain");
                }
                _ => {
                    h.set_qos(q);
                    vs::check(h.flags() == f & !6 | qb << 1, "set_qos");
                }
            }
        }
        1 => {
            // CONNECT flags: arbitrary sequence of setters, compared with a field-wise model
            let mut c = Connect::new();
            let (mut clean, mut user, mut pass, mut will) = (false, false, false, None::<(u8, bool)>);
            for _ in 0..4 {
                match vs::choice(4) {
                    0 => {
                        clean = vs::bit();
                        c.set_clean_start(clean);
                    }
                    1 => {
                        user = vs::flip();
                        c.set_username(if user { Some("u".to_string()) } else { None });
                    }
                    2 => {
                        pass = vs::flip();
                        c.set_password(if pass { Some(vec![1]) } else { None });
                    }
                    _ => {
                        let (q, qb) = any_qos();
                        let r = vs::bit();
                        will = Some((qb, r));
                        c.set_will_message(WillMessage::new("w".to_string(), b"p", q, r));
                    }
                }
            }
            vs::check(c.clean_start() == clean, "clean start flag");
            vs::check(c.username() == user, "username flag");
            vs::check(c.password() == pass, "password flag");
            vs::check(c.will() == will.is_some(), "will flag");
            if let Some((qb, r)) = will {
                vs::check(c.will_retain() == r, "will retain flag");
                match c.will_qos() {
                    Ok(q) => vs::check(q as u8 == qb, "will QoS"),
                    Err(_) => vs::fail("will QoS"),
                }
                match c.will_message() {
                    Some(w) => vs::check(w.qos as u8 == qb && w.retain == r && w.topic == "w" && &w.payload[..] == b"p", "will message"),
                    None => vs::fail("will message lost"),
                }
            }
        }
        2 => {
            let mut f = SubscriptionFilter::new("a".to_string(), QoSLevel::AtMostOnce);
            let (mut q, mut nl, mut rap, mut rh) = (0u8, false, false, 0u8);
            for _ in 0..4 {
                match vs::choice(4) {
                    0 => {
                        let (x, b) = any_qos();
                        q = b;
                        f.set_qos(x);
                    }
                    1 => {
                        nl = vs::bit();
                        f.set_no_local(nl);
                    }
                    2 => {
                        rap = vs::bit();
                        f.set_retain_as_published(rap);
                    }
                    _ => {
                        rh = vs::choice(3) as u8;
                        f.set_retain_handling(match rh {
                            0 => RetainHandling::Send,
                            1 => RetainHandling::SendNew,
                            _ => RetainHandling::None,
                        });
                    }
                }
            }
            vs::check(f.qos() as u8 == q, "filter QoS");
            vs::check(f.no_local() == nl, "no local");
            vs::check(f.retain_as_published() == rap, "retain as published");
            vs::check(f.retain_handling() as u8 == rh, "retain handling");
        }
        _ => {
            let mut a = ConnAck::default();
            let (x, y) = (vs::bit(), vs::bit());
            a.set_session_present(x);
            a.set_session_present(y);
            vs::check(a.session_present() == y, "session present");
            let (m, k) = (vs::u16(), vs::u16());
            a.set_receive_max(m);
            vs::check(a.receive_max() == if m == 0 { None } else { Some(m) }, "receive maximum");
            a.set_server_keep_alive(k);
            vs::check(a.server_keep_alive == if k == 0 { None } else { Some(k) }, "server keep alive");
            let e = vs::u32();
            a.set_session_expiry(e);
            vs::check(a.session_expiry_interval.unwrap_or(0) == e, "session expiry");
        }
    }
    vs::reach("flags");
}

// ---- PUBLISH: QoS, packet identifier and DUP stay consistent under any setter history -
pub fn h_pubapi(n: u64) {
    let (q0, qb0) = any_qos();
    let id0 = vs::u16();
    vs::assume(id0 != 0);
    let mut p = match Publish::new_with_payload(if qb0 > 0 { Some(id0) } else { None }, "t".to_string(), q0, b"xy".to_vec()) {
        Ok(p) => p,
        Err(_) => vs::fail("a valid PUBLISH cannot be constructed"),
    };
    for _ in 0..n {
        match vs::choice(4) {
            0 => p.set_qos(any_qos().0),
            1 => {
                let _ = p.set_dup(vs::bit());
            }
            2 => {
                let id = vs::u16();
                vs::assume(id != 0);
                let _ = p.set_packet_id(Some(id));
            }
            _ => p.set_retain(vs::bit()),
        }
    }
    // whatever the history, what goes on the wire must be a PUBLISH that means the same thing
    let mut d = BytesMut::with_capacity(32);
    let w = Packet::Publish(p.clone());
    match w.encode(&mut d) {
        Err(_) => {
            // refusing is only acceptable when the QoS needs a packet identifier and there is none
            vs::check(p.qos() != QoSLevel::AtMostOnce && p.packet_id().is_none(), "a consistent PUBLISH cannot be encoded");
            vs::reach("refused");
        }
        Ok(()) => {
            vs::reach("encoded");
            self_consistent(&w, &d);
            vs::check(d[0] >> 1 & 3 == p.qos() as u8, "QoS bits");
            vs::check(d[0] & 8 == 0 || p.qos() != QoSLevel::AtMostOnce, "DUP set on a QoS 0 PUBLISH");
            match dec(&d) {
                Ok(Some((Packet::Publish(x), u))) => {
                    vs::check(u == d.len(), "decoded length");
                    vs::check(x.qos() == p.qos() && x.retain() == p.retain(), "decoded header");
                    vs::check(x.topic_name == "t", "decoded topic");
                    match &x.payload {
                        Some(b) => vs::check(&b[..] == b"xy", "the payload on the wire is not the payload of the packet"),
                        None => vs::fail("payload lost"),
                    }
                    if p.qos() == QoSLevel::AtMostOnce {
                        vs::check(x.packet_id().is_none(), "QoS 0 PUBLISH carries a packet identifier");
                    } else {
                        vs::check(x.packet_id().is_some() && x.packet_id() == p.packet_id(), "packet identifier");
                    }
                }
                _ => vs::fail("an encoded PUBLISH does not decode"),
            }
        }
    }
}
/// Constructors accept exactly the legal packet-id/QoS combinations.
pub fn h_pubnew(a: u64) {
    let (q, qb) = any_qos();
    let id = vs::u16();
    let some = vs::flip();
    let pid = if some { Some(id) } else { None };
    let r = if a == 0 {
        Publish::new_with_payload(pid, "t".to_string(), q, b"xy".to_vec())
    } else {
        Publish::new_with_message(pid, "t".to_string(), q, "xy")
    };
    match r {
        Ok(p) => {
            vs::check(some == (qb > 0), "a PUBLISH was constructed with an illegal packet-id/QoS combination");
            vs::check(p.qos() as u8 == qb && p.packet_id() == pid && !p.dup() && !p.retain(), "constructor state");
            vs::check(p.payload_format == if a == 0 { None } else { Some(PayloadFormat::Utf8) }, "payload format");
            vs::reach("constructed");
        }
        Err(_) => {
            vs::check(some != (qb > 0), "a legal packet-id/QoS combination was rejected");
            vs::reach("rejected");
        }
    }
}
/// Length limits of strings and binary fields.
pub fn h_limits(which: u64) {
    let n = match which {
        0 => 65535usize,
        1 => 65536,
        2 => 65537,
        _ => 70000,
    };
    let v = vec![b'a'; n];
    let mut d = BytesMut::with_capacity(70010);
    let r = codec::encode_array_field(&v, &mut d);
    vs::check(r.is_ok() == (n <= 65535), "binary field length limit");
    let st = unsafe { String::from_utf8_unchecked(v) };
    let mut e = BytesMut::with_capacity(70010);
    let r = codec::encode_string(&st, &mut e);
    vs::check(r.is_ok() == (n <= 65535), "string length limit");
    if n <= 65535 {
        let mut x = String::new();
        vs::check(matches!(x.decode(&mut e), Ok(k) if k == n + 2), "long string");
        vs::check(x.len() == n, "long string");
        let _ = Bytes::new();
    }
    vs::reach("limits");
}

// ---- which properties a packet type may carry (MQTT 2.2.2.2, table 2-4) --------------
/// t: packet type, 15 = will properties
fn allowed(t: u64, id: u8) -> bool {
    match t {
        1 => matches!(id, 0x11 | 0x15 | 0x16 | 0x17 | 0x19 | 0x21 | 0x22 | 0x26 | 0x27),
        2 => matches!(id, 0x11 | 0x12 | 0x13 | 0x15 | 0x16 | 0x1a | 0x1c | 0x1f | 0x21 | 0x22 | 0x24 | 0x25 | 0x26 | 0x27 | 0x28 | 0x29 | 0x2a),
        3 => matches!(id, 0x01 | 0x02 | 0x03 | 0x08 | 0x09 | 0x0b | 0x23 | 0x26),
        4 | 5 | 6 | 7 | 9 | 11 => matches!(id, 0x1f | 0x26),
        8 => matches!(id, 0x0b | 0x26),
        10 => matches!(id, 0x26),
        14 => matches!(id, 0x11 | 0x1c | 0x1f | 0x26),
        _ => matches!(id, 0x01 | 0x02 | 0x03 | 0x08 | 0x09 | 0x18 | 0x26),
    }
}
/// A packet with exactly one (legally encoded) property is accepted exactly when the property belongs to the packet
/// type; `delta` makes the declared property length disagree with the property by that much (1: short, 2: long).
pub fn h_propset(t: u64, delta: u64) {
    let id = vs::u8();
    // one representative per layout, the identifier itself stays symbolic within the layout class
    let class = vs::choice(7);
    let (want, val) = match class {
        0 => (Some(Lay::B1), vec![(vs::u8() & 1)]),
        1 => (Some(Lay::B2), vs::bytes(2)),
        2 => (Some(Lay::B4), vs::bytes(4)),
        3 => (Some(Lay::Var), vec![vs::u8() & 0x7f | 1]),
        4 => (Some(Lay::Str), wstr(&vs::string(1))),
        5 => (Some(Lay::Pair), cat(&[&wstr(&vs::string(1)), &wstr(&vs::string(1))])),
        _ => (None, vec![0, 0, 0, 0]),
    };
    vs::assume(layout(id) == want);
    // values MQTT does not allow are the matter of h_strict
    match class {
        1 => vs::assume((id != 0x21) & (id != 0x23) | (val[0] | val[1] != 0)),
        2 => vs::assume((id != 0x27) | (val[0] | val[1] | val[2] | val[3] != 0)),
        _ => {}
    }
    // authentication data need a method
    let before = if t == 1 && class == 4 && id == 0x16 { cat(&[&[0x15], &wstr("m")]) } else { vec![] };
    let n = (before.len() + 1 + val.len()) as u8;
    let declared = match delta {
        0 => n,
        1 => n - 1,
        _ => n + 1,
    };
    let ps = cat(&[&[declared], &before, &[id], &val]);
    let first = match t {
        8 => 0x82,
        10 => 0xa2,
        6 => 0x62,
        15 => 0x10,
        _ => (t as u8) << 4,
    };
    let connect = |flags: u8| cat(&[&wstr("MQTT"), &[5, flags, 0, 0]]);
    // a payload that cannot be mistaken for more properties
    let body = match t {
        1 => cat(&[&connect(0), &ps, &wstr("c")]),
        15 => cat(&[&connect(4), &[0], &wstr("c"), &ps, &wstr("t"), &wstr("p")]),
        2 => cat(&[&[0, 0], &ps]),
        3 => cat(&[&wstr("t"), &ps, b""]),
        4..=7 => cat(&[&[0, 1, 0], &ps]),
        8 => cat(&[&[0, 1], &ps, &wstr("t"), &[0]]),
        9 | 11 => cat(&[&[0, 1], &ps, &[0]]),
        10 => cat(&[&[0, 1], &ps, &wstr("t")]),
        _ => cat(&[&[0], &ps]),
    };
    let fr = cat(&[&[first, body.len() as u8], &body]);
    let ok = allowed(t, id);
    match dec(&fr) {
        Ok(Some(_)) => {
            vs::check(ok, "a property that does not belong to the packet type was accepted");
            vs::check(delta == 0, "a property length that disagrees with the properties was accepted");
            vs::reach("accepted");
        }
        r => {
            vs::check(!needs_more(&r), "a complete but malformed frame was reported as incomplete");
            vs::check(delta != 0 || !ok, "a legal property was rejected");
            vs::reach("rejected");
        }
    }
}

// ---- fields whose sizes cross the encoding boundaries ---------------------------------
fn big(n: usize) -> String {
    let mut v = vec![b'a'; n];
    if n > 4 {
        let e = vs::bytes(2);
        vs::assume(e[0] >= 1 && e[0] < 0x80 && e[1] >= 1 && e[1] < 0x80);
        v[0] = e[0];
        v[n - 1] = e[1];
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// The same with (mostly) two-byte characters: bytes and characters must not be confused.
fn wide(n: usize) -> String {
    let mut v = vec![0xa9u8; n];
    for i in 0..n / 2 {
        v[2 * i] = 0xc3;
    }
    if n % 2 == 1 {
        v[n - 1] = b'a';
    }
    if n > 1 {
        let e = vs::u8();
        vs::assume(e & 0xc0 == 0x80);
        v[1] = e;
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// kind selects the field (+ 100: filled with two-byte characters), n its length in bytes.
type Parts = (Packet, u8, Vec<u8>, Vec<Prop>, Vec<u8>);
fn big_packet(kind: u64, n: u64) -> Parts {
    let s = if kind >= 100 { wide(n as usize) } else { big(n as usize) };
    let kind = kind % 100;
    let id = vs::u16();
    vs::assume(id != 0);
    let (mk_user, up) = {
        let mut u = UserProperty::new();
        u.add("k".to_string(), s.clone());
        (u, Prop { id: 0x26, val: cat(&[&wstr("k"), &wstr(&s)]) })
    };
    let publish = |t: &str, p: &[u8]| match Publish::new_with_payload(Some(id), t.to_string(), QoSLevel::AtLeastOnce, p.to_vec()) {
        Ok(p) => p,
        Err(_) => vs::fail("a valid PUBLISH cannot be constructed"),
    };
    match kind {
        0 => (Packet::Publish(publish("t", s.as_bytes())), 0x32, cat(&[&wstr("t"), &w16(id)]), vec![], s.as_bytes().to_vec()),
        1 => (Packet::Publish(publish(&s, b"p")), 0x32, cat(&[&wstr(&s), &w16(id)]), vec![], b"p".to_vec()),
        2 => {
            let mut p = publish("t", b"p");
            p.user_properties = mk_user;
            (Packet::Publish(p), 0x32, cat(&[&wstr("t"), &w16(id)]), vec![up], b"p".to_vec())
        }
        3 => {
            let mut p = publish("t", b"p");
            p.correlation_data = s.as_bytes().to_vec();
            (Packet::Publish(p), 0x32, cat(&[&wstr("t"), &w16(id)]), vec![Prop { id: 9, val: wstr(&s) }], b"p".to_vec())
        }
        4 => {
            let mut c = Connect::new();
            c.client_id = s.clone();
            c.keep_alive = id;
            (Packet::Connect(Box::new(c)), 0x10, cat(&[&wstr("MQTT"), &[5, 0], &w16(id)]), vec![], wstr(&s))
        }
        5 => {
            let mut c = Connect::new();
            c.client_id = "c".to_string();
            c.keep_alive = id;
            c.user_properties = mk_user;
            c.set_password(Some(s.as_bytes().to_vec()));
            let pl = cat(&[&wstr("c"), &wstr(&s)]);
            (Packet::Connect(Box::new(c)), 0x10, cat(&[&wstr("MQTT"), &[5, 0x40], &w16(id)]), vec![up], pl)
        }
        6 => {
            let mut c = Connect::new();
            c.client_id = "c".to_string();
            c.keep_alive = id;
            let mut w = WillMessage::new("t".to_string(), s.as_bytes(), QoSLevel::AtLeastOnce, false);
            w.header.content_type = Some(s.clone());
            c.set_will_message(w);
            let pl = cat(&[&wstr("c"), &props(&[Prop { id: 3, val: wstr(&s) }]), &wstr("t"), &wstr(&s)]);
            (Packet::Connect(Box::new(c)), 0x10, cat(&[&wstr("MQTT"), &[5, 0x0c], &w16(id)]), vec![], pl)
        }
        7 => {
            let mut a = ConnAck::default();
            a.reason_string = Some(s.clone());
            a.receive_maximum = Some(id);
            let ps = [Prop { id: 0x1f, val: wstr(&s) }, Prop { id: 0x21, val: w16(id) }];
            (Packet::ConnAck(a), 0x20, vec![0, 0], ps.to_vec(), vec![])
        }
        8 => {
            let mut p = Subscribe::new_with_packet_id(id);
            p.add_filter(SubscriptionFilter::new(s.clone(), QoSLevel::AtLeastOnce));
            p.user_props = mk_user;
            (Packet::Subscribe(p), 0x82, w16(id), vec![up], cat(&[&wstr(&s), &[1]]))
        }
        9 => {
            let mut p = match SubAck::new_with_packet_id(id) {
                Ok(p) => p,
                Err(_) => vs::fail("SUBACK with a non-zero packet id is rejected"),
            };
            p.reason_codes = vec![Reason::GrantedQoS1; n as usize];
            (Packet::SubAck(p), 0x90, w16(id), vec![], vec![1; n as usize])
        }
        10 => {
            let mut p = Unsubscribe::new(id, vec![s.clone()]);
            p.props = mk_user;
            (Packet::Unsubscribe(p), 0xa2, w16(id), vec![up], wstr(&s))
        }
        11 => {
            let mut p = UnsubAck { packet_id: id, ..Default::default() };
            p.reason = s.clone();
            p.reason_code = vec![Reason::Success; n as usize];
            (Packet::UnsubAck(p), 0xb0, w16(id), vec![Prop { id: 0x1f, val: wstr(&s) }], vec![0; n as usize])
        }
        12 => {
            let mut p = Disconnect::new(Reason::UnspecifiedErr);
            p.reason_string = Some(s.clone());
            (Packet::Disconnect(p), 0xe0, vec![0x80], vec![Prop { id: 0x1f, val: wstr(&s) }], vec![])
        }
        _ => {
            // an acknowledgement: built by decoding the reference form
            let body = cat(&[&w16(id), &[0x80], &props(&[Prop { id: 0x1f, val: wstr(&s) }])]);
            let fr = cat(&[&[0x40], &vbi(body.len() as u32), &body]);
            match dec(&fr) {
                Ok(Some((p, u))) => {
                    vs::check(u == fr.len(), "decoded length of a reference packet");
                    (p, 0x40, cat(&[&w16(id), &[0x80]]), vec![Prop { id: 0x1f, val: wstr(&s) }], vec![])
                }
                _ => vs::fail("the reference encoding of a packet does not decode"),
            }
        }
    }
}

/// Field `kind` at every size lo <= n < lo + span.
pub fn h_big(kind: u64, lo: u64, span: u64) {
    let n = lo + if span > 1 { vs::choice(span) } else { 0 };
    if n == 0 && matches!(kind % 100, 1 | 9 | 11) {
        return; // a PUBLISH without topic, an acknowledgement without reason codes
    }
    let (p, first, vh, ps, payload) = big_packet(kind, n);
    wire(p, first, &vh, &ps, true, &payload, 1);
}
/// A field longer than its length prefix can express must be refused, not truncated.
pub fn h_toolong(kind: u64, n: u64) {
    let (p, ..) = if kind == 13 { return vs::reach("refused") } else { big_packet(kind, n) };
    let mut d = BytesMut::with_capacity(3 * n as usize + 64);
    vs::check(p.encode(&mut d).is_err(), "a field that is too long for its length prefix was encoded");
    vs::reach("refused");
}

/// User properties form a multimap: keys may repeat, the values of one key keep their order.
pub fn h_user(n: u64) {
    let mut u = UserProperty::new();
    let mut pairs: Vec<(String, String)> = vec![];
    for i in 0..n {
        let k = vs::ascii(1);
        let v = vs::string(if i == 1 { 2 } else { 1 });
        u.add(k.clone(), v.clone());
        pairs.push((k, v));
    }
    let group = |ps: &Vec<(String, String)>, k: &str| ps.iter().filter(|x| x.0 == k).map(|x| x.1.clone()).collect::<Vec<String>>();
    for (k, _) in &pairs {
        match u.get(k) {
            Some(vs_) => vs::check(*vs_ == group(&pairs, k), "values of a user property"),
            None => vs::fail("a user property was lost"),
        }
    }
    let id = pid();
    let mut p = Unsubscribe::new(id, vec!["t".to_string()]);
    p.props = u;
    let w = Packet::Unsubscribe(p);
    let mut d = BytesMut::with_capacity(64);
    if w.encode(&mut d).is_err() {
        vs::fail("encoding a valid packet failed");
    }
    let hdr = self_consistent(&w, &d);
    match parse_props(&d[hdr + 2..]) {
        Some((got, _)) => {
            vs::check(got.len() as u64 == n, "number of encoded properties");
            let on_wire: Vec<(String, String)> = got
                .iter()
                .map(|g| {
                    let kl = g.val[1] as usize;
                    let k = String::from_utf8_lossy(&g.val[2..2 + kl]).into_owned();
                    let v = unsafe { String::from_utf8_unchecked(g.val[4 + kl..].to_vec()) };
                    (k, v)
                })
                .collect();
            for (k, _) in &pairs {
                vs::check(group(&on_wire, k) == group(&pairs, k), "order of the values of a user property on the wire");
            }
        }
        None => vs::fail("the encoded property section is malformed"),
    }
    match dec(&d) {
        Ok(Some((q, _))) => vs::check(q == w, "decoding an encoded packet yields a different packet"),
        _ => vs::fail("an encoded packet does not decode"),
    }
    vs::reach("round trip");
}

/// Decoding returns, whatever the bytes are.
pub fn h_total(t: u64, n: u64) {
    let mut b = vs::bytes(n as usize);
    if !b.is_empty() {
        b[0] = (t as u8) << 4 | b[0] & 0x0f;
    }
    match dec(&b) {
        Ok(Some(_)) => vs::reach("decoded"),
        Ok(None) => {}
        Err(_) => vs::reach("rejected"),
    }
}

// ---- only what MQTT 5 allows is accepted ---------------------------------------------
struct Cur<'a> {
    b: &'a [u8],
    at: usize,
}
type Why = Result<(), &'static str>;
const SHORT: &str = "a packet whose fields do not fill it exactly was accepted";
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], &'static str> {
        if self.b.len() - self.at < n {
            return Err(SHORT);
        }
        self.at += n;
        Ok(&self.b[self.at - n..self.at])
    }
    fn u8(&mut self) -> Result<u8, &'static str> {
        Ok(self.take(1)?[0])
    }
    fn u16(&mut self) -> Result<u16, &'static str> {
        let b = self.take(2)?;
        Ok(u16::from_be_bytes([b[0], b[1]]))
    }
    fn vbi(&mut self) -> Result<u32, &'static str> {
        match parse_vbi(&self.b[self.at..]) {
            Some((v, n)) => {
                self.at += n;
                if n > 1 && self.b[self.at - 1] == 0 {
                    return Err("a variable byte integer longer than necessary was accepted");
                }
                Ok(v)
            }
            None => Err(SHORT),
        }
    }
    fn bin(&mut self) -> Result<&'a [u8], &'static str> {
        let n = self.u16()?;
        self.take(vs::concrete(n as usize))
    }
    fn str(&mut self) -> Result<&'a [u8], &'static str> {
        let s = self.bin()?;
        if std::str::from_utf8(s).is_err() {
            return Err("a string that is not UTF-8 was accepted");
        }
        let mut nul = false;
        for c in s {
            nul |= *c == 0;
        }
        if nul {
            return Err("a string with a null character was accepted");
        }
        Ok(s)
    }
    fn end(&self) -> Why {
        if self.at == self.b.len() { Ok(()) } else { Err(SHORT) }
    }
    fn done(&self) -> bool {
        self.at == self.b.len()
    }
    /// The properties of packet type t (15: will); which were there
    fn props(&mut self, t: u64) -> Result<[bool; 64], &'static str> {
        let n = self.vbi()?;
        let n = vs::concrete(n as usize);
        let mut c = Cur { b: self.take(n)?, at: 0 };
        let mut seen = [false; 64];
        while !c.done() {
            let id = c.u8()?;
            if !allowed(t, id) {
                return Err("a property that does not belong to the packet type was accepted");
            }
            let id = vs::concrete(id as usize);
            if seen[id] && id != 0x26 && !(id == 0x0b && t == 3) {
                return Err("a property that occurs twice was accepted");
            }
            seen[id] = true;
            let bad = match layout(id as u8) {
                Some(Lay::B1) => {
                    let v = c.u8()?;
                    v > 1
                }
                Some(Lay::B2) => {
                    let v = c.u16()?;
                    v == 0 && (id == 0x21 || id == 0x23)
                }
                Some(Lay::B4) => {
                    let b = c.take(4)?;
                    id == 0x27 && (b[0] | b[1] | b[2] | b[3]) == 0
                }
                Some(Lay::Var) => c.vbi()? == 0,
                Some(Lay::Str) => {
                    if matches!(id, 0x09 | 0x16) {
                        // (empty authentication data count as none)
                        seen[0] |= c.bin()?.len() > 0 && id == 0x16;
                    } else {
                        c.str()?;
                    }
                    false
                }
                _ => {
                    c.str()?;
                    c.str()?;
                    false
                }
            };
            if bad {
                return Err("a property with a value MQTT does not allow was accepted");
            }
        }
        Ok(seen)
    }
}
const CODE: &str = "a reason code that does not belong to the packet type was accepted";
fn reason(t: u64, r: u8) -> Why {
    let ok = match t {
        2 => matches!(r, 0 | 0x80..=0x8a | 0x8c | 0x90 | 0x95 | 0x97 | 0x99..=0x9d | 0x9f),
        4 | 5 => matches!(r, 0 | 0x10 | 0x80 | 0x83 | 0x87 | 0x90 | 0x91 | 0x97 | 0x99),
        // (0x91 is not MQTT's, but the crate's: PacketIdInUse)
        6 | 7 => matches!(r, 0 | 0x91 | 0x92),
        9 => matches!(r, 0 | 1 | 2 | 0x80 | 0x83 | 0x87 | 0x8f | 0x91 | 0x97 | 0x9e | 0xa1 | 0xa2),
        // any reason code there is: the crate's own tests put others than MQTT does into an UNSUBACK
        11 => matches!(r, 0..=2 | 4 | 0x10 | 0x11 | 0x18 | 0x19 | 0x80..=0xa2),
        _ => matches!(r, 0 | 4 | 0x80..=0x83 | 0x87 | 0x89 | 0x8b | 0x8d..=0x90 | 0x93..=0xa2),
    };
    if ok { Ok(()) } else { Err(CODE) }
}
const PID: &str = "packet identifier 0 was accepted";
/// Is the body of a packet with this first byte what MQTT 5 allows?
fn strict(first: u8, b: &[u8]) -> Why {
    let t = first as u64 >> 4;
    let mut c = Cur { b, at: 0 };
    match t {
        1 => {
            if c.take(6)? != b"\0\x04MQTT" {
                return Err("another protocol was accepted");
            }
            if c.u8()? != 5 {
                return Err("another protocol version was accepted");
            }
            let f = c.u8()?;
            if f & 1 != 0 {
                return Err("a reserved bit in CONNECT was accepted");
            }
            if f & 0x18 == 0x18 || f & 4 == 0 && f & 0x38 != 0 {
                return Err("will flags MQTT does not allow were accepted");
            }
            c.u16()?;
            let seen = c.props(1)?;
            if seen[0] && !seen[0x15] {
                return Err("authentication data without a method were accepted");
            }
            c.str()?;
            if f & 4 != 0 {
                c.props(15)?;
                c.str()?;
                c.bin()?;
            }
            if f & 0x80 != 0 {
                c.str()?;
            }
            if f & 0x40 != 0 {
                c.bin()?;
            }
            c.end()
        }
        2 => {
            let a = c.u8()?;
            if a > 1 {
                return Err("a reserved bit in CONNACK was accepted");
            }
            let r = c.u8()?;
            reason(2, r)?;
            if a == 1 && r != 0 {
                return Err("session present in a refused CONNACK was accepted");
            }
            c.props(2)?;
            c.end()
        }
        3 => {
            if first & 0xe == 8 {
                return Err("DUP at QoS 0 was accepted");
            }
            let n = c.str()?.len();
            if first & 6 != 0 && c.u16()? == 0 {
                return Err(PID);
            }
            let seen = c.props(3)?;
            if n == 0 && !seen[0x23] {
                return Err("a PUBLISH without topic and topic alias was accepted");
            }
            Ok(())
        }
        4..=7 => {
            if c.u16()? == 0 {
                return Err(PID);
            }
            if c.done() {
                return Ok(());
            }
            reason(t, c.u8()?)?;
            if c.done() {
                return Ok(());
            }
            c.props(t)?;
            c.end()
        }
        8 | 10 => {
            if c.u16()? == 0 {
                return Err(PID);
            }
            c.props(t)?;
            if c.done() {
                return Err("a packet without a topic filter was accepted");
            }
            while !c.done() {
                // (an empty topic filter is refused by the broker)
                c.str()?;
                if t == 8 {
                    let o = c.u8()?;
                    if o & 0xc0 != 0 || o & 3 == 3 || o & 0x30 == 0x30 {
                        return Err("subscription options MQTT does not allow were accepted");
                    }
                }
            }
            Ok(())
        }
        9 | 11 => {
            if c.u16()? == 0 {
                return Err(PID);
            }
            c.props(t)?;
            if c.done() {
                return Err("an acknowledgement without reason codes was accepted");
            }
            while !c.done() {
                reason(t, c.u8()?)?;
            }
            Ok(())
        }
        12 | 13 => c.end(),
        _ => {
            if c.done() {
                return Ok(());
            }
            reason(14, c.u8()?)?;
            if c.done() {
                return Ok(());
            }
            c.props(14)?;
            c.end()
        }
    }
}
/// Any body of `n` bytes, after the start `pre` gives it: accepted only if MQTT 5 allows it.
pub fn h_strict(t: u64, n: u64, pre: u64) {
    let head: &[u8] = match (t, pre) {
        (1, 1) => b"\0\x04MQTT\x05",
        (1, 2) => b"\0\x04MQTT\x05\x04\0\0\0\0\0",
        (3, 1) => b"\0\x01t",
        _ => b"",
    };
    let body = cat(&[head, &vs::bytes(n as usize)]);
    let first = (t as u8) << 4 | vs::u8() & 0x0f;
    let fr = cat(&[&[first, body.len() as u8], &body]);
    match dec(&fr) {
        Ok(Some(_)) => {
            vs::reach("accepted");
            if let Err(why) = strict(first, &body) {
                vs::fail(why);
            }
        }
        _ => {
            vs::reach("refused");
        }
    }
}
