"""Which symbolic-execution jobs decide which property.

A job is (entry, args[, options]).  Options: shards (split the path tree over processes), weight (start order),
best_effort (a time limit on this job is reported, but not an error), max_time, max_steps.
"""
HARNESSES = {
    "net": {"dir": "net", "bin": "hnet"},
    "codec": {"dir": "codec", "bin": "hcodec"},
    "self": {"dir": "self", "bin": "hself"},  # std idioms, to test the engine (tools/selftest.sh)
}
COMMON_ASSUMPTIONS = [
    "the engine (vsym) executes the LLVM IR rustc emits for the current sources; rustc/LLVM's O2 pipeline, the engine and Z3 are trusted, "
    "cross-checked on every run by replaying solver models of completed paths on a native build",
    "memory allocation does not fail; panics abort",
    "summaries: core::str::from_utf8 = exact UTF-8 predicate, HashMap hashing = constant (every key collides), format!() = empty string",
]
CHECKS = {}


def check(pid, harness, bounds, reach=None, outside="", assumptions=()):
    def deco(f):
        CHECKS[pid] = {"harness": harness, "jobs": f, "bounds": bounds, "reach": reach or {}, "outside": outside,
                       "assumptions": list(assumptions)}
        return f
    return deco


def J(entry, *args, **o):
    return (entry, list(args), o)


TYPES = range(16)

# ---------------------------------------------------------------------------------------------------------------------
# codec


@check("C01", "codec",
       bounds="quick: byte sequences of 0-3, 5, 7 and 10 bytes for every packet type (CONNECT also 13, PUBLISH 9); thorough: every length up to 13 (CONNECT 18, PUBLISH and SUBSCRIBE 12)",
       reach={"h_total": ["decoded", "rejected"]})
def c01(tier):
    q = tier == "quick"
    for t in TYPES:
        top = {1: 13, 3: 9, 8: 10, 2: 10}.get(t, 10) if q else {1: 18, 3: 12, 8: 12, 2: 13, 9: 13, 10: 13, 11: 13}.get(t, 13)
        for n in ([0, 1, 2, 3, 5, 7, top] if q else range(0, top + 1)):
            if n <= top:
                yield J("h_total", t, n, weight=n + (9 if t == 1 else 0), shards=4 if n > 12 else 1)


@check("C02", "codec", bounds="every byte sequence up to 8 bytes (9 for CONNECT) for every packet type (quick); up to 11 (thorough)",
       reach={"h_frame": ["incomplete", "bad length", "decoded", "rejected", "decoded with trailing data"]})
def c02(tier):
    q = tier == "quick"
    for t in TYPES:
        for n in ([0, 1, 2, 3, 4, 5, 6, 8] if q else range(0, 12)):
            yield J("h_frame", t, n, weight=n)


@check("C03", "codec", bounds="every frame with up to 8 body bytes (11 for CONNECT) (quick), 10 (13) (thorough)", reach={"h_reenc": ["decoded"]})
def c03(tier):
    q = tier == "quick"
    for t in range(1, 15):
        top = 11 if t == 1 else 8
        for n in (range(0, top + 1) if q else range(0, top + 3)):
            if t != 1 or n >= 10:
                yield J("h_reenc", t, n, weight=n)


def sels(nbits, q, always=()):
    """no property, all, each alone, (thorough) each pair"""
    s = {0, (1 << nbits) - 1}
    s |= {1 << i for i in range(nbits)}
    s |= {((1 << nbits) - 1) & ~(1 << i) for i in range(nbits)} if nbits < 9 else set()
    if not q:
        s |= {1 << i | 1 << j for i in range(nbits) for j in range(i)}
    s |= set(always)
    return sorted(s)


RT = {"round trip"}


@check("C04", "codec", reach={"h_connect": ["round trip"], "h_big": ["round trip"]},
       bounds="each property alone (authentication data with a method), none, all (thorough: each pair); strings and binaries of up to 2 symbolic bytes, integers of full width; client id, user property, password, will payload and content type also with the lengths around 127, 255, 16 383 and 65 535")
def c04(tier):
    q = tier == "quick"
    for s in sels(9, q, [1 << 8 | 1 << 19]):
        for rot in (0, 1, 3):
            if rot == 0 or bin(s).count("1") > rot:
                yield J("h_connect", s, rot)
    for s in sels(7, q):
        yield J("h_connect", 1 << 9 | s << 10, 0, weight=2)
    for s in range(8):
        yield J("h_connect", s << 17 & 0x60000 | (s >> 2 & 1) << 9, 0)
    yield J("h_connect", 1 << 9 | 0x60000 | 1 << 8 | 1, 1, weight=2)
    for k in (4, 5, 6, 104, 105, 106):
        for lo, n in ((110, 20), (255, 3), (16350, 30), (65533, 3)):
            yield J("h_big", k, lo, n)
    if not q:
        yield J("h_connect", 523776, 1, weight=4)


@check("C05", "codec", reach={"h_connack": ["round trip"], "h_big": ["round trip"]},
       bounds="each property alone (authentication data with a method), none, all (thorough: each pair); strings and binaries of up to 2 symbolic bytes, integers of full width; the reason string also with the lengths around 127, 255, 16 383 and 65 535")
def c05(tier):
    q = tier == "quick"
    for s in sels(17, q):
        yield J("h_connack", s, 0)
    for rot in (1, 5, 9, 13):
        yield J("h_connack", (1 << 17) - 1, rot, weight=3)
    for k in (7, 107):
        for lo, n in ((110, 20), (255, 3), (16360, 20), (65533, 3)):
            yield J("h_big", k, lo, n)


@check("C06", "codec", reach={"h_publish": ["round trip"], "h_big": ["round trip"]},
       bounds="each property alone, none, all (thorough: each pair); topic up to 2, payload up to 3 symbolic bytes, integers of full width; payload, topic, user property and correlation data also with the lengths around 127, 255, 16 383 and 65 535 and 131 072")
def c06(tier):
    q = tier == "quick"
    for s in sels(8, q, [0x180]):
        yield J("h_publish", s, 0, weight=1 + bin(s).count("1"))
    for rot in (2, 5):
        yield J("h_publish", 0xff, rot, weight=9)
    for lo, n in ((126, 4), (255, 3), (16380, 8), (65533, 6), (131070, 4)):
        yield J("h_big", 0, lo, n)
        for k in (1, 2, 3, 101, 102):
            if lo < 65533:
                yield J("h_big", k, lo, n)
            elif lo == 65533:
                yield J("h_big", k, lo, 3)


@check("C07", "codec", reach={"h_pubresp": ["round trip"], "h_big": ["round trip"]},
       bounds="PUBACK, PUBREC, PUBREL, PUBCOMP x {full, no properties, no reason} x {reason string, user property}; every reason code, every packet id; the reason string also with the lengths around 127, 255, 16 383 and 65 535")
def c07(tier):
    for k in (4, 5, 6, 7):
        for s in (0, 1, 2, 4, 8, 12):
            yield J("h_pubresp", k, s, 0)
        yield J("h_pubresp", k, 12, 1)
    for lo, n in ((120, 12), (255, 3), (16370, 16), (65533, 3)):
        yield J("h_big", 13, lo, n)


@check("C08", "codec", reach={"h_subscribe": RT, "h_suback": RT, "h_unsubscribe": RT, "h_unsuback": RT, "h_big": RT},
       bounds="1 to 2 filters, 1 to 3 topics or codes, with every option combination (thorough: 3 filters), filters up to 2 bytes, every property combination; filters, user property, reason string and the list of codes also with the lengths around 127, 255, 16 383 and 65 535")
def c08(tier):
    q = tier == "quick"
    for s in range(4):
        for n in range(1, 3):
            yield J("h_subscribe", s, n, weight=n)
        for n in range(1, 4):
            yield J("h_suback", s, n)
            yield J("h_unsubscribe", s, n)
            yield J("h_unsuback", s, n)
    for k in (8, 9, 10, 11, 108, 110, 111):
        for lo, n in ((120, 10), (255, 3), (16375, 10), (65533, 3)):
            yield J("h_big", k, lo, n)
    for lo in (65536, 70000):
        yield J("h_big", 9, lo, 1)
    if not q:
        yield J("h_subscribe", 0, 3, weight=9)


@check("C09", "codec", reach={"h_disconnect": RT, "h_ping": RT, "h_big": RT}, bounds="DISCONNECT with every property combination and both abbreviated forms, every reason code; PINGREQ, PINGRESP; the reason string also with the lengths around 127, 255, 16 383 and 65 535")
def c09(tier):
    for s in list(range(16)) + [16, 48]:
        yield J("h_disconnect", s, 0)
    yield J("h_disconnect", 15, 1)
    yield J("h_disconnect", 15, 2)
    for lo, n in ((120, 12), (255, 3), (16370, 16), (65533, 3)):
        yield J("h_big", 12, lo, n)
        yield J("h_big", 112, lo, n)
    yield J("h_ping", 0)
    yield J("h_ping", 1)


@check("C10", "codec", reach={"h_big": RT, "h_subscribe": RT, "h_publish": RT, "h_pubresp": RT},
       bounds="14 variable-length fields over all packet types, every field length 0..329, and 16 370..16 390, 65 535 (thorough: 0..1023, 16 300..16 430, 2 097 140..2 097 160 payload bytes); "
              "the field content is a fixed pattern with symbolic first and last byte; every subscription identifier; acknowledgements with and without reason and properties")
def c10(tier):
    q = tier == "quick"
    for k in range(14):
        # (an empty correlation data is represented as an absent one)
        yield J("h_big", k, 1 if k == 3 else 0, 200, weight=3)
        yield J("h_big", k, 200, 130, weight=3)
        yield J("h_big", k, 16370, 21, weight=2)
        if k not in (0, 9):
            yield J("h_big", k, 65535, 1)
        if not q:
            for lo in range(330, 1024, 231):
                yield J("h_big", k, lo, 231, weight=4)
            yield J("h_big", k, 16300, 130, weight=4)
    yield J("h_big", 0, 2097140, 3 if q else 20, weight=4)
    # sizes that depend on a value: subscription identifiers, and the abbreviated acknowledgements
    for sel in (1, 3):
        yield J("h_subscribe", sel, 1)
    for sel in (1 << 5, 1 << 5 | 1):
        yield J("h_publish", sel, 0, weight=2)
    for k in (4, 5, 6, 7):
        for sel in (0, 2, 4, 12):
            yield J("h_pubresp", k, sel, 0)


@check("C11", "codec", reach={"h_vbi": ["round trip", "too large"], "h_vbi_dec": ["decoded", "rejected"]}, bounds="all 2^32 values; all byte sequences of up to 6 bytes")
def c11(tier):
    yield J("h_vbi")
    for n in range(0, 7):
        yield J("h_vbi_dec", n)


@check("C12", "codec", reach={"h_codes": ["table"]}, bounds="all 256 byte values of each of the six code tables; all 43 named reason codes")
def c12(tier):
    for w in range(7):
        yield J("h_codes", w)


@check("C13", "codec", reach={"h_flags": ["flags"]}, bounds="any sequence of 4 setter calls with any arguments (thorough: same); fixed header flags: one setter from every legal state")
def c13(tier):
    for w in range(4):
        yield J("h_flags", w)


@check("C14", "codec", reach={"h_pubapi": ["encoded", "refused"], "h_pubnew": ["constructed", "rejected"]}, bounds="both constructors with every argument combination; any sequence of 4 setter calls (thorough: 5)")
def c14(tier):
    for n in ((1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5)):
        yield J("h_pubapi", n, weight=n)
    yield J("h_pubnew", 0)
    yield J("h_pubnew", 1)


@check("C15", "codec", reach={"h_limits": ["limits"], "h_toolong": ["refused"]}, bounds="field lengths 65 535, 65 536, 65 537, 65 791, 70 000 and 131 072 in every string and binary field kind, filled with one-byte and with two-byte characters")
def c15(tier):
    for w in range(4):
        yield J("h_limits", w)
    for k in (1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12):
        yield J("h_big", k, 65534, 2)
        for n in (65536, 65537, 65791, 70000, 131072):
            yield J("h_toolong", k, n)
        if k != 3:
            yield J("h_big", 100 + k, 65534, 2)
            for n in (65536, 65537, 80000, 131070):
                yield J("h_toolong", 100 + k, n)


@check("C16", "codec", reach={"h_propset": ["accepted", "rejected"]},
       bounds="every property identifier (256) in every packet type and in the will properties, one property per packet, declared property length exact, one short and one long")
def c16(tier):
    for t in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15):
        for d in range(3):
            yield J("h_propset", t, d)


@check("C17", "codec", reach={"h_user": RT}, bounds="up to 3 user properties (thorough: 4) with symbolic, possibly equal one-byte keys")
def c17(tier):
    for n in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4)):
        yield J("h_user", n)


@check("C18", "codec", reach={"h_strict": ["refused"]},
       bounds="every body of up to 8 bytes of every packet type; CONNECT with 5, with a will 7, and PUBLISH with 7 arbitrary bytes after a valid start; thorough: 2 more")
def c18(tier):
    x = 0 if tier == "quick" else 2
    for t in range(1, 15):
        if t not in (1, 12, 13):
            for n in range(9 + x):
                yield J("h_strict", t, n, 0, weight=n)
    for t in (12, 13):
        for n in range(3):
            yield J("h_strict", t, n, 0)
    for n in range(10, 13 + x):
        yield J("h_strict", 1, n, 0, weight=n)
    for n in range(4, 10 + x):
        yield J("h_strict", 1, n, 1, weight=n)
    for n in range(4, 9 + x):
        yield J("h_strict", 1, n, 2, weight=n)
    for n in range(1, 8 + x):
        yield J("h_strict", 3, n, 1, weight=n)

# ---------------------------------------------------------------------------------------------------------------------
# packet stream

SIM = ("tokio is replaced by a stand-in (harness/shims/tokio) whose executor, clock and connections the harness controls; "
       "tokio's select! macro is its own; real sockets, threads and TLS are outside")


def hx(*ks):
    return sum(k << 4 * i for i, k in enumerate(ks))


@check("S01", "net", reach={"s_reasm": ["packet", "end of stream"]}, assumptions=[SIM],
       bounds="sequences of 1-4 packets out of a menu of 9 (contents symbolic), cut at every choice of up to 2 places (thorough: 3), the pending read kept or dropped at each, "
              "buffers of 1, 4 and 64 bytes initially, connection reads of 1, 3 or all available bytes; some of it also over TLS streams")
def s01(tier):
    q = tier == "quick"
    for i, m in enumerate([hx(1, 2), hx(2, 3), hx(0, 4), hx(1, 5, 0), hx(3, 3), hx(9, 1, 8), hx(4, 2), hx(1, 0, 2, 8)]):
        for init in (1, 4, 64):
            for mr in (0, 1, 3):
                yield J("s_reasm", m, init, mr, 2 if mr == 0 or not q else 1, weight=4 if mr == 0 else 1)
        if not q:
            yield J("s_reasm", m, 4, 0, 3, weight=50)
            yield J("s_reasm", m, 64, 2, 3, weight=50)
    for m in (hx(1, 2), hx(2, 3)):
        yield J("t_stream", 0, m, 4, 0)
        yield J("t_stream", 0, m, 64, 3)
    yield J("s_reasm", hx(7, 1), 16, 0, 1)
    yield J("s_reasm", hx(1, 7, 2), 64, 50, 1)


@check("S02", "net", reach={"s_end": ["clean end", "cut end", "resumed", "io error"], "s_bytes": ["packet", "error", "waits"]}, assumptions=[SIM],
       bounds="two packets out of a menu of 9 (contents symbolic) ending after every number of bytes in a close, a reset, another error or a time-out; "
              "arbitrary bytes of 2, 4, 6 and 8 (thorough: every length up to 9) bytes for every packet type")
def s02(tier):
    q = tier == "quick"
    for a, b in [(1, 2), (3, 0), (4, 1), (0, 5), (9, 8), (2, 3)]:
        for how in range(4):
            for init in (1, 8, 64):
                yield J("s_end", a * 16 + b, how, init)
    for how in range(4):
        yield J("t_stream", 1, 1 * 16 + 2, how, 8)
    for t in range(16):
        for n in ((2, 4, 6, 8) if q else range(1, 10)):
            yield J("s_bytes", t, n, 8 if n % 4 else 64, weight=n)


@check("S03", "net", reach={"s_write": ["written", "pending"], "s_wfail": ["write error"]}, assumptions=[SIM],
       bounds="sequences of 1-3 packets out of a menu of 9 (contents symbolic); connections accepting 1, 3, 7 or any number of bytes at a time, with 0, 1, 5 or 16 bytes of room; failures after every byte; all of it over TCP and TLS streams")
def s03(tier):
    for m in [hx(1, 2), hx(2, 3), hx(4), hx(1, 5, 9), hx(3, 8, 3), hx(7, 1)]:
        for mw in (0, 1, 3, 7):
            for w in (0, 1, 5, 16):
                yield J("s_write", m, mw, w)
                yield J("t_stream", 2, m, mw, w)
    for k in (1, 2, 3, 4, 5, 9):
        yield J("s_wfail", k)
        yield J("t_stream", 3, k, 0, 0)


@check("S04", "net", reach={"s_big": ["fits", "too large", "raw"]}, assumptions=[SIM],
       bounds="packets of every size around the buffer sizes 8-512 and the default 4096 and 8192 (a few symbolic bytes in each), read in chunks of several sizes; the default 4 MiB limit itself and an initial size above the maximum are outside")
def s04(tier):
    q = tier == "quick"
    for init, mx in [(4, 8), (4, 32), (16, 64), (16, 20), (64, 64), (100, 400)]:
        top = max(init, mx)
        for n in sorted({8, 9, init - 1, init, init + 1, 2 * init - 1, 2 * init, 2 * init + 1, mx - 1, mx, mx + 1, mx + 4, top, top - 1, top - 4, top + 1, top + 9}):
            if n >= 8 and n != 130:
                for ch in (0, 1, 4, 7) if not q or n < 100 else (0, 33):
                    yield J("s_big", n, init, mx, ch)
    for n in (15, 63, 64, 65, 400):
        yield J("t_stream", 4, n, 16, 64)
    for base in (4096, 8192) if q else (4096, 8192, 16384):
        for n in (base - 4, base - 1, base, base + 1):
            for ch in (0, 1001, 4096):
                yield J("s_big", n, 0, 0, ch, weight=9)

# ---------------------------------------------------------------------------------------------------------------------
# broker: real connections over the simulated network; the clients are the harness
BROKER = SIM + "; the broker's tasks, timers and channels run on the stand-in"


@check("T01", "net", reach={"b_match": ["match", "no match", "malformed"], "b_deep": ["match", "no match"], "b_trie": ["delivered", "unsubscribed"], "b_topic": ["refused", "accepted"]}, assumptions=[BROKER],
       bounds="every filter and topic of up to 4 (thorough: 6) characters out of a, b, /, $, + and #; two subscriptions with arbitrary filters of up to 3 characters, three and an unsubscription with 1 character (thorough: 3 of up to 3); messages to names of up to 4 (thorough: 6) such characters, with or without topic alias; topics of 5 to 300 levels and filters that differ at one of them",
       outside="characters other than these are handled alike by the code (split at /, compared otherwise); shared subscriptions are not implemented")
def t01(tier):
    q = tier == "quick"
    for n in range(5 if q else 7):
        yield J("b_topic", n)
    for n, len, at in ((9, 1, 0), (9, 1, 1), (9, 1, 2), (17, 0, 1), (33, 2, 2), (5, 300, 1), (300, 0, 2)):
        yield J("b_deep", n, len, at)
    for nf in range(1, 5 if q else 7):
        for nt in range(1, 5 if q else 7):
            yield J("b_match", nf, nt, weight=nf * nt)
    if q:
        yield J("b_match", 5, 3, weight=30)
        yield J("b_match", 3, 5, weight=30)
        for a in ((2, 0x21, 2), (2, 0x33, 3), (2, 0x32, 1), (2, 0x111, 1), (3, 0x1111, 1), (3, 0x222, 2), (2, 0x131, 1)):
            yield J("b_trie", *a, weight=40)
    else:
        for a in ((2, 0x33, 3), (2, 0x44, 3), (2, 0x45, 4), (2, 0x333, 3), (3, 0x333, 3), (3, 0x1111, 1), (3, 0x3222, 3), (3, 0x3333, 3), (4, 0x11111, 1), (4, 0x22111, 2)):
            yield J("b_trie", *a, weight=200, shards=4)


@check("T02", "net", reach={"b_hist": ["delivered"], "b_pair": ["different", "the same"]}, assumptions=[BROKER],
       bounds="histories of up to 2 (thorough: 3) SUBSCRIBE and UNSUBSCRIBE packets with one or two filters by two clients out of 4 overlapping filters, and of 3 (thorough: 4) with one filter out of 2, then one PUBLISH by either client; one operation with any of 8 filters, all options; two clients with any identifiers of up to 3 (thorough: 5) characters",
       outside="retain handling has no effect: the broker does not keep retained messages")
def t02(tier):
    q = tier == "quick"
    yield J("b_hist", 1, 8, 1, weight=5)
    yield J("b_hist", 2, 4, 0, shards=7, weight=30)
    yield J("b_hist", 3, 2, 2, shards=2, weight=20)
    yield J("b_hist", 2, 3, 3, weight=20)
    for na in range(1, 4 if q else 6):
        for nb in range(1, 4 if q else 6):
            yield J("b_pair", na, nb)
    if not q:
        yield J("b_hist", 2, 8, 3, shards=4, weight=90)
        yield J("b_hist", 4, 2, 2, shards=8, weight=90)
        yield J("b_hist", 3, 3, 0, shards=8, weight=90, best_effort=True, max_time=1500)


@check("B01", "net", reach={"b_deliver": ["delivered"]}, assumptions=[BROKER],
       bounds="one PUBLISH with symbolic topic level, payload (3 bytes), flags and packet identifier, every selection (quick: pairs and all) of message properties with symbolic values, in several orders, to a subscription with every option",
       outside="the order of user properties with different names is not preserved and not claimed")
def b01(tier):
    q = tier == "quick"
    sels = [0, 255, 127, 128, 256, 511] + [1 << i for i in range(7)] + [3, 6, 12, 24, 48, 96, 80]
    for s in (sels if q else range(512)):
        for r in ((0,) if bin(s & 127).count("1") < 2 else (0, 1, 3) if not q else (0, 2)):
            yield J("b_deliver", s, r)


@check("B02", "net", reach={"b_order": ["delivered"]}, assumptions=[BROKER],
       bounds="pipelines of 3 packets (thorough: 4) out of PUBLISH with QoS 0 and 1 (with and without subscriber, symbolic packet identifier) and PINGREQ, in one piece or several, 1-3 subscribers, up to 2 (thorough: 4) deviations from the fair task order; part of it also over TLS connections",
       outside="the QoS 2 handshake is not implemented (known finding)")
def b02(tier):
    q = tier == "quick"
    yield J("t_broker", 0, 3, 1, 0)
    yield J("t_broker", 0, 2, 2, 1, weight=9)
    yield J("b_order", 3, 1, 0)
    yield J("b_order", 2, 2, 1, weight=9)
    yield J("b_order", 2, 3, 1, weight=9)
    yield J("b_order", 3, 2, 1, shards=4, weight=20)
    yield J("b_order", 4, 1, 0, weight=9)
    yield J("b_qos2", 0)
    yield J("b_qos2", 1)
    if not q:
        yield J("b_order", 2, 1, 3, shards=4, weight=20)
        yield J("b_order", 2, 2, 2, shards=8, weight=50)
        yield J("b_order", 4, 2, 1, shards=8, weight=90)
        yield J("b_order", 5, 1, 0, weight=30)


@check("B03", "net", reach={"b_ids": ["delivered"], "b_wrap": ["wrapped"]}, assumptions=[BROKER],
       bounds="histories of 5 deliveries and acknowledgements (any order) on one connection, 4 (thorough: 6) with reconnections; 65,540 deliveries with one message left unacknowledged (the first, and one next to the wrap)",
       outside="more than 65,535 messages in flight at once")
def b03(tier):
    q = tier == "quick"
    for n in range(1, 6 if q else 9):
        yield J("b_ids", n, 0)
    for n in range(1, 6 if q else 7):
        yield J("b_ids", n, 1)
    yield J("b_wrap", 1, max_steps=3_000_000_000, weight=90)
    yield J("b_wrap", 65533, max_steps=3_000_000_000, weight=90)
    if not q:
        for h in (2, 65534, 65535, 65536, 32768):
            yield J("b_wrap", h, max_steps=3_000_000_000, weight=90)


ENDS = range(8)


@check("B04", "net", reach={"b_session": ["resumed", "new"], "b_ids": ["resumed"], "b_expiry": ["kept", "expired", "changed", "not allowed"]}, assumptions=[BROKER],
       bounds="every session expiry interval (2^32), every maximum (2^32), every one given in DISCONNECT (2^32), every time away up to 2^32 s to the millisecond; every way (8) a connection can end, session expiry 0, 1, 50 and 700 s against a maximum of 600 s, return before, at and after the expiry, clean start or not on both sides, one message acknowledged or not; histories of 5 deliveries, acknowledgements and reconnections; up to 5 messages published before, while the client is away and while it is about to return, reading at once or later, with up to 1 (thorough: 2) deviations from the fair task and select order; part of it also over TLS connections",
       outside="more than 65,535 unacknowledged messages")
def b04(tier):
    for how in ENDS:
        for exp, ts in ((0, (0, 5)), (1, (0, 2)), (50, (0, 40, 60)), (700, (500, 599, 600, 650))):
            for t in ts:
                if how == 5 and t in (0, 599):
                    continue
                yield J("b_session", how, exp, t)
    for t in (49, 50, 51):
        yield J("b_session", 1, 50, t)
    for how in (0, 1, 2, 3, 4, 6, 7, 8, 9):
        yield J("b_expiry", how, 1, weight=3)
    for how in (1, 8, 9):
        yield J("b_expiry", how, 0)
    for n in range(1, 6 if tier == "quick" else 8):
        yield J("b_ids", n, 1)
    for q in (0, 1, 2):
        yield J("b_offline", q)
    for n in (1, 2, 3, 4, 5):
        yield J("b_back", n, 0, 0)
        for s in (1, 6):
            yield J("b_back", n, 0, s)
    yield J("b_back", 2, 1, 0)
    yield J("b_back", 3, 1, 0, weight=9)
    yield J("b_back", 3, 1, 4, weight=9)
    yield J("b_back", 1, 2, 0, weight=9)
    if tier != "quick":
        yield J("b_back", 2, 2, 0, weight=50, shards=4)
        yield J("b_back", 3, 2, 6, weight=90, shards=4)
        yield J("b_back", 6, 0, 0, weight=9)


@check("B05", "net", reach={"b_gate": ["answered"], "b_refused": ["refused"], "b_refuse": ["refused"]}, assumptions=[BROKER],
       bounds="any first packet other than CONNECT of up to 8 arbitrary bytes; SUBSCRIBE, PUBLISH, DISCONNECT and CONNECT after a refused CONNECT; any authentication method of up to 2 characters; any will topic of up to 4 characters out of a, b, /, $, + and # that is empty or has a wildcard; part of it also over TLS connections",
       outside="a PINGREQ before CONNECT is answered")
def b05(tier):
    q = tier == "quick"
    for t in (3, 8, 12, 14):
        yield J("t_broker", 7, t, 5, 0)
    for k in range(3):
        yield J("t_broker", 8, k, 0, 0)
    for t in range(16):
        if t != 1:
            for n in ((0, 2, 5, 8) if q else range(0, 11)):
                yield J("b_gate", t, n, weight=n)
    for n in (1, 6, 10) if q else range(1, 13):
        yield J("b_gate", 1, n, weight=n)
    for k in range(4):
        yield J("b_refused", k)
    for k in range(6 if q else 9):
        yield J("b_refuse", k)


@check("B06", "net", reach={"b_connack": ["server keep alive", "server session expiry", "assigned id"], "b_shared": ["refused"]}, assumptions=[BROKER],
       bounds="every keep alive (2^16) and session expiry (2^32) requested, with and without client identifier, clean start or not, several configurations; shared filters of up to 3 (thorough: 5) characters; a retained message of each QoS",
       outside="client identifiers are random (uniqueness among two)")
def b06(tier):
    for n in range(1, 4 if tier == "quick" else 6):
        yield J("b_shared", n)
    for n in range(3):
        yield J("b_retain", n)
    for g in [(30, 120, 600), (60, 60, 0), (0, 65535, 4294967295), (1, 2, 1), (10, 300, 100000), (65540, 65540, 1 << 32), (5, 1 << 20, (1 << 40) + 7)]:
        for k in range(4):
            yield J("b_connack", *g, k)
    # the broker applies what it says
    yield J("b_expiry", 0, 1)
    yield J("b_expiry", 1, 1)
    for keep in (10, 60, 300):
        yield J("b_keep", keep, 0)


@check("B07", "net", reach={"b_cap": ["refused", "taken over"]}, assumptions=[BROKER],
       bounds="any limit (2^32) for histories of 2 (thorough: 3), and histories of 3 (thorough: 5) connects (clean or resuming) and ends of connections by three clients with a limit of 1, 2 or 3 active sessions")
def b07(tier):
    q = tier == "quick"
    for lim in (0, 1, 2, 3):
        yield J("b_cap", lim, 3, weight=3)
    yield J("b_cap", 9, 2 if q else 3, weight=9)
    yield J("b_cap", 1, 4, weight=30, shards=2)
    yield J("b_cap", 2, 4, weight=30, shards=2)
    if not q:
        yield J("b_cap", 2, 5, weight=90, shards=8)
        yield J("b_cap", 1, 5, weight=90, shards=8)


@check("B08", "net", reach={"b_takeover": ["taken over"]}, assumptions=[BROKER],
       bounds="a second connection with the same client identifier while the first is idle, closes, fails, disconnects, pings, publishes, sends arbitrary bytes or does not read, before or after, with sessions that outlive their connection or not; up to 1 (thorough: 2) deviations from the fair task and select order")
def b08(tier):
    q = tier == "quick"
    for act in (0, 1, 2, 3, 8):
        yield J("t_broker", 4, act, 1, 0, weight=9)
    for act in range(9):
        if act != 4:
            yield J("b_takeover", act, 0)
            yield J("b_takeover", act, 1, weight=9)
            yield J("b_takeover", act, 2, weight=50, shards=1 if q else 4)
            if not q:
                yield J("b_takeover", act, 3, weight=90, shards=8, best_effort=True, max_time=900)
    yield J("b_takeover", 4, 0, weight=9)
    if not q:
        yield J("b_takeover", 4, 1, weight=50, shards=4)


@check("B09", "net", reach={"b_will": ["published", "discarded", "cancelled"], "b_delay": ["early", "late", "taken over, published", "taken over, not published", "discarded"]}, assumptions=[BROKER],
       bounds="every way (9) a connection can end, no delay or 1, 20 and 50 s, the client returning in time or not; every delay (2^32), every session expiry (2^32), every time away (2^32 s), ended by a DISCONNECT that changes the expiry or otherwise, the client coming back with clean start, without, or not, or taking its own connection over; symbolic payload, QoS, retain and every selection (quick: some) of message properties with symbolic values; with or without Retain As Published, and after an earlier connection (ended or taken over) with another will or none; part of it also over TLS connections",
       outside="which of two things that are due in the same instant happens first")
def b09(tier):
    q = tier == "quick"
    for how in range(9):
        yield J("t_broker", 3, how, 0, 1)
    for how in range(9):
        for d in (0, 1, 20, 50):
            for s in ((0, 127) if q else (0, 1, 2, 4, 8, 16, 32, 64, 127, 256)):
                yield J("b_will", how, s, d)
    for s in (1, 2, 4, 8, 16, 32, 64, 256):
        yield J("b_will", 1, s, 0)
    for back in (0, 1, 2):
        for by in range(4):
            yield J("b_delay", back, by, weight=5)
    yield J("b_delay", 5, 0)
    yield J("b_delay", 6, 0)


@check("B10", "net", reach={"b_keep": ["timed out"], "b_alive": ["timed out", "no keep alive"]}, assumptions=[BROKER],
       bounds="every keep alive (2^16) and every pair of bounds (2^16 each) with one packet to or from the client at any second; requested keep alives of 0, 1, 29-31, 60, 119-121 and 65,535 s against bounds of 30 and 120 s; up to 2 packets sent at different moments within the interval; with and without traffic towards the client",
       outside="a connection blocked in a write is not timed out")
def b10(tier):
    for k in (0, 1, 29, 30, 31, 60, 119, 120, 121, 65535):
        for b in (0, 1):
            yield J("b_keep", k, b)
    for e in (5,):
        for d in (0, 20):
            yield J("b_will", e, 0, d)
    for bits in range(17):
        yield J("b_alive", 0, bits, weight=20 + bits)
    for bits in ((0, 4, 7, 16) if tier == "quick" else range(17)):
        yield J("b_alive", 1, bits, weight=25 + bits)


@check("B11", "net", reach={"b_hostile": ["unharmed"], "t_accept": ["served"], "b_accept": ["served"], "b_deep": ["match", "no match"]}, assumptions=[BROKER],
       bounds="any packet of up to 6 arbitrary bytes (thorough: 9) of every type before and after CONNECT (CONNECT 10, thorough 13), followed by the end of the connection; two other clients and a new one are observed; TLS handshakes that stall, fail with any byte, or end; up to 4 (thorough: 6) connections in a row that cannot be accepted; topics and filters of 65,535 levels",
       outside="exhaustion of memory")
def b11(tier):
    q = tier == "quick"
    for w in range(4):
        yield J("t_accept", w)
    for n in range(1, 5 if q else 7):
        yield J("b_accept", n)
    # as deep as a topic can be
    yield J("b_deep", 65535, 0, 0, max_steps=3_000_000_000, weight=50)
    if not q:
        yield J("b_deep", 32768, 1, 2, max_steps=3_000_000_000, weight=50)
    for t in (1, 3, 8):
        yield J("t_broker", 5, t, 4, 0)
    for t in range(16):
        for n in ((1, 3, 6) if q else range(0, 10)):
            yield J("b_hostile", t, n, 0, weight=n)
        for n in ((2, 5) if q else range(0, 9)):
            if t != 1:
                yield J("b_hostile", t, n, 1, weight=n)
    for n in (3, 8, 10) if q else range(1, 14):
        yield J("b_hostile", 1, n, 1, weight=n, shards=1 if n < 12 else 4)


@check("B12", "net", reach={"b_slow": ["overrun"], "b_overrun": ["overrun", "all delivered"]}, assumptions=[BROKER],
       bounds="queues of 1 to 4 messages, 1 to 8 messages published while a subscriber does not read; part of it also over TLS connections",
       outside="the client's Receive Maximum and Maximum Packet Size are ignored (known findings)")
def b12(tier):
    for n, size in ((2, 1), (4, 100), (6, 4)):
        yield J("t_broker", 1, n, size, 0)
        yield J("t_broker", 2, n, size, 0)
    for size in (1, 2, 3, 4):
        for n in (1, 2, 3, 4, 5, 6, 8):
            yield J("b_slow", n, size)
            yield J("b_overrun", n, size)
    yield J("b_limits", 0)
    yield J("b_limits", 1)


CLIENT = SIM + "; the harness is the server and the application"


@check("B13", "net", reach={"b_wrong": ["closed"], "b_expiry": ["not allowed"]}, assumptions=[BROKER],
       bounds="second CONNECT of up to 16 arbitrary bytes; CONNACK, SUBACK, UNSUBACK, PINGRESP, AUTH and the reserved packet type 0 of up to 6 arbitrary bytes (thorough: 9), with any header flags; topic names of up to 4 (thorough: 6) characters out of a, b, /, $, + and # that have a wildcard; any topic alias; any session expiry in DISCONNECT",
       outside="PUBREC, PUBREL and PUBCOMP (QoS 2 is not implemented, see B02)")
def b13(tier):
    q = tier == "quick"
    for t in (0, 2, 9, 11, 13, 15):
        for n in (0, 1, 2, 3, 4, 6) if q else range(10):
            yield J("b_wrong", t, n, weight=n)
    for n in (0, 5, 13, 16) if q else range(19):
        yield J("b_wrong", 1, n, weight=n)
    for n in range(5 if q else 7):
        yield J("b_wrong", 16, n, weight=n)
    for how in (8, 9):
        for a in (0, 1):
            yield J("b_expiry", how, a, weight=3)


@check("B14", "net", reach={"b_stale": ["expired", "in time"]}, assumptions=[BROKER],
       bounds="every message expiry interval (2^32) and waiting time (2^32 s), the subscriber away (QoS 1, 2) or not reading (QoS 0, 1); every will with an expiry interval",
       outside="more than one message with an interval at a time; the time a message takes between two sockets")
def b14(tier):
    for w in (0, 1, 3, 4):
        yield J("b_stale", w)


@check("K01", "net", reach={"c_connect": ["connect", "short keep alive refused"], "c_connack": ["accepted", "refused"], "c_first": ["not connected"], "c_assigned": ["assigned", "none assigned"], "t_connect": ["connected", "refused"], "c_try": ["started", "not started"], "c_long": ["connected", "refused"]}, assumptions=[CLIENT],
       bounds="every keep alive, session expiry, receive maximum and maximum packet size, client identifiers of 2 bytes, will and credentials of 1 byte, with or without, each also of 65,535 and 65,536 bytes; every CONNACK reason, keep alive and session expiry of the server; any other first packet, up to 5 (thorough: 7) arbitrary bytes, or any part of a CONNACK and then silence, with any maximum wait up to 255 s; connecting or the TLS handshake taking any number of seconds up to 255, or failing; try_start with any limit and any time of the answer (multiples of 5 ms, up to 0.6 s)",
       outside="other CONNACK properties are only passed on; certificates")
def k01(tier):
    q = tier == "quick"
    for w in range(6):
        yield J("t_connect", w)
    for w in range(4):
        yield J("c_try", w, weight=60)
    yield J("t_client", 0, 1, 1, 0)
    yield J("t_client", 1, 1, 0, 0)
    for who in (0, 1):
        for will in (0, 1):
            yield J("c_connect", who, will, weight=9)
    for w in range(5):
        yield J("c_long", w, 65535)
        yield J("c_long", w, 65536)
    for s in range(4):
        yield J("c_connack", s)
    for t in (3, 4, 5, 6, 7, 9, 11, 13):
        yield J("c_first", 0, t)
    yield J("c_first", 1, 0)
    yield J("c_first", 1, 1)
    for n in range(6 if q else 8):
        yield J("c_first", 2, n, weight=n)
    for n in range(5):
        yield J("c_first", 3, n)
    yield J("c_assigned", 0)
    yield J("c_assigned", 1)


@check("K02", "net", reach={"c_send": ["finished"], "c_wrap": ["wrapped"], "c_resume": ["resumed"]}, assumptions=[CLIENT],
       bounds="every history of 6 (thorough: 8) steps with up to 3 messages (symbolic topic, payload, QoS, retain) and the server's answers - success with and without property length, error - in any order; packet identifiers chosen by the application for 3 messages, also such that are zero or in use, and a topic of 65,536 bytes; 65,538 messages with 0, 1 or 3 unacknowledged ones; part of it also over TLS connections",
       outside="packet identifiers of SUBSCRIBE and UNSUBSCRIBE are the application's")
def k02(tier):
    q = tier == "quick"
    yield J("t_client", 2, 2, 0, 1, weight=5)
    yield J("c_send", 1, 0, 1, 4)
    yield J("c_send", 2, 0, 0, 6, weight=5)
    yield J("c_send", 2, 0, 1, 6, weight=9)
    yield J("c_send", 3, 0, 0, 6, weight=30, shards=4)
    yield J("c_send", 3, 0, 1, 5, weight=30, shards=4)
    for r in (0, 1):
        yield J("c_resume", 3, r, r, 1, 3, 5, weight=9)
    yield J("c_resume", 2, 0, 0, 1, 4, 4)
    for r in (0, 1):
        yield J("c_resume", 2, r, r, 1, 5, 4)
    yield J("c_wrap", 1, max_steps=3_000_000_000, weight=90)
    if not q:
        yield J("c_wrap", 0, max_steps=3_000_000_000, weight=90)
        yield J("c_wrap", 3, max_steps=3_000_000_000, weight=90)
        yield J("c_send", 3, 0, 0, 8, weight=90, shards=8)
        yield J("c_send", 4, 0, 0, 7, weight=90, shards=8, best_effort=True, max_time=1500)
        yield J("c_send", 3, 0, 1, 6, weight=90, shards=8, best_effort=True, max_time=1500)


@check("K03", "net", reach={"c_send": ["finished", "queued"], "c_mansend": ["queued"], "c_resume": ["queued"]}, assumptions=[CLIENT],
       bounds="receive maximum of 1 or 2, every history of 6 (thorough: 8) steps with up to 4 messages of any QoS and the server's answers in any order, also with acknowledgements by the application and across a reconnection",
       outside="the server's Maximum Packet Size and Maximum QoS")
def k03(tier):
    q = tier == "quick"
    for r in (1, 2):
        yield J("c_send", 3, r, 0, 6, weight=20, shards=2)
        yield J("c_send", 4, r, 0, 6, weight=20, shards=4)
        yield J("c_mansend", 3, r, weight=9)
        yield J("c_resume", 3, r, r, 1, 0, 5, weight=9)
    if not q:
        for r in (1, 2, 3):
            yield J("c_send", 4, r, 0, 8, weight=90, shards=8, best_effort=True, max_time=1500)


@check("K04", "net", reach={"c_recv": ["taken"], "c_over": ["exceeded"], "c_manual": ["finished"]}, assumptions=[CLIENT],
       bounds="every sequence of 4 (thorough: 5) packets of the server - PUBLISH of any QoS, repeated QoS 2 PUBLISH, PUBREL, symbolic contents - with the application taking packets at any time from channels of 1 to 4 places, with and without a channel of their own for PUBLISH or PUBREL; receive maximum 1 to 3 exceeded or not; part of it also over TLS connections",
       outside="message properties are decoded as C05 says and passed on")
def k04(tier):
    q = tier == "quick"
    yield J("t_client", 3, 3, 2, 0, weight=5)
    for n, cap, f, r in ((3, 1, 0, 0), (3, 2, 0, 0), (4, 4, 0, 1), (4, 1, 0, 0), (4, 4, 0, 0), (3, 1, 1, 0), (3, 1, 2, 0), (3, 2, 1, 0), (4, 2, 0, 2)):
        yield J("c_recv", n, cap, f, r, weight=n * n, shards=1 if n < 4 else 4)
    for r in (1, 2, 3):
        yield J("c_over", r)
    yield J("c_manual", 3, 0, 1)
    if not q:
        for cap, f in ((1, 0), (2, 0), (4, 0), (1, 1), (1, 2)):
            yield J("c_recv", 5, cap, f, 0, weight=90, shards=8, best_effort=True, max_time=1500)


@check("K05", "net", reach={"c_keep": ["kept", "ping"], "c_stall": ["kept"]}, assumptions=[CLIENT],
       bounds="every keep alive (2^16) set by the client or the server, or turned off; one packet (thorough: two) of the application or the server at any whole second within two intervals, then more than an interval of silence; part of it also over TLS connections",
       outside="a missing PINGRESP is not noticed")
def k05(tier):
    q = tier == "quick"
    yield J("t_client", 4, 1, 0, 0, weight=9)
    yield J("t_client", 6, 0, 0, 0)
    for by in range(4):
        yield J("c_keep", 0, by, weight=2)
        yield J("c_keep", 1, by, weight=9)
    for by in (2, 3):
        yield J("c_keep", 2, by, weight=9)
    yield J("c_stall")
    if not q:
        for by in (0, 1):
            yield J("c_keep", 2, by, weight=90, shards=8, best_effort=True, max_time=1500)


@check("K06", "net", reach={"c_hostile": ["ended", "passed on"]}, assumptions=[CLIENT],
       bounds="one packet of every type with every choice of flags and up to 6 (thorough: 9) arbitrary bytes, complete or cut short, or up to 6 arbitrary bytes, while one QoS 1 and two QoS 2 messages are on their way and one was received; then the end of the connection and a resumed session",
       outside="a second CONNACK and packets only clients send are passed on to the application")
def k06(tier):
    q = tier == "quick"
    for t in range(16):
        for n in (0, 2, 3, 5) if q else range(9):
            yield J("c_hostile", t, n, 0, weight=n * (9 if t == 3 else 1))
        yield J("c_hostile", t, 4, 1, weight=4)
    yield J("c_hostile", 3, 6, 0, weight=40)
    yield J("c_hostile", 4, 4, 0)
    for n in (1, 3, 5, 6) if q else range(1, 9):
        yield J("c_hostile", 16, n, 0, weight=n)
    if not q:
        yield J("c_hostile", 3, 9, 0, weight=90, shards=4)


@check("K07", "net", reach={"c_resume": ["resumed", "queued"], "c_rresume": ["resumed"]}, assumptions=[CLIENT],
       bounds="every history of 5 (thorough: 7) steps with up to 3 messages, cut off by the server, by the application or by a failing write at any point, receive maximum unlimited, 1 or 2 before and after; a received QoS 1 or 2 message at every stage; the server keeps the session or not",
       outside="a connection lost more than once")
def k07(tier):
    q = tier == "quick"
    for r, r2 in ((0, 0), (1, 1), (2, 1), (1, 2)):
        for p in (0, 1):
            for cut in (0, 1, 2):
                n = 2 if q and (r, r2) != (0, 0) else 3
                yield J("c_resume", n, r, r2, p, cut, 4 if q else 5, weight=9, shards=1 if q else 2)
    for q2 in (1, 2):
        for cut in (0, 1, 2):
            for p in (0, 1):
                yield J("c_rresume", q2, cut, p)
    if not q:
        for p in (0, 1):
            yield J("c_resume", 3, 0, 0, p, 0, 7, weight=90, shards=8)
            yield J("c_resume", 3, 1, 1, p, 0, 7, weight=90, shards=8)


@check("K08", "net", reach={"c_end": ["ended", "stopped"]}, assumptions=[CLIENT],
       bounds="every way (8) a connection ends - closed, failing reads or writes, DISCONNECT with 4 reasons, consumer dropped, stopped - after up to 3 messages of any QoS, with up to 2 received messages the application has not taken, with and without a consumer of their own, also with a connection that accepts 3 bytes at a time; part of it also over TLS connections",
       outside="start() after a failed start, the state of packets queued in the producer channel")
def k08(tier):
    for how in range(8):
        yield J("t_client", 5, how, 1, 0)
    for how in range(8):
        for n in range(4 if tier == "quick" else 5):
            yield J("c_end", how, n, 0, 0, weight=n)
        for back in (1, 2):
            for filt in (0, 1):
                yield J("c_end", how, 1, back, filt)


@check("K09", "net", reach={"c_manual": ["finished", "exceeded"], "c_mansend": ["finished"]}, assumptions=[CLIENT],
       bounds="every history of up to 9 steps with 3 (thorough: 4) messages received, or sent, whose acknowledgements the application sends itself, in any order, successful or not, receive maximum unlimited, 1 or 2",
       outside="acknowledgements that do not belong to a message")
def k09(tier):
    q = tier == "quick"
    for r in (0, 1, 2):
        yield J("c_manual", 3, r, 0, weight=20, shards=2)
        yield J("c_mansend", 2 if r == 0 and q else 3, r, weight=20, shards=2)
    yield J("c_manual", 3, 0, 1)
    if not q:
        yield J("c_manual", 4, 2, 0, weight=90, shards=8, best_effort=True, max_time=1500)
        yield J("c_mansend", 4, 1, weight=90, shards=8, best_effort=True, max_time=1500)


BOTH = SIM + "; client and broker run on it together, the harness passes the bytes from one to the other and is the application"


@check("K10", "net", reach={"c_retry": ["started"]}, assumptions=[CLIENT],
       bounds="up to 2 (thorough: 3) starts that fail because the connection is refused or takes longer than the client or the application waits (1 to 255 s), by start or try_start, with and without an earlier session that has an open QoS 1 or 2 message, a message handed over before any of them",
       outside="a start that fails after the connection was made (a refusal, no CONNACK) ends the client")
def k10(tier):
    for what in range(3):
        for k in range(1, 3 if tier == "quick" else 4):
            for st in (0, 1):
                yield J("c_retry", what, k, st, weight=k)


@check("K11", "net", reach={"c_calls": ["sent", "answered"]}, assumptions=[CLIENT],
       bounds="every history of up to 6 steps with 3 (thorough: 8 steps with 4) requests, with symbolic packet identifiers, filters of 1 and 2 bytes, options, subscription identifiers and reason codes, and their answers in any order, PINGRESP asked for or not, a receive maximum of 1",
       outside="retain handling, user properties (C08 covers their encoding)")
def k11(tier):
    for pong in (0, 1):
        yield J("c_calls", 2, pong)
        yield J("c_calls", 3, pong, weight=20, shards=2)
        if tier != "quick":
            yield J("c_calls", 4, pong, weight=90, shards=4, best_effort=True, max_time=1500)


@check("E01", "net", reach={"e_pubsub": ["arrived"], "e_takeover": ["taken over"], "e_will": ["will", "stopped"]}, assumptions=[BOTH],
       bounds="3 (thorough: 4) messages with symbolic topic, payload, retain flag and QoS 0 or 1 from one client to another or to itself, subscribed with QoS 0 or 1 to a filter with a symbolic last character, + or #; a will message with symbolic contents; a second client with the same identifier; part of it also over TLS connections",
       outside="QoS 2 (known finding qos2-inbound)")
def e01(tier):
    q = tier == "quick"
    yield J("t_pair", 0, 2, 1, 0, weight=5)
    for how in range(3):
        yield J("t_pair", 3, how, 1, 0)
    yield J("t_pair", 4, 0, 0, 0)
    for sq in (0, 1):
        for same in (0, 1):
            for n in (1, 2, 3) if q else (1, 2, 3, 4):
                yield J("e_pubsub", n, sq, same, weight=n * n, shards=1 if n < 3 else 2)
    for how in (0, 1):
        for w in (0, 1):
            yield J("e_will", how, w)
    yield J("e_takeover")


@check("E02", "net", reach={"e_break": ["arrived", "broken"]}, assumptions=[BOTH],
       bounds="up to 3 (thorough: 5) QoS 1 messages with symbolic contents while the connection of the sender or the receiver breaks after every number of bytes in either direction, and is made again; part of it also over TLS connections",
       outside="a connection lost more than once")
def e02(tier):
    for who in (0, 1):
        for d in (0, 1):
            yield J("t_pair", 1, 1, who, d)
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5):
        for who in (0, 1):
            for d in (0, 1):
                yield J("e_break", n, who, d, n * (12 if who == d else 6), weight=n * n)


@check("E03", "net", reach={"e_idle": ["interval"]}, assumptions=[BOTH],
       bounds="every keep alive from 30 to 65,535 s of the client, every default and maximum keep alive of the broker (2^16 each), 2 (thorough: 4) timer events; part of it also over TLS connections")
def e03(tier):
    yield J("t_pair", 2, 1, 0, 0, weight=9)
    yield J("e_idle", 2, weight=9, shards=4)
    if tier != "quick":
        yield J("e_idle", 4, weight=9, shards=4)
