mod broker;
mod client;
mod imp;
mod pair;
mod refc;
mod stream;
mod tls;
vs::entries! {
    s_reasm(m, init, max_read, cuts),
    s_end(m, how, init),
    s_bytes(t, n, init),
    s_write(m, max_write, window),
    s_wfail(m),
    s_big(n, init, max, chunk),
    b_match(nf, nt),
    b_deep(n, len, at),
    b_hist(n, nfil, full),
    b_trie(n, len, lt),
    b_deliver(sel, rot),
    b_order(n, subs, budget),
    b_ids(n, resume),
    b_wrap(held),
    b_session(how, exp, t),
    b_gate(t, n),
    b_refused(k),
    b_accept(n),
    b_refuse(k),
    b_wrong(t, n),
    b_shared(n),
    b_stale(what),
    b_retain(q),
    b_connack(dmin, dmax, maxexp, kind),
    b_cap(limit, n),
    b_takeover(act, budget),
    b_will(how, sel, delay),
    b_keep(keep, busy),
    b_hostile(t, n, pre),
    b_slow(n, size),
    b_overrun(n, size),
    b_pair(na, nb),
    b_expiry(how, asked),
    b_topic(n),
    b_delay(back, by),
    b_alive(busy, bits),
    b_qos2(dir),
    b_offline(q),
    b_back(n, budget, slow),
    b_limits(what),
    c_connect(who, will),
    c_connack(sel),
    c_first(what, n),
    c_assigned(given),
    c_send(n, r, own, steps),
    c_recv(n, cap, filt, rmax),
    c_over(rmax),
    c_keep(n, by),
    c_stall(),
    c_resume(n, r, r2, present, cut, steps),
    c_rresume(q, cut, present),
    c_end(how, q, back, filt),
    c_hostile(t, n, cut),
    c_manual(n, rmax, auto),
    c_mansend(n, r),
    c_wrap(held),
    c_calls(n, pong),
    c_retry(what, k, st),
    c_long(what, n),
    e_pubsub(n, sq, same),
    e_break(n, who, dir, max),
    e_idle(n),
    e_will(how, q),
    e_takeover(),
    t_stream(k, a, b, c),
    t_broker(k, a, b, c),
    t_client(k, a, b, c),
    t_pair(k, a, b, c),
    c_try(what),
    t_accept(what),
    t_connect(what),
}
