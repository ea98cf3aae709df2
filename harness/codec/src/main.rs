mod imp;
mod refc;
vs::entries! {
    h_frame(t, n),
    h_reenc(t, n),
    h_strict(t, n, pre),
    h_vbi(),
    h_vbi_dec(n),
    h_codes(which),
    h_flags(which),
    h_connect(sel, rot),
    h_connack(sel, rot),
    h_publish(sel, rot),
    h_pubresp(kind, sel, rot),
    h_disconnect(sel, rot),
    h_subscribe(sel, nf),
    h_suback(sel, n),
    h_unsubscribe(sel, n),
    h_unsuback(sel, n),
    h_ping(k),
    h_pubapi(n),
    h_pubnew(a),
    h_limits(which),
    h_propset(t, delta),
    h_big(kind, lo, span),
    h_toolong(kind, n),
    h_total(t, n),
    h_user(n),
}
