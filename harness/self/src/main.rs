mod imp;
vs::entries! {
    t_str(k, n),
    t_num(k),
    t_coll(k, n),
    t_fmt(k),
}
