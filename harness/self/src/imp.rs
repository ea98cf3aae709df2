//! Engine self-test: std idioms a refactoring might introduce, each compared with a naive reference on symbolic input.
use std::collections::*;
fn naive_contains(h: &[u8], n: &[u8]) -> bool {
    let mut i = 0;
    while i + n.len() <= h.len() {
        let mut j = 0;
        while j < n.len() && h[i + j] == n[j] {
            j += 1;
        }
        if j == n.len() {
            return true;
        }
        i += 1;
    }
    false
}
fn count(h: &[u8], c: u8) -> usize {
    let mut k = 0;
    for x in h {
        if *x == c {
            k += 1;
        }
    }
    k
}
pub fn t_str(k: u64, n: u64) {
    let s = vs::ascii(n as usize);
    let b = s.as_bytes().to_vec();
    match k {
        0 => vs::check(s.contains("+/") == naive_contains(&b, b"+/"), "contains 2"),
        1 => vs::check(s.contains('#') == naive_contains(&b, b"#"), "contains char"),
        2 => vs::check(s.contains(&['#', '+'][..]) == (naive_contains(&b, b"#") || naive_contains(&b, b"+")), "contains set"),
        3 => vs::check(s.find("ab").is_some() == naive_contains(&b, b"ab"), "find"),
        4 => vs::check(s.split('/').count() == count(&b, b'/') + 1, "split count"),
        5 => vs::check(s.split("//").count() >= 1, "split str"),
        6 => {
            let v: Vec<&str> = s.split('/').collect();
            vs::check(v.join("/") == s, "join");
        }
        7 => vs::check(s.replace('a', "b").as_bytes().iter().all(|c| *c != b'a'), "replace"),
        8 => vs::check(s.to_lowercase().len() == s.len(), "lower"),
        9 => vs::check(s.chars().rev().collect::<String>().chars().rev().collect::<String>() == s, "rev"),
        10 => vs::check(s.trim().len() <= s.len(), "trim"),
        11 => vs::check(s.bytes().filter(|c| *c == b'/').count() == count(&b, b'/'), "count"),
        12 => vs::check(b.iter().position(|c| *c == b'#').is_some() == naive_contains(&b, b"#"), "position"),
        13 => vs::check(s.rsplit_once('/').is_some() == naive_contains(&b, b"/"), "rsplit_once"),
        14 => vs::check(s.strip_prefix("$share/").is_none() || n >= 7, "strip_prefix"),
        15 => vs::check(s.matches('+').count() == count(&b, b'+'), "matches"),
        16 => {
            if let Ok(v) = s.parse::<u32>() {
                vs::reach("parsed");
                vs::check(v < 10u32.pow(n as u32), "parse");
            }
        }
        17 => vs::check(s.char_indices().last().map(|x| x.0 + 1) == if n == 0 { None } else { Some(n as usize) }, "char_indices"),
        18 => vs::check(s.eq_ignore_ascii_case(&s.to_uppercase()), "case"),
        19 => vs::check(b.contains(&0x23) == naive_contains(&b, b"#"), "slice contains"),
        20 => vs::check(b.starts_with(b"a") == (n > 0 && b[0] == b'a'), "starts"),
        21 => vs::check(s.rfind('/').is_some() == naive_contains(&b, b"/"), "rfind"),
        22 => vs::check(s.splitn(2, '/').count() <= 2, "splitn"),
        23 => vs::check(s.ends_with("/#") == (n >= 2 && b[n as usize - 2] == b'/' && b[n as usize - 1] == b'#'), "ends"),
        24 => vs::check(s.cmp(&s.clone()) == std::cmp::Ordering::Equal, "cmp"),
        25 => vs::check(b.iter().any(|c| matches!(c, b'+' | b'#')) == (count(&b, b'+') + count(&b, b'#') > 0), "any"),
        26 => vs::check(b.iter().map(|c| *c as u32).sum::<u32>() <= 255 * n as u32, "sum"),
        27 => vs::check(b.iter().fold(0u8, |a, c| a ^ c) == b.iter().rev().fold(0u8, |a, c| a ^ c), "xor"),
        28 => vs::check(String::from_utf8_lossy(&b) == s, "lossy"),
        _ => vs::check(b.chunks(4).map(|c| c.len()).sum::<usize>() == n as usize, "chunks"),
    }
    vs::reach("done");
}
pub fn t_num(k: u64) {
    let (x, y) = (vs::u32(), vs::u32());
    match k {
        0 => vs::check(x.checked_add(y).is_none() == ((x as u64 + y as u64) >> 32 != 0), "checked_add"),
        1 => vs::check(x.saturating_sub(y) == if x > y { x - y } else { 0 }, "saturating_sub"),
        2 => vs::check(x.wrapping_mul(3) == x.wrapping_add(x).wrapping_add(x), "wrapping_mul"),
        3 => vs::check(x.leading_zeros() <= 32 && (x == 0 || x >> (31 - x.leading_zeros()) == 1), "lz"),
        4 => vs::check(x.abs_diff(y) == y.abs_diff(x), "abs_diff"),
        5 => vs::check(x.swap_bytes().swap_bytes() == x && u32::from_be_bytes(x.to_be_bytes()) == x, "bytes"),
        6 => vs::check(x.rotate_left(7).rotate_right(7) == x, "rotate"),
        7 => vs::check(x.clamp(5, 10) >= 5 && x.clamp(5, 10) <= 10, "clamp"),
        8 => vs::check(u16::try_from(x).is_ok() == (x <= 65535), "try_from"),
        9 => vs::check(x.is_power_of_two() == (x.count_ones() == 1), "pow2"),
        10 => vs::check(x / 7 * 7 + x % 7 == x, "div"),
        11 => vs::check((x as u8).div_ceil(128) == ((x as u8 as u16 + 127) / 128) as u8, "div_ceil"),
        12 => {
            let d = std::time::Duration::from_secs(x as u16 as u64);
            vs::check(d.as_secs() == x as u16 as u64 && (d + d / 2).as_millis() == d.as_millis() * 3 / 2, "duration");
        }
        13 => vs::check(std::time::Duration::from_secs(3).mul_f32(1.5).as_millis() == 4500, "mul_f32"),
        14 => {
            let d = std::time::Duration::from_secs((x & 0xff) as u64);
            vs::check(d.mul_f64(1.5).as_millis() == d.as_millis() * 3 / 2, "mul_f64");
        }
        15 => vs::check((x as u8 as f32 * 1.5) as u64 == (x as u8 as u64 * 3) / 2, "f32"),
        16 => vs::check(x == 0 || x.ilog2() <= 31, "ilog2"),
        17 => vs::check(x.reverse_bits().reverse_bits() == x, "reverse_bits"),
        18 => vs::check((x as i32).signum() == if x == 0 { 0 } else if x >> 31 == 1 { -1 } else { 1 }, "signum"),
        19 => vs::check(x.checked_mul(y).is_some() || x as u64 * y as u64 > u32::MAX as u64, "checked_mul"),
        20 => vs::check((x as u16).checked_next_power_of_two().is_none() == (x as u16 > 32768), "next_pow"),
        21 => vs::check(x.checked_sub(y).is_some() == (x >= y), "checked_sub"),
        22 => vs::check((x as u64).saturating_mul(y as u64) == x as u64 * y as u64, "saturating_mul"),
        23 => vs::check((x as i64 - y as i64).unsigned_abs() == x.abs_diff(y) as u64, "unsigned_abs"),
        24 => vs::check((x as u16).overflowing_add(y as u16).1 == (x as u16 as u32 + y as u16 as u32 > 65535), "overflowing"),
        _ => vs::check(x.midpoint(y) as u64 == (x as u64 + y as u64) / 2, "midpoint"),
    }
    vs::reach("done");
}
pub fn t_coll(k: u64, n: u64) {
    let b = vs::bytes(n as usize);
    match k {
        0 => {
            let mut v = b.clone();
            v.sort();
            for w in v.windows(2) {
                vs::check(w[0] <= w[1], "sort");
            }
        }
        1 => {
            let mut v = b.clone();
            v.sort_unstable_by(|a, b| b.cmp(a));
            for w in v.windows(2) {
                vs::check(w[0] >= w[1], "sort_unstable");
            }
        }
        2 => {
            let m: BTreeMap<u8, usize> = b.iter().enumerate().map(|(i, c)| (*c, i)).collect();
            vs::check(b.iter().all(|c| m.contains_key(c)), "btreemap");
            let mut last = None;
            for (k, _) in &m {
                vs::check(last < Some(*k), "btree order");
                last = Some(*k);
            }
        }
        3 => {
            let mut m: HashMap<u8, Vec<usize>> = HashMap::new();
            for (i, c) in b.iter().enumerate() {
                m.entry(*c).or_insert_with(Vec::new).push(i);
            }
            vs::check(m.values().map(|v| v.len()).sum::<usize>() == n as usize, "hashmap");
            m.retain(|_, v| v.len() > 1);
            vs::check(m.values().all(|v| v.len() > 1), "retain");
        }
        4 => {
            let s: HashSet<u8> = b.iter().copied().collect();
            let t: BTreeSet<u8> = b.iter().copied().collect();
            vs::check(s.len() == t.len(), "sets");
        }
        5 => {
            let mut d: VecDeque<u8> = b.iter().copied().collect();
            d.rotate_left((n / 2) as usize);
            d.rotate_right((n / 2) as usize);
            vs::check(d.make_contiguous() == &b[..], "deque");
        }
        6 => {
            let mut v = b.clone();
            v.retain(|c| *c > 3);
            v.dedup();
            vs::check(v.iter().all(|c| *c > 3), "retain");
        }
        7 => {
            let mut h: BinaryHeap<u8> = b.iter().copied().collect();
            vs::check(h.pop() == b.iter().copied().max(), "heap");
        }
        8 => {
            let (x, y): (Vec<u8>, Vec<u8>) = b.iter().partition(|c| **c < 128);
            vs::check(x.len() + y.len() == n as usize, "partition");
        }
        9 => {
            let r: Result<Vec<u8>, u8> = b.iter().map(|c| if *c == 255 { Err(*c) } else { Ok(*c) }).collect();
            vs::check(r.is_ok() == b.iter().all(|c| *c != 255), "collect result");
        }
        10 => {
            let v: Vec<Vec<u8>> = b.chunks(2).map(|c| c.to_vec()).collect();
            vs::check(v.concat() == b, "concat");
        }
        11 => {
            let mut v = b.clone();
            v.reverse();
            v.rotate_left(1.min(n as usize));
            v.truncate(2);
            v.extend_from_within(..);
            vs::check(v.len() == 2 * 2.min(n as usize), "ops");
        }
        12 => {
            let v: Vec<u16> = b.iter().map(|c| *c as u16 * 2).collect();
            vs::check(v.iter().zip(b.iter()).all(|(a, b)| *a == *b as u16 * 2), "zip");
        }
        13 => {
            let mut v: Vec<(u8, usize)> = b.iter().copied().zip(0..).collect();
            v.sort_by_key(|x| x.0);
            for w in v.windows(2) {
                vs::check(w[0].0 < w[1].0 || w[0].0 == w[1].0 && w[0].1 < w[1].1, "stable");
            }
        }
        14 => {
            let v: Vec<u8> = b.iter().flat_map(|c| vec![*c; 2]).skip(1).step_by(2).collect();
            vs::check(v == b, "flat_map");
        }
        15 => vs::check(b.iter().min_by_key(|c| **c).copied() == b.iter().copied().min(), "min"),
        16 => {
            let a: std::sync::Arc<std::sync::Mutex<Vec<u8>>> = Default::default();
            let c = a.clone();
            c.lock().unwrap().extend(b.iter());
            vs::check(a.lock().unwrap().len() == n as usize, "arc mutex");
        }
        17 => {
            let s: Box<dyn Fn(u8) -> u8> = if n > 2 { Box::new(|x| x ^ 1) } else { Box::new(|x| x ^ 2) };
            vs::check(b.iter().all(|c| s(s(*c)) == *c), "dyn");
        }
        18 => {
            let r = std::cell::RefCell::new(b.clone());
            r.borrow_mut().push(1);
            vs::check(r.borrow().last() == Some(&1), "refcell");
        }
        19 => {
            let m: std::sync::RwLock<u8> = Default::default();
            *m.write().unwrap() = 3;
            vs::check(*m.read().unwrap() == 3, "rwlock");
        }
        20 => {
            let mut m: BTreeMap<(u8, u8), u8> = BTreeMap::new();
            for c in &b {
                m.insert((c & 1, *c), *c);
            }
            vs::check(m.range((1, 0)..).all(|(k, _)| k.0 == 1), "range");
            while let Some((k, v)) = m.pop_first() {
                vs::check(k.1 == v, "pop_first");
            }
        }
        21 => {
            use std::sync::atomic::*;
            let a = AtomicU16::new(1);
            let r = a.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |x| Some(x + 1));
            vs::check(r == Ok(1) && a.fetch_add(1, Ordering::Relaxed) == 2 && a.swap(9, Ordering::AcqRel) == 3, "atomic");
            vs::check(a.fetch_max(20, Ordering::Relaxed) == 9 && a.fetch_or(1, Ordering::Relaxed) == 20, "atomic");
        }
        22 => {
            static O: std::sync::OnceLock<u8> = std::sync::OnceLock::new();
            vs::check(*O.get_or_init(|| 3) == 3, "once");
        }
        23 => {
            thread_local!(static T: std::cell::Cell<u8> = const { std::cell::Cell::new(3) });
            T.with(|t| t.set(t.get() + 1));
            vs::check(T.get() == 4, "tls");
        }
        24 => {
            let i = std::time::Instant::now();
            vs::check(i.elapsed() < std::time::Duration::from_secs(100), "instant");
        }
        25 => {
            let mut v = b.clone();
            v.drain(..1.min(b.len()));
            v.splice(0..0, [1, 2, 3]);
            v.insert(1, 7);
            v.swap_remove(0);
            vs::check(v.len() + 1 >= b.len() + 1, "drain");
        }
        26 => {
            let mut v = b.clone();
            v.sort_by(|x, y| x.cmp(y));
            let c = vs::u8();
            vs::check(v.binary_search(&c).is_ok() == b.contains(&c), "binary_search");
        }
        27 => {
            let v: Vec<String> = b.iter().map(|c| ((c & 0x3f | 0x40) as char).to_string()).collect();
            vs::check(v.concat().len() == n as usize && v.join(",").len() == (2 * n).saturating_sub(1) as usize, "strings");
        }
        28 => {
            let l: LinkedList<u8> = b.iter().copied().collect();
            vs::check(l.iter().rev().copied().eq(b.iter().rev().copied()), "list");
        }
        _ => {
            let mut x = [0u8; 16];
            x[..n as usize].copy_from_slice(&b);
            x.fill(1);
            vs::check(x.iter().all(|c| *c == 1) && x == [1; 16], "fill");
        }
    }
    vs::reach("done");
}
pub fn t_fmt(k: u64) {
    let x = vs::u8();
    match k {
        0 => vs::check(x.to_string().len() <= 3, "to_string"),
        1 => {
            let s = format!("a{}b", x & 1);
            vs::check(s == "a0b" || s == "a1b", "format");
        }
        2 => {
            use std::fmt::Write;
            let mut s = String::new();
            let _ = write!(s, "{}-{:02x}", "q", x);
            vs::check(s.len() == 4, "write");
        }
        3 => vs::check(format!("{}/{}", "a", "b") == "a/b", "format str"),
        4 => {
            let s = std::string::String::from("a") + "/" + "b";
            vs::check(s == "a/b", "add");
        }
        _ => vs::check(["a", "b"].join("/") == "a/b", "join"),
    }
    vs::reach("done");
}
