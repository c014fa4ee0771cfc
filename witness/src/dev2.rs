//! Development only: how much of the standard library the analysis can follow.
use crate::p::*;
use std::borrow::Cow;
use std::borrow::ToOwned;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::format;
use std::string::{String, ToString};
use std::vec;
use std::vec::Vec;

macro_rules! t {
    ($($n:ident: $e:expr;)*) => {$(
        pub fn $n() {
            check("T", $e, "holds");
        }
    )*};
}
fn a() -> S { sym_str("a") }
t! {
    e_d_starts: "abc".starts_with("ab");
    e_d_starts_c: "abc".starts_with('a');
    e_d_ends: "abc".ends_with("bc");
    e_d_ends_c: "abc".ends_with('c');
    e_d_ends_f: "abc".ends_with(|c: char| c == 'c');
    e_d_contains: "abc".contains("b");
    e_d_contains2: !"abc".contains("bd");
    e_d_contains_arr: "abc".contains(&['x', 'b'][..]);
    e_d_contains_f: "abc".contains(char::is_alphabetic);
    e_d_find: "abc".find("c") == Some(2);
    e_d_find_c: "abc".find('c') == Some(2);
    e_d_find_f: "ab1".find(|c: char| c.is_ascii_digit()) == Some(2);
    e_d_rfind: "abcb".rfind('b') == Some(3);
    e_d_rfind_s: "abcb".rfind("b") == Some(3);
    e_d_strip: "abc".strip_prefix("a") == Some("bc");
    e_d_strip_c: "abc".strip_prefix('a') == Some("bc");
    e_d_strip_s: "abc".strip_suffix("c") == Some("ab");
    e_d_trim: " a ".trim() == "a";
    e_d_trim_start: " a ".trim_start() == "a ";
    e_d_trim_end: " a ".trim_end() == " a";
    e_d_trim_m: "aabaa".trim_matches('a') == "b";
    e_d_trim_em: "ab??".trim_end_matches('?') == "ab";
    e_d_trim_sm: "//ab".trim_start_matches('/') == "ab";
    e_d_split: "a&b&c".split('&').count() == 3;
    e_d_split_s: "a&b&c".split("&").nth(1) == Some("b");
    e_d_split_once: "a=b".split_once('=') == Some(("a", "b"));
    e_d_rsplit_once: "a=b=c".rsplit_once('=') == Some(("a=b", "c"));
    e_d_splitn: "a=b=c".splitn(2, '=').last() == Some("b=c");
    e_d_split_at: "abc".split_at(1) == ("a", "bc");
    e_d_split_ws: "a b".split_whitespace().next() == Some("a");
    e_d_lines: "a\nb".lines().count() == 2;
    e_d_chars: "a\u{e9}".chars().count() == 2;
    e_d_chars_rev: "ab".chars().rev().next() == Some('b');
    e_d_char_ind: "\u{e9}a".char_indices().nth(1) == Some((2, 'a'));
    e_d_chars_coll: "ab".chars().rev().collect::<String>() == "ba";
    e_d_bytes: "ab".bytes().map(|b| b as u32).sum::<u32>() == 195;
    e_d_bytes_all: "ab".bytes().all(|b| b.is_ascii_lowercase());
    e_d_upper: "ab".to_uppercase() == "AB";
    e_d_lower: "AB".to_lowercase() == "ab";
    e_d_aupper: "ab".to_ascii_uppercase() == "AB";
    e_d_alower: "AB".to_ascii_lowercase() == "ab";
    e_d_eqic: "aB".eq_ignore_ascii_case("Ab");
    e_d_replace: "a b c".replace(' ', "%20") == "a%20b%20c";
    e_d_replace_s: "a b c".replace(" ", "+") == "a+b+c";
    e_d_replacen: "a b c".replacen(' ', "+", 1) == "a+b c";
    e_d_repeat: "ab".repeat(2) == "abab";
    e_d_parse: "12".parse::<u64>() == Ok(12);
    e_d_get: "abc".get(1..) == Some("bc");
    e_d_get_none: "abc".get(5..).is_none();
    e_d_index: &"abc"[1..2] == "b";
    e_d_boundary: !"\u{e9}".is_char_boundary(1);
    e_d_is_ascii: "abc".is_ascii();
    e_d_concat: ["a", "b"].concat() == "ab";
    e_d_join: ["a", "b"].join("&") == "a&b";
    e_d_format: format!("{}={:?}", "a", 1) == "a=1";
    e_d_format_pad: format!("{:>3}", "a") == "  a";
    e_d_format_hex: format!("%{:02X}", 10) == "%0A";
    e_d_to_string: 12u64.to_string() == "12";
    e_d_char_str: 'a'.to_string() == "a";
    e_d_cmp: "a".cmp("b") == std::cmp::Ordering::Less;
    e_d_max: "a".max("b") == "b";
    e_d_from_utf8: std::str::from_utf8(b"ab") == Ok("ab");
    e_d_from_utf8_l: String::from_utf8_lossy(b"ab") == "ab";
    e_d_from_utf8_o: String::from_utf8(b"ab".to_vec()).unwrap() == "ab";
    e_d_s_insert: { let mut s = String::from("bc"); s.insert(0, 'a'); s == "abc" };
    e_d_s_insert_str: { let mut s = String::from("c"); s.insert_str(0, "ab"); s == "abc" };
    e_d_s_trunc: { let mut s = String::from("abc"); s.truncate(1); s == "a" };
    e_d_s_pop: { let mut s = String::from("abc"); s.pop() == Some('c') && s == "ab" };
    e_d_s_remove: { let mut s = String::from("abc"); s.remove(0) == 'a' && s == "bc" };
    e_d_s_retain: { let mut s = String::from("abc"); s.retain(|c| c != 'b'); s == "ac" };
    e_d_s_drain: { let mut s = String::from("abc"); s.drain(..1).count() == 1 && s == "bc" };
    e_d_s_extend: { let mut s = String::from("a"); s.extend(vec!["b", "c"]); s == "abc" };
    e_d_s_extend_c: { let mut s = String::from("a"); s.extend("bc".chars()); s == "abc" };
    e_d_s_add: String::from("a") + "b" == "ab";
    e_d_s_addassign: { let mut s = String::from("a"); s += "b"; s == "ab" };
    e_d_s_collect: vec!["a", "b"].into_iter().collect::<String>() == "ab";
    e_d_s_with_cap: { let mut s = String::with_capacity(10); s.push_str("a"); s.capacity() >= 1 };
    e_d_s_split_off: { let mut s = String::from("abc"); let t = s.split_off(1); s == "a" && t == "bc" };
    e_d_s_replace_range: { let mut s = String::from("abc"); s.replace_range(..1, "x"); s == "xbc" };
    e_d_cow: { let c: Cow<str> = Cow::Borrowed("a"); c == "a" };
    e_d_cow_owned: { let c: Cow<str> = Cow::Borrowed("a"); c.into_owned() == "a" };
    e_d_cow_if: { let c: Cow<str> = if nd() { "a".into() } else { String::from("a").into() }; &*c == "a" };
    e_d_box_str: { let b: std::boxed::Box<str> = "a".into(); &*b == "a" };
    e_d_rc_str: { let b: std::rc::Rc<str> = "a".into(); &*b == "a" };
    e_d_v_sort: { let mut v = vec![3, 1, 2]; v.sort(); v == [1, 2, 3] };
    e_d_v_sort_key: { let mut v = vec![("b", 1), ("a", 2)]; v.sort_by_key(|p| p.0); v[0].0 == "a" };
    e_d_v_sort_by: { let mut v = vec![("b", 1), ("a", 2)]; v.sort_by(|x, y| x.0.cmp(y.0)); v[0].0 == "a" };
    e_d_v_dedup: { let mut v = vec![1, 1, 2]; v.dedup(); v.len() == 2 };
    e_d_v_dedup_key: { let mut v = vec![("a", 1), ("a", 2)]; v.dedup_by_key(|p| p.0); v.len() == 1 };
    e_d_v_dedup_by: { let mut v = vec![("a", 1), ("a", 2)]; v.dedup_by(|p, q| p.0 == q.0); v.len() == 1 };
    e_d_v_retain: { let mut v = vec![1, 2, 3]; v.retain(|x| *x != 2); v == [1, 3] };
    e_d_v_insert: { let mut v = vec![1, 3]; v.insert(1, 2); v == [1, 2, 3] };
    e_d_v_remove: { let mut v = vec![1, 2, 3]; v.remove(0) == 1 && v == [2, 3] };
    e_d_v_swap: { let mut v = vec![1, 2]; v.swap(0, 1); v == [2, 1] };
    e_d_v_reverse: { let mut v = vec![1, 2]; v.reverse(); v == [2, 1] };
    e_d_v_drain: { let mut v = vec![1, 2]; v.drain(..).sum::<i32>() == 3 && v.is_empty() };
    e_d_v_trunc: { let mut v = vec![1, 2]; v.truncate(1); v == [1] };
    e_d_v_pop: { let mut v = vec![1, 2]; v.pop() == Some(2) };
    e_d_v_extend: { let mut v = vec![1]; v.extend_from_slice(&[2, 3]); v.len() == 3 };
    e_d_v_contains: vec![1, 2].contains(&2);
    e_d_v_iter_rev: vec![1, 2].iter().rev().next() == Some(&2);
    e_d_v_zip: vec![1, 2].iter().zip(&[3, 4]).map(|(x, y)| x * y).sum::<i32>() == 11;
    e_d_v_chain: [1, 2].iter().chain(&[3]).count() == 3;
    e_d_v_windows: [1, 2, 3].windows(2).all(|w| w[0] < w[1]);
    e_d_v_chunks: [1, 2, 3].chunks(2).count() == 2;
    e_d_v_bsearch: [1, 2, 3].binary_search(&2) == Ok(1);
    e_d_v_max: [1, 3, 2].iter().max() == Some(&3);
    e_d_v_min_key: [1, 3, 2].iter().min_by_key(|x| -**x) == Some(&3);
    e_d_v_fold: [1, 3, 2].iter().fold(0, |a, b| a + b) == 6;
    e_d_v_filter: [1, 3, 2].iter().filter(|x| **x > 1).count() == 2;
    e_d_v_filter_map: [1, 3, 2].iter().filter_map(|x| if *x > 1 { Some(x) } else { None }).count() == 2;
    e_d_v_flat_map: [1, 3].iter().flat_map(|x| vec![*x, *x]).count() == 4;
    e_d_v_take_while: [1, 3].iter().take_while(|x| **x < 2).count() == 1;
    e_d_v_skip_while: [1, 3].iter().skip_while(|x| **x < 2).count() == 1;
    e_d_v_step: (0..6).step_by(2).count() == 3;
    e_d_v_enum: ["a", "b"].iter().enumerate().last() == Some((1, &"b"));
    e_d_v_peek: { let a = ["a", "b"]; let mut i = a.iter().peekable(); i.peek() == Some(&&"a") && i.next().is_some() };
    e_d_v_scan: [1, 2].iter().scan(0, |s, x| { *s += x; Some(*s) }).last() == Some(3);
    e_d_v_partition: { let (a, b): (Vec<i32>, Vec<i32>) = vec![1, 2, 3].into_iter().partition(|x| *x > 1); a.len() == 2 && b.len() == 1 };
    e_d_v_unzip: { let (a, b): (Vec<i32>, Vec<&str>) = vec![(1, "a")].into_iter().unzip(); a.len() == 1 && b[0] == "a" };
    e_d_v_cloned: [1, 2].iter().cloned().collect::<Vec<_>>() == vec![1, 2];
    e_d_v_copied: [1, 2].iter().copied().sum::<i32>() == 3;
    e_d_v_any: ["a"].iter().any(|x| *x == "a");
    e_d_v_position: ["a", "b"].iter().position(|x| *x == "b") == Some(1);
    e_d_v_rposition: ["a", "b"].iter().rposition(|x| *x == "a") == Some(0);
    e_d_v_first: ["a", "b"].first() == Some(&"a");
    e_d_v_last: ["a", "b"].last() == Some(&"b");
    e_d_v_split_first: ["a", "b"].split_first().map(|(x, _)| *x) == Some("a");
    e_d_v_iter_mut: { let mut v = vec![1, 2]; for x in v.iter_mut() { *x += 1; } v == [2, 3] };
    e_d_v_slice_copy: { let mut v = [0u8; 3]; v[..2].copy_from_slice(b"ab"); v == *b"ab\0" };
    e_d_v_fill: { let mut v = [0u8; 3]; v.fill(1); v == [1, 1, 1] };
    e_d_v_rotate: { let mut v = [1, 2, 3]; v.rotate_left(1); v == [2, 3, 1] };
    e_d_v_concat: vec![vec![1], vec![2]].concat() == [1, 2];
    e_d_v_eq: vec!["a"] == ["a"];
    e_d_v_cmp: vec![1, 2] < vec![1, 3];
    e_d_bm: { let mut m = BTreeMap::new(); m.insert("b", 1); m.insert("a", 2); m.iter().next() == Some((&"a", &2)) };
    e_d_bs: { let mut m = BTreeSet::new(); m.insert("b"); m.insert("b"); m.len() == 1 };
    e_d_hm: { let mut m = HashMap::new(); m.insert("b", 1); m.get("b") == Some(&1) };
    e_d_hs: { let mut m = HashSet::new(); m.insert("b") && !m.insert("b") };
    e_d_vd: { let mut m = VecDeque::new(); m.push_back(1); m.push_front(0); m.pop_front() == Some(0) };
    e_d_o_map: Some(1).map(|x| x + 1) == Some(2);
    e_d_o_and: Some(1).and_then(|x| if x > 1 { Some(x) } else { None }).is_none();
    e_d_o_or: None.or(Some(1)) == Some(1);
    e_d_o_xor: Some(1).xor(None) == Some(1);
    e_d_o_zip: Some(1).zip(Some(2)) == Some((1, 2));
    e_d_o_filter: Some(1).filter(|x| *x > 1).is_none();
    e_d_o_take: { let mut o = Some(1); o.take() == Some(1) && o.is_none() };
    e_d_o_replace: { let mut o = Some(1); o.replace(2) == Some(1) };
    e_d_o_goi: { let mut o = None; *o.get_or_insert(1) == 1 };
    e_d_o_goiw: { let mut o = None; *o.get_or_insert_with(|| 1) == 1 };
    e_d_o_okor: Some(1).ok_or("e") == Ok(1);
    e_d_o_unwrap_or_default: None::<u32>.unwrap_or_default() == 0;
    e_d_o_as_deref: Some(String::from("a")).as_deref() == Some("a");
    e_d_o_cloned: Some(&1).cloned() == Some(1);
    e_d_o_iter: Some(1).iter().count() == 1;
    e_d_o_transpose: Some(Ok::<i32, ()>(1)).transpose() == Ok(Some(1));
    e_d_o_is_some_and: Some(1).map_or(false, |x| x == 1);
    e_d_r_map_err: Err::<(), _>(1).map_err(|x| x + 1) == Err(2);
    e_d_r_ok: Ok::<_, ()>(1).ok() == Some(1);
    e_d_r_collect: vec![Ok::<i32, ()>(1)].into_iter().collect::<Result<Vec<_>, _>>() == Ok(vec![1]);
    e_d_o_sum: vec![Some(1), None].into_iter().flatten().sum::<i32>() == 1;
    e_d_c_alnum: 'a'.is_ascii_alphanumeric();
    e_d_c_alpha: '\u{e9}'.is_alphabetic();
    e_d_c_up: 'a'.to_ascii_uppercase() == 'A';
    e_d_c_utf8: '\u{e9}'.len_utf8() == 2;
    e_d_c_enc: { let mut b = [0; 4]; '\u{e9}'.encode_utf8(&mut b) == "\u{e9}" };
    e_d_c_digit: '7'.to_digit(10) == Some(7);
    e_d_c_from: char::from_digit(7, 10) == Some('7');
    e_d_c_u32: u32::from('a') == 97;
    e_d_i_chk: 1u8.checked_add(255).is_none();
    e_d_i_sat: 1u8.saturating_add(255) == 255;
    e_d_i_wrap: 1u8.wrapping_add(255) == 0;
    e_d_i_ovf: 1u8.overflowing_add(255) == (0, true);
    e_d_i_pow: 2u32.pow(5) == 32;
    e_d_i_lz: 1u32.leading_zeros() == 31;
    e_d_i_bytes: 258u32.to_be_bytes() == [0, 0, 1, 2];
    e_d_i_from_bytes: u32::from_le_bytes([1, 0, 0, 0]) == 1;
    e_d_i_try: u8::try_from(300u32).is_err();
    e_d_i_rem: 7u32 % 4 == 3 && 7i32.rem_euclid(4) == 3;
    e_d_i_abs: (-3i32).abs() == 3;
    e_d_i_min: 3.min(4) == 3 && 5.clamp(1, 4) == 4;
    e_d_m_take: { let mut s = String::from("a"); std::mem::take(&mut s) == "a" && s.is_empty() };
    e_d_m_swap: { let (mut a, mut b) = (1, 2); std::mem::swap(&mut a, &mut b); a == 2 && b == 1 };
    e_d_cell: { let c = std::cell::Cell::new(1); c.set(2); c.get() == 2 };
    e_d_refcell: { let c = std::cell::RefCell::new(1); *c.borrow_mut() = 2; let r = *c.borrow() == 2; r };
    e_d_rc: { let c = std::rc::Rc::new(1); *c.clone() == 1 };
    e_d_dyn: { let c: std::boxed::Box<dyn Fn(i32) -> i32> = std::boxed::Box::new(|x| x + 1); c(1) == 2 };
    e_d_dyn_display: { let c: &dyn std::fmt::Display = &"a"; c.to_string() == "a" };
    e_d_once: { static X: std::sync::OnceLock<u32> = std::sync::OnceLock::new(); *X.get_or_init(|| 1) == 1 };
    e_d_atomic: { static X: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0); X.fetch_add(1, std::sync::atomic::Ordering::SeqCst) == 0 };
    e_d_tls: { std::thread_local!(static X: std::cell::Cell<u32> = std::cell::Cell::new(0)); X.with(|x| x.get()) == 0 };
    e_d_mutex: { static X: std::sync::Mutex<u32> = std::sync::Mutex::new(0); *X.lock().unwrap() == 0 };
    e_d_once_cell: { std::thread_local!(static X: std::cell::OnceCell<String> = const { std::cell::OnceCell::new() }); X.with(|x| x.get_or_init(|| String::from("a")) == "a") };
    e_d_tls_lazy: { std::thread_local!(static X: std::cell::RefCell<String> = std::cell::RefCell::new(String::new())); X.with(|x| x.borrow_mut().push_str("a")); X.with(|x| *x.borrow() == "a") };
    e_d_lazy: { static X: std::sync::LazyLock<String> = std::sync::LazyLock::new(|| String::from("a")); *X == "a" && X.len() == 1 };
    e_d_mutex_twice: { static X: std::sync::Mutex<Vec<u32>> = std::sync::Mutex::new(Vec::new()); X.lock().unwrap().push(1); X.lock().unwrap().push(1); X.lock().unwrap().len() == 2 };
    e_d_rwlock: { static X: std::sync::RwLock<u32> = std::sync::RwLock::new(1); *X.write().unwrap() += 1; *X.read().unwrap() == 2 };
    e_d_atomic_b: { static X: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false); !X.swap(true, std::sync::atomic::Ordering::SeqCst) && X.load(std::sync::atomic::Ordering::Relaxed) };
    e_d_atomic_c: { static X: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(7); X.compare_exchange(7, 8, std::sync::atomic::Ordering::SeqCst, std::sync::atomic::Ordering::SeqCst) == Ok(7) && X.fetch_add(1, std::sync::atomic::Ordering::SeqCst) == 8 };
    e_d_static_mut: { static mut X: u32 = 1; unsafe { X += 1; X == 2 } };
    e_d_once_call: { static X: std::sync::Once = std::sync::Once::new(); let mut n = 0; X.call_once(|| n += 1); X.call_once(|| n += 1); n == 1 };
    e_d_write: { use std::fmt::Write; let mut s = String::new(); write!(s, "{}-{}", 1, "a").is_ok() && s == "1-a" };
    e_d_writeln: { use std::fmt::Write; let mut s = String::new(); writeln!(s, "a").is_ok() && s == "a\n" };
    e_d_from_fn: { let mut n = 0; std::iter::from_fn(|| { n += 1; if n < 3 { Some(n) } else { None } }).count() == 2 };
    e_d_succ: std::iter::successors(Some(1), |x| if *x < 4 { Some(x * 2) } else { None }).last() == Some(4);
    e_d_repeat_it: std::iter::repeat("a").take(3).collect::<String>() == "aaa";
    e_d_array_map: [1, 2].map(|x| x + 1) == [2, 3];
    e_d_matches: matches!("a", "a" | "b");
    e_d_match_str: match "abc" { "ab" => false, "abc" => true, _ => false };
    e_d_b_eq: b"ab" == b"ab";
    e_d_b_starts: b"abc".starts_with(b"ab");
    e_d_b_ends: b"abc".ends_with(b"bc");
    e_d_b_iter_pos: b"abc".iter().position(|b| *b == b'c') == Some(2);
    e_d_b_split: b"a&b".split(|b| *b == b'&').count() == 2;
    e_d_b_contains: b"abc".contains(&b'b');
    e_d_b_to_vec: b"abc".to_vec().len() == 3;
    e_d_b_concat: [&b"a"[..], b"b"].concat() == b"ab";
    e_d_b_escape: b"a".escape_ascii().to_string() == "a";
    // symbols
    e_s_starts: a().starts_with("ab") == (a().get(..2) == Some("ab"));
    e_s_strip: match a().strip_prefix("ab") { Some(x) => eq(a(), cat(&["ab", x])), None => true };
    e_s_split_once: match a().split_once('=') { Some((x, y)) => eq(a(), cat(&[x, "=", y])), None => true };
    e_s_find: match a().find('=') { Some(i) => a().as_bytes()[i] == b'=', None => !a().contains('=') };
    e_s_to_owned: eq(&a().to_owned(), a());
    e_s_format: eq(&format!("x{}y", a()), cat(&["x", a(), "y"]));
    e_s_concat: eq(&["x", a()].concat(), cat(&["x", a()]));
    e_s_join: eq(&[a(), "b"].join("&"), cat(&[a(), "&b"]));
    e_s_cow: eq(&Cow::Borrowed(a()).into_owned(), a());
    e_s_chars: eq(&a().chars().collect::<String>(), a());
    e_s_bytes: eq(&String::from_utf8(a().bytes().collect::<Vec<u8>>()).unwrap(), a());
    e_s_utf8: eq(std::str::from_utf8(a().as_bytes()).unwrap(), a());
    e_s_insert: { let mut s = String::from(a()); s.insert(0, 'x'); eq(&s, cat(&["x", a()])) };
    e_s_insert_str: { let mut s = String::from("x"); s.insert_str(0, a()); eq(&s, cat(&[a(), "x"])) };
    e_s_push_loop: { let mut s = String::new(); for c in a().chars() { s.push(c); } eq(&s, a()) };
    e_s_push_bytes: { let mut v = Vec::new(); for b in a().bytes() { v.push(b); } eq(&String::from_utf8(v).unwrap(), a()) };
    e_s_write_fmt: { use std::fmt::Write; let mut s = String::new(); s.write_fmt(format_args!("{}{}", a(), 1)).unwrap(); eq(&s, cat(&[a(), "1"])) };
    e_s_split_at: { let (x, y) = a().split_at(0); eq(x, "") && eq(y, a()) };
    e_s_split_amp: eq(&a().split('&').collect::<Vec<_>>().join("&"), a());
    e_s_replace: eq(&a().replace("zzz", "zzz"), a());
    e_s_trim: a().trim().len() <= a().len();
    e_s_len: a().len() == a().bytes().count();
    e_s_is_empty: a().is_empty() == (a() == "");
    e_s_cmp: a().cmp(a()) == std::cmp::Ordering::Equal;
    e_s_box: eq(&*a().to_owned().into_boxed_str(), a());
    e_s_rev: eq(&a().chars().rev().collect::<String>().chars().rev().collect::<String>(), a());
}
fn eq(x: &str, y: &str) -> bool { x == y }
