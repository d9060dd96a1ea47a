//! Small utilities.
use rez_next_util as u;
#[no_mangle]
pub extern "C" fn h_util_base26() {
    let n = vp::param(0, 4) as usize;
    let len = vp::choice(n as u8 + 1) as usize;
    let s = vp::string_of(len, b"abcdefghijklmnopqrstuvwxyzA1");
    match u::get_next_base26(Some(&s)) {
        Ok(t) => {
            vp::check(s.bytes().all(|c| c.is_ascii_lowercase()), "only a-z are accepted");
            vp::check(!t.is_empty() && t.bytes().all(|c| c.is_ascii_lowercase()), "the result is a name again");
            // value in bijective base 26
            let val = |x: &str| x.bytes().fold(0u32, |a, c| a * 26 + (c - b'a') as u32 + 1);
            vp::check(val(&t) == val(&s) + 1, "the next name is the successor, none is skipped or repeated");
            vp::cover("next");
        }
        Err(_) => { vp::check(s.bytes().any(|c| !c.is_ascii_lowercase()), "a valid name is accepted"); vp::cover("refused") }
    }
}
#[no_mangle]
pub extern "C" fn h_util_links() {
    vp::fs_order(vp::choice(2) as u64);
    let d = format!("{}/l", vp::scratch());
    std::fs::create_dir_all(&d).unwrap();
    // names already taken, up to some point
    let upto = vp::choice(vp::param(0, 48) as u8) as usize;
    let mut name: Option<String> = None;
    for i in 0..upto { let t = u::get_next_base26(name.as_deref()).unwrap(); std::os::unix::fs::symlink(format!("/x/{i}"), format!("{d}/{t}")).unwrap(); name = Some(t); }
    if vp::flag() { std::fs::write(format!("{d}/README"), b"x").unwrap(); }
    let r = u::create_unique_base26_symlink(&d, "/x/new");
    vp::show!("{upto} names taken -> {r:?}");
    vp::check(r.is_ok(), "a new link can always be made");
    let p = r.unwrap();
    vp::check(std::fs::read_link(&p).is_ok_and(|t| t.to_str() == Some("/x/new")), "it points to its source");
    vp::check(u::create_unique_base26_symlink(&d, "/x/new").ok().as_ref() == Some(&p), "the same source gives the same link");
    let mut name: Option<String> = None;
    for i in 0..upto { let t = u::get_next_base26(name.as_deref()).unwrap(); vp::check(std::fs::read_link(format!("{d}/{t}")).is_ok_and(|x| x.to_str() == Some(&format!("/x/{i}"))), "older links stay"); name = Some(t); }
    vp::cover("linked");
}
#[no_mangle]
pub extern "C" fn h_util_text() {
    let n = vp::choice(vp::param(0, 4) as u8 + 1) as usize;
    let mut s = String::new();
    for _ in 0..n { match vp::choice(3) { 0 => s.push(vp::byte_of(b"ab- 1_\n") as char), 1 => s.push('é'), _ => s.push('漢') } }
    let m = vp::choice(8) as usize;
    vp::show!("{s:?} {m}");
    let t = u::truncate(&s, m);
    vp::check(t.len() <= m.max(3), "truncated text fits");
    vp::check(t == s || (t.ends_with("...") && s.starts_with(&t[..t.len() - 3])), "truncated text is a beginning of the text");
    let i = u::to_python_identifier(&s);
    vp::check(u::is_valid_identifier(&i), "a made identifier is valid");
    if u::is_valid_identifier(&s) && !s.starts_with('_') { vp::check(i == s, "a valid identifier is kept"); }
    vp::cover("text");
}
#[no_mangle]
pub extern "C" fn h_util_duration() {
    let n = 1 + vp::choice(2) as usize;
    let big = vp::choice(3);
    let mut d = String::new();
    for _ in 0..n { d.push(vp::byte_of(b"0123456789") as char); }
    let text = match big { 0 => d.clone(), 1 => format!("{d}99999999999999999"), _ => format!("1844674407370955{d}") };
    let k = vp::choice(5) as usize;
    let text = format!("{text}{}", ["", "s", "m", "h", "d"][k]);
    let digits: String = text.chars().filter(|c| c.is_ascii_digit()).collect();
    let want = digits.parse::<u64>().ok().and_then(|v| v.checked_mul([1, 1, 60, 3600, 86400][k]));
    let got = u::parse_duration(&text).ok().map(|d| d.as_secs());
    vp::show!("{text:?} {got:?} expected {want:?}");
    vp::check(got == want, "a duration is its number times its unit, or refused");
    vp::cover(if want.is_some() { "read" } else { "refused" });
}
