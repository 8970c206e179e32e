use super::*;
use crate::ensure;
use ass_core::utils::{self, decode_uu_data, format_ass_time, parse_ass_time, parse_bgr_color};

// ---------- C01 ----------
/// `H:MM:SS[.CC]`: the documented grammar, written independently.
fn oracle_time(s: &str) -> Option<u64> {
    let num = |t: &str| -> Option<u64> {
        let t = t.strip_prefix('+').unwrap_or(t); // integer parsing accepts a sign
        if t.is_empty() || !t.bytes().all(|b| b.is_ascii_digit()) { return None; }
        let mut v: u64 = 0;
        for b in t.bytes() { v = v.saturating_mul(10).saturating_add((b - b'0') as u64); }
        if v > u32::MAX as u64 { None } else { Some(v) }
    };
    let mut it = s.split(':');
    let (a, b, c) = (it.next()?, it.next()?, it.next()?);
    if it.next().is_some() { return None; }
    let mut sp = c.split('.');
    let sec = num(sp.next()?)?;
    let cs = match sp.next() { None => 0, Some(f) => { if f.starts_with('+') { return None; } num(f)? } };
    let (h, m) = (num(a)?, num(b)?);
    if m >= 60 || sec >= 60 { return None; }
    let t = h * 360_000 + m * 6000 + sec * 100 + cs;
    if t > u32::MAX as u64 { None } else { Some(t) }
}
pub fn time(cx: &mut Cx) {
    let rt = |cx: &mut Cx, cs: u32| {
        cx.check("format_then_parse_is_identity", || format!("{cs}"), || {
            let s = format_ass_time(cs);
            ensure!(s == time_str(cs), "format_ass_time({cs}) = {s:?}, expected {:?}", time_str(cs));
            ensure!(parse_ass_time(&s).ok() == Some(cs), "parse_ass_time({s:?}) = {:?}", parse_ass_time(&s).ok());
            Ok(())
        });
    };
    for k in 0..14 { for d in -2i64..=2 { let c = (1i64 << (k * 2 + 4).min(32)) + d; if c >= 0 && c <= u32::MAX as i64 { rt(cx, c as u32) } } }
    for c in [0, 99, 100, 5999, 6000, 359_999, 360_000, u32::MAX, u32::MAX - 1] { rt(cx, c) }
    for _ in 0..cx.n(3 * 60_000) { let c = cx.rng.next() as u32; let c = c >> cx.rng.us(28); rt(cx, c) }
    let parts = ["0", "1", "00", "59", "60", "99", "12", "+1", "-1", "", " 1", "4294967295", "4294967296", "11930", "11931", "a", "1.", ".5", "5.5.5", "007", "١"];
    for _ in 0..cx.n(3 * 60_000) {
        let r = &mut cx.rng;
        let s = if r.chance(1, 3) { r.string(&["0", "1", "5", "9", ":", ":", ".", "+", "-", " ", "é"], 12) } else {
            let n = if r.chance(1, 8) { 1 + r.us(5) } else { 3 };
            let mut s = (0..n).map(|_| *r.pick(&parts)).collect::<Vec<_>>().join(":");
            if r.chance(1, 2) { s.push('.'); s.push_str(*r.pick(&parts)); }
            s
        };
        cx.check("parse_accepts_exactly_the_grammar", || format!("{s:?}"), || {
            let got = parse_ass_time(&s).ok().map(u64::from);
            let want = oracle_time(&s);
            ensure!(got == want, "parse_ass_time({s:?}) = {got:?}, expected {want:?}");
            Ok(())
        });
    }
    for _ in 0..cx.n(3 * 8000) {
        let (a, b) = (cx.rng.next() as u32 >> cx.rng.us(30), cx.rng.next() as u32 >> cx.rng.us(30));
        let (sa, sb) = (time_str(a), time_str(b));
        cx.check("event_times_and_duration", || format!("{sa}..{sb}"), || {
            let e = ass_core::parser::Event { start: &sa, end: &sb, ..Default::default() };
            ensure!(e.start_time_cs().ok() == Some(a) && e.end_time_cs().ok() == Some(b), "event times of {sa}..{sb} wrong");
            ensure!(e.duration_cs().ok() == Some(b.saturating_sub(a)), "duration of {sa}..{sb} is {:?}", e.duration_cs().ok());
            Ok(())
        });
    }
}

// ---------- C02 ----------
fn hex(s: &str) -> Option<u32> {
    if s.is_empty() || s.len() > 8 || !s.bytes().all(|b| b.is_ascii_hexdigit()) { return None; }
    Some(s.bytes().fold(0u32, |a, b| (a << 4) | (b as char).to_digit(16).unwrap()))
}
fn oracle_colour(s: &str) -> Option<[u8; 4]> {
    let t = s.trim();
    let body = if t.starts_with("&H") || t.starts_with("&h") { let b = &t[2..]; b.strip_suffix('&').unwrap_or(b) }
        else if let Some(b) = t.strip_prefix("0x") { b } else { t };
    let v = hex(body)?;
    let [a, b, g, r] = v.to_be_bytes();
    match body.len() { 6 => Some([r, g, b, 0]), 8 => Some([r, g, b, a]), _ => None }
}
pub fn colour(cx: &mut Cx) {
    for _ in 0..cx.n(3 * 80_000) {
        let r = &mut cx.rng;
        let digits = ["0", "1", "9", "A", "F", "a", "f", "7", "c", "B"];
        let mut body = String::new();
        let n = match r.us(8) { 0 => r.us(12), 1 => 8, 2 => 7, 3 => 5, 4 => 8, _ => 6 };
        for _ in 0..n { body.push_str(if r.chance(1, 40) { *r.pick(&["G", "+", "-", " ", "é", "&", "x", "g", "/", ":", "@", "`"]) } else { *r.pick(&digits) }); }
        let s = format!("{}{}{}{}", r.pick(&["", "", " ", "\t"]), if r.chance(1, 8) { *r.pick(&["&H&H", "0x0x", "&h&H", "&H0x", "0x&H", "0x0x0x", "&&H"]) } else { *r.pick(&["&H", "&h", "&H", "0x", "", "0X", "#", "&"]) }, body, r.pick(&["&", "", "", "&&", " ", "& "]));
        cx.check("colour_parses_exactly", || format!("{s:?}"), || {
            let (g, w) = (parse_bgr_color(&s).ok(), oracle_colour(&s));
            ensure!(g == w, "parse_bgr_color({s:?}) = {g:?}, expected {w:?}");
            Ok(())
        });
        cx.check("hex_parses_exactly", || format!("{body:?}"), || {
            let (g, w) = (ass_core::tokenizer::simd::parse_hex_u32(&body), hex(&body));
            ensure!(g == w, "parse_hex_u32({body:?}) = {g:?}, expected {w:?}");
            Ok(())
        });
    }
    for _ in 0..cx.n(3 * 8000) {
        let s = cx.rng.string(&["1", "0", "-", "+", ".", "5", "255", "256", "e3", " ", "\t", "a", "é", ":", ",", "{", "}", "\u{7f}", "\u{85}", "\n", "\u{1}", "NaN"], 5);
        cx.check("field_numbers_read_as_their_type", || format!("{s:?}"), || {
            let t = s.trim();
            ensure!(utils::parse_numeric::<u8>(&s).ok() == t.parse().ok() && utils::parse_numeric::<i32>(&s).ok() == t.parse().ok(), "integer reading of {s:?} differs");
            ensure!(utils::parse_numeric::<f32>(&s).ok().map(f32::to_bits) == t.parse::<f32>().ok().map(f32::to_bits), "float reading of {s:?} differs");
            ensure!(utils::normalize_field_value(&s) == t, "normalize_field_value({s:?})");
            Ok(())
        });
        cx.check("valid_names_are_exactly_these", || format!("{s:?}"), || {
            let want = !s.is_empty() && s.chars().all(|c| !matches!(c, ',' | ':' | '{' | '}') && (c == '\t' || !((c as u32) < 32 || (127..160).contains(&(c as u32)))));
            ensure!(utils::validate_ass_name(&s) == want, "validate_ass_name({s:?}) is not {want}");
            Ok(())
        });
    }
    for v in 0u32..0x1000 {
        let s = format!("&H00{:06X}&", v.wrapping_mul(4097));
        let x = v.wrapping_mul(4097) & 0xFF_FFFF;
        let s = if v % 2 == 0 { s } else { format!("&H{x:06x}") };
        cx.check("colour_bytes_are_alpha_blue_green_red", || s.clone(), || {
            let want = [(x & 255) as u8, (x >> 8 & 255) as u8, (x >> 16) as u8, 0];
            ensure!(parse_bgr_color(&s).ok() == Some(want), "{s} = {:?}, expected {want:?}", parse_bgr_color(&s).ok());
            Ok(())
        });
    }
}

// ---------- C03 ----------
fn uu_encode(data: &[u8], r: &mut Rng) -> Vec<String> {
    let mut out = vec![];
    let mut i = 0;
    while i < data.len() {
        let n = (1 + r.us(45)).min(data.len() - i);
        let c = &data[i..i + n];
        let mut s = String::from((b' ' + n as u8) as char);
        for g in c.chunks(3) {
            let b = |k: usize| *g.get(k).unwrap_or(&0) as u32;
            let v = b(0) << 16 | b(1) << 8 | b(2);
            for k in (0..4).rev() { let x = (v >> (6 * k) & 63) as u8; s.push(if x == 0 { '`' } else { (x + 32) as char }); }
        }
        out.push(s);
        i += n;
    }
    out
}
fn oracle_uu(lines: &[String]) -> Vec<u8> {
    let mut res = vec![];
    for l in lines {
        let l = l.trim_start().trim_end_matches(['\n', '\r']);
        if l.is_empty() { continue; }
        if l == "end" || l.starts_with("end ") { break; }
        let b = l.as_bytes();
        let n = b[0].wrapping_sub(32) as usize;
        if n > 45 { continue; }
        if n == 0 { break; }
        let mut bits: Vec<u8> = vec![];
        let mut v: Vec<u8> = b[1..].iter().map(|x| x.wrapping_sub(32) & 63).collect();
        while v.len() % 4 != 0 { v.push(0); }
        for x in v { for k in (0..6).rev() { bits.push(x >> k & 1); } }
        let mut by: Vec<u8> = bits.chunks(8).map(|c| c.iter().fold(0, |a, x| a << 1 | x)).collect();
        by.truncate(n);
        res.extend(by);
    }
    res
}
pub fn uu(cx: &mut Cx) {
    for _ in 0..cx.n(3 * 6000) {
        let n = cx.rng.us(260);
        let data: Vec<u8> = (0..n).map(|_| match cx.rng.us(4) { 0 => 0, 1 => 255, _ => cx.rng.next() as u8 }).collect();
        let mut rr = cx.rng.clone();
        cx.rng.next();
        let lines = uu_encode(&data, &mut rr);
        cx.check("decode_inverts_encode", || format!("{data:02x?}"), || {
            let got = decode_uu_data(lines.iter().map(|s| s.as_str())).map_err(|e| e.to_string())?;
            ensure!(got == data, "decoding the encoding of {} bytes gave {} bytes, first difference at {:?}", data.len(), got.len(), got.iter().zip(&data).position(|(a, b)| a != b));
            Ok(())
        });
    }
    for _ in 0..cx.n(3 * 20_000) {
        let r = &mut cx.rng;
        let lines: Vec<String> = (0..r.us(5)).map(|_| {
            let mut s = match r.us(10) { 0 => "end".into(), 1 => "end x".into(), 2 => " ".to_string(), 3 => "endless".into(), 4 => String::new(), _ => String::from((b' ' + r.us(64) as u8) as char) };
            for _ in 0..r.us(26) { if r.chance(1, 20) { s.push_str(*r.pick(&["é", "\r", "~", "\u{1}", "界"])) } else { s.push((b' ' + r.us(65) as u8) as char) } }
            if r.chance(1, 5) { s.push_str("\r\n"); }
            s
        }).collect();
        cx.check("decode_follows_the_line_rules", || format!("{lines:?}"), || {
            let g = decode_uu_data(lines.iter().map(|s| s.as_str())).map_err(|e| e.to_string())?;
            let w = oracle_uu(&lines);
            ensure!(g == w, "decode_uu_data({lines:?}) = {g:02x?}, expected {w:02x?}");
            let refs: Vec<&str> = lines.iter().map(|s| s.as_str()).collect();
            let f = ass_core::parser::ast::Font { filename: "f", data_lines: refs.clone(), span: ass_core::parser::ast::Span::new(0, 0, 0, 0) };
            ensure!(f.decode_data().ok() == Some(w.clone()), "Font::decode_data differs from the decoder");
            let f = ass_core::parser::ast::Graphic { filename: "f", data_lines: refs, span: ass_core::parser::ast::Span::new(0, 0, 0, 0) };
            ensure!(f.decode_data().ok() == Some(w), "Graphic::decode_data differs from the decoder");
            Ok(())
        });
    }
}

// ---------- C12 ----------
pub fn utf8(cx: &mut Cx) {
    let parts: &[&[u8]] = &[b"a", b"z ", b"0123456789abcdef", "é".as_bytes(), "界".as_bytes(), "🎬".as_bytes(), b"\xff", b"\xc3", b"\xe7\x95", b"\xf0\x9f\x8e", b"\xc0\x80", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"\x80", b"\xef\xbb\xbf", b"\xff\xfe", b"\xfe\xff", b"\xff\xfe\0\0", b"\0\0\xfe\xff", b"\0", b"\x7f", b"\n", b"\r", b"\t"];
    for _ in 0..cx.n(3 * 40_000) {
        let r = &mut cx.rng;
        let mut v: Vec<u8> = vec![];
        let biased = r.chance(1, 2);
        for _ in 0..r.us(14) { let k = if biased && r.chance(7, 8) { r.us(6) } else { r.us(parts.len()) }; v.extend_from_slice(parts[k]); }
        cx.check("validation_agrees_with_the_standard", || format!("{v:02x?}"), || {
            let std = std::str::from_utf8(&v);
            let a = utils::validate_utf8(&v);
            let b = ass_core::tokenizer::simd::validate_utf8_batch(&v);
            ensure!(a.is_ok() == std.is_ok(), "validate_utf8 {:?} but std {:?}", a.is_ok(), std.is_ok());
            ensure!(b.is_ok() == std.is_ok(), "validate_utf8_batch {:?} but std {:?}", b.is_ok(), std.is_ok());
            if let Err(e) = std {
                for (n, x) in [("validate_utf8", a), ("validate_utf8_batch", b)] {
                    match x { Err(ass_core::CoreError::Utf8Error { position, .. }) => ensure!(position == e.valid_up_to(), "{n} reports position {position}, first invalid byte is at {}", e.valid_up_to()), other => return Err(format!("{n}: unexpected {other:?}")) }
                }
            }
            Ok(())
        });
        cx.check("recovery_is_lossy_decoding", || format!("{v:02x?}"), || {
            let (s, n) = utils::recover_utf8(&v);
            let w = String::from_utf8_lossy(&v);
            ensure!(s == w, "recover_utf8 gave {s:?}, expected {w:?}");
            if std::str::from_utf8(&v).is_ok() { ensure!(n == 0, "{n} replacements reported for valid input"); }
            else { ensure!(n == w.matches('\u{FFFD}').count(), "{n} replacements reported, {} present", w.matches('\u{FFFD}').count()); }
            Ok(())
        });
        cx.check("byte_order_mark_detection", || format!("{v:02x?}"), || {
            use utils::utf8::{detect_bom, BomType::*};
            let want = if v.starts_with(b"\xff\xfe\0\0") { Some((Utf32Le, 4)) } else if v.starts_with(b"\0\0\xfe\xff") { Some((Utf32Be, 4)) } else if v.starts_with(b"\xef\xbb\xbf") { Some((Utf8, 3)) } else if v.starts_with(b"\xff\xfe") { Some((Utf16Le, 2)) } else if v.starts_with(b"\xfe\xff") { Some((Utf16Be, 2)) } else { None };
            ensure!(detect_bom(&v) == want, "detect_bom = {:?}, expected {want:?}", detect_bom(&v));
            if let Some((t, n)) = want { ensure!(t.len() == n && v.starts_with(t.signature()), "signature of {t:?} wrong"); }
            let e = utils::detect_encoding(&v);
            let name = match want { Some((t, _)) => match t { Utf8 => "UTF-8", Utf16Le => "UTF-16LE", Utf16Be => "UTF-16BE", Utf32Le => "UTF-32LE", Utf32Be => "UTF-32BE" }, None if std::str::from_utf8(&v).is_ok() => "UTF-8", None => "Windows-1252" };
            ensure!(e.encoding == name && e.has_bom == want.is_some() && e.bom_type == want.map(|w| w.0), "detect_encoding = {e:?}, expected {name}");
            Ok(())
        });
    }
    for _ in 0..cx.n(3 * 8000) {
        let s = cx.rng.string(&["a", " ", " ", "\t", "\n", "\r", "\r\n", "\u{a0}", "\u{3000}", "\u{2028}", "\u{b}", "\u{0}", "\u{7f}", "\u{85}", "é", "\u{200b}", "[Events]", "Style:", "\u{1b}"], 12);
        cx.check("clean_up_changes_nothing_else", || format!("{s:?}"), || {
            use utils::utf8::*;
            let spaced: String = s.chars().map(|c| if c.is_whitespace() && c != '\n' && c != '\t' { ' ' } else { c }).collect();
            ensure!(normalize_whitespace(&s, false) == spaced, "normalize_whitespace({s:?}, false) = {:?}", normalize_whitespace(&s, false));
            let mut once = String::new();
            for c in spaced.chars() { if c != ' ' || !once.ends_with(' ') { once.push(c) } }
            ensure!(normalize_whitespace(&s, true) == once, "normalize_whitespace({s:?}, true) = {:?}, expected {once:?}", normalize_whitespace(&s, true));
            let plain: String = s.chars().filter(|&c| matches!(c, '\n' | '\t' | '\r') || !((c as u32) < 32 || (127..160).contains(&(c as u32)))).collect();
            ensure!(remove_control_chars(&s) == plain, "remove_control_chars({s:?})");
            ensure!(is_valid_ass_text(&s) == (plain == s), "is_valid_ass_text({s:?}) is not {}", plain == s);
            let mut body = s.as_str();
            if let Some(b) = body.strip_suffix('\n') { body = b; }
            let lines: Vec<&str> = if s.is_empty() { vec![] } else { body.split('\n').map(str::trim).collect() };
            ensure!(trim_lines(&s) == lines.join("\n"), "trim_lines({s:?}) = {:?}", trim_lines(&s));
            ensure!(count_replacement_chars(&format!("{s}\u{fffd}{s}")) == 1, "count_replacement_chars");
            Ok(())
        });
    }
    for _ in 0..cx.n(3 * 20_000) {
        let s = odd(&mut cx.rng, 14);
        let n = cx.rng.us(s.len() + 6);
        cx.check("truncation_is_the_longest_fitting_prefix", || format!("{s:?} at {n}"), || {
            let (t, cut) = utils::utf8::truncate_at_char_boundary(&s, n);
            ensure!(s.starts_with(t) && t.len() <= n, "not a prefix of at most {n} bytes: {t:?}");
            ensure!(cut == (t.len() < s.len()), "cut flag {cut} wrong");
            if let Some(c) = s[t.len()..].chars().next() { ensure!(t.len() + c.len_utf8() > n, "{t:?} could be longer within {n} bytes"); }
            Ok(())
        });
        cx.check("strip_bom_removes_one_mark_only", || format!("{s:?}"), || {
            let (t, had) = utils::strip_bom(&s);
            let w = s.strip_prefix('\u{FEFF}');
            ensure!(had == w.is_some() && t == w.unwrap_or(&s), "strip_bom({s:?}) = ({t:?},{had})");
            Ok(())
        });
        cx.check("line_ending_normalisation", || format!("{s:?}"), || {
            let g = utils::normalize_line_endings(&s);
            let mut w = String::new();
            let mut it = s.chars().peekable();
            while let Some(c) = it.next() { if c == '\r' { if it.peek() == Some(&'\n') { it.next(); } w.push('\n') } else { w.push(c) } }
            ensure!(g == w, "normalize_line_endings({s:?}) = {g:?}, expected {w:?}");
            ensure!(utils::normalize_line_endings(&g) == g, "normalising twice differs");
            Ok(())
        });
    }
}
