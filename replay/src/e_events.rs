//! Commands on event lines, karaoke, and field edits.
use super::*;
use crate::ensure;
use ass_core::parser::ast::Section;
use ass_core::Script;
use ass_editor::commands::*;
use ass_editor::{EditorDocument, Position, Range};

/// Index of every Dialogue or Comment line after the format line of [Events].
fn event_rows(lines: &[&str]) -> Vec<usize> {
    let Some(h) = lines.iter().position(|l| l.contains("[Events]")) else { return vec![] };
    let Some(f) = (h..lines.len()).find(|i| lines[*i].contains("Format:")) else { return vec![] };
    (f + 1..lines.len()).take_while(|i| !lines[*i].starts_with('[')).filter(|i| lines[*i].starts_with("Dialogue:") || lines[*i].starts_with("Comment:")).collect()
}
#[derive(Clone, Debug)]
struct Row { kind: String, f: Vec<String>, effect: String, text: String }
fn parse_row(l: &str) -> Row {
    let (k, rest) = l.split_once(':').unwrap();
    let mut it = rest.trim().splitn(9, ',');
    let f: Vec<String> = (0..8).map(|_| it.next().unwrap().trim().to_string()).collect();
    let rest = it.next().unwrap();
    let (mut d, mut cut) = (0i32, None);
    for (i, c) in rest.char_indices() {
        match c { '(' => d += 1, ')' => d = (d - 1).max(0), ',' if d == 0 => { cut = Some(i); break } _ => {} }
    }
    let cut = cut.or_else(|| rest.find(',')).unwrap();
    Row { kind: k.into(), f, effect: rest[..cut].trim().into(), text: rest[cut + 1..].trim().into() }
}
impl Row {
    fn line(&self) -> String { format!("{}: {},{},{}", self.kind, self.f.join(","), self.effect, self.text) }
}
fn cs(t: &str) -> u64 {
    let v: Vec<u64> = t.split([':', '.']).map(|x| x.parse().unwrap()).collect();
    ((v[0] * 60 + v[1]) * 60 + v[2]) * 100 + v[3]
}
fn t32(t: u64) -> String { time_str(t as u32) }
fn same_lines(got: &str, want: &[String], touched: &[usize]) -> Result<(), String> {
    let g: Vec<&str> = got.split('\n').collect();
    let n = g.len().max(want.len());
    for i in 0..n {
        let (a, b) = (g.get(i).copied(), want.get(i).map(String::as_str));
        let eq = if touched.contains(&i) { a.map(str::trim_end) == b.map(str::trim_end) } else { a == b };
        ensure!(eq, "line {i} is {a:?}, expected {b:?}");
    }
    Ok(())
}
fn some_indices(r: &mut Rng, n: usize) -> Vec<usize> {
    if r.chance(1, 5) { return vec![] }
    (0..1 + r.us(4)).map(|_| r.us(n + 2)).collect()
}

pub fn commands(cx: &mut Cx) {
    for _ in 0..cx.n(3000) {
        let (start, n) = events_doc(&mut cx.rng);
        let r = &mut cx.rng;
        let idx = some_indices(r, n);
        let op = r.us(8);
        let (so, eo) = (off(r), off(r));
        let eff = r.pick(&["Fade(255,0)", "x", "Scroll up;10;20", ""]).to_string();
        let (a, b) = (r.us(n + 1), r.us(n + 1));
        let sep = r.pick(&[" ", "\\N", "", " é "]).to_string();
        let frac = r.us(5) as u64;
        let (s0, i0, e0, p0) = (start.clone(), idx.clone(), eff.clone(), sep.clone());
        cx.check("event_commands_change_exactly_their_events", move || format!("doc={s0:?} op={op} indices={i0:?} offsets={so},{eo} effect={e0:?} a={a} b={b} sep={p0:?} frac={frac}"), || {
            let mut doc = EditorDocument::from_content(&start).map_err(|e| e.to_string())?;
            let lines: Vec<&str> = start.split('\n').collect();
            let rows = event_rows(&lines);
            ensure!(rows.len() == n, "generator: {} rows for {n}", rows.len());
            let mut want: Vec<String> = lines.iter().map(|x| x.to_string()).collect();
            let has = |i: usize| idx.is_empty() || idx.contains(&i);
            let mut touched: Vec<usize> = rows.clone();
            let mut must_fail = false;
            let res = match op {
                0 | 1 => {
                    for (i, &l) in rows.iter().enumerate() { if has(i) {
                        let mut w = parse_row(lines[l]);
                        let s = (cs(&w.f[1]) as u32).saturating_add_signed(so);
                        let e = (cs(&w.f[2]) as u32).saturating_add_signed(eo).max(s.saturating_add(1));
                        w.f[1] = time_str(s); w.f[2] = time_str(e);
                        want[l] = w.line();
                    } }
                    TimingAdjustCommand::new(idx.clone(), so, eo).execute(&mut doc)
                }
                2 => {
                    for (i, &l) in rows.iter().enumerate() { if has(i) {
                        want[l] = if lines[l].starts_with("Dialogue") { lines[l].replacen("Dialogue", "Comment", 1) } else { lines[l].replacen("Comment", "Dialogue", 1) };
                    } }
                    ToggleEventTypeCommand::new(idx.clone()).execute(&mut doc)
                }
                3 => {
                    let k = match a % 4 { 0 => EffectOperation::Set, 1 => EffectOperation::Append, 2 => EffectOperation::Prepend, _ => EffectOperation::Clear };
                    for (i, &l) in rows.iter().enumerate() { if has(i) {
                        let mut w = parse_row(lines[l]);
                        w.effect = match k { EffectOperation::Set => eff.clone(), EffectOperation::Clear => String::new(), EffectOperation::Append if !w.effect.is_empty() => format!("{} {eff}", w.effect), EffectOperation::Prepend if !w.effect.is_empty() => format!("{eff} {}", w.effect), _ => eff.clone() };
                        want[l] = w.line();
                    } }
                    EventEffectCommand::new(idx.clone(), eff.clone(), k).execute(&mut doc)
                }
                4 => {
                    let gone: Vec<usize> = rows.iter().enumerate().filter(|(i, _)| idx.contains(i)).map(|x| *x.1).collect();
                    want = remove(&lines, &gone);
                    touched.clear();
                    BatchDeleteEventsCommand::new(idx.clone()).execute(&mut doc)
                }
                5 => {
                    must_fail = a >= n;
                    if !must_fail { want = remove(&lines, &[rows[a]]); }
                    touched.clear();
                    DeleteEventCommand::new(a).execute(&mut doc)
                }
                6 => {
                    must_fail = a >= b || b >= n;
                    if !must_fail {
                        let (mut x, y) = (parse_row(lines[rows[a]]), parse_row(lines[rows[b]]));
                        x.f[2] = y.f[2].clone();
                        x.text = format!("{}{sep}{}", x.text, y.text);
                        want[rows[a]] = x.line();
                        want.remove(rows[b]);
                        touched = vec![rows[a], rows[b] - 1];
                    }
                    MergeEventsCommand::new(a, b).with_separator(sep.clone()).execute(&mut doc)
                }
                _ => {
                    let mut at = "0:00:00.00".to_string();
                    must_fail = a >= n;
                    if !must_fail {
                        let x = parse_row(lines[rows[a]]);
                        let (s, e) = (cs(&x.f[1]), cs(&x.f[2]));
                        let m = match frac { 0 => s, 1 => e, 2 => e + 1, 3 => (s + e) / 2, _ => s + 1 }.min(u32::MAX as u64);
                        at = t32(m);
                        must_fail = m <= s || m >= e;
                        if !must_fail {
                            let (mut p, mut q) = (x.clone(), x.clone());
                            p.f[2] = at.clone(); q.f[1] = at.clone();
                            want[rows[a]] = p.line();
                            want.insert(rows[a] + 1, q.line());
                            touched = vec![rows[a], rows[a] + 1];
                        }
                    }
                    SplitEventCommand::new(a, at).execute(&mut doc)
                }
            };
            let no_section = !start.contains("[Events]") || !start.split_once("Format: Layer").is_some_and(|x| x.1.contains('\n'));
            if no_section { return Ok(()) }
            ensure!(res.is_err() == must_fail, "command returned {:?}, expected {}", res.as_ref().map(|x| x.success), if must_fail { "an error" } else { "success" });
            if must_fail { ensure!(doc.text() == start, "failing command changed the text"); return Ok(()) }
            same_lines(&doc.text(), &want, &touched)?;
            let t2 = doc.text();
            ensure!(res.unwrap().content_changed == (t2 != start) || t2 == start, "content_changed is false after a change");
            Ok(())
        });
    }
}
fn off(r: &mut Rng) -> i32 { match r.us(5) { 0 => 0, 1 => r.us(300) as i32, 2 => -(r.us(100_000) as i32), 3 => *r.pick(&[i32::MIN, i32::MAX, -1, 1]), _ => r.us(1_000_000) as i32 } }
fn remove(lines: &[&str], gone: &[usize]) -> Vec<String> {
    let mut v: Vec<String> = lines.iter().enumerate().filter(|(i, _)| !gone.contains(i)).map(|x| x.1.to_string()).collect();
    // the last line of the text has no line break of its own
    if gone.contains(&(lines.len() - 1)) { v.push(String::new()) }
    v
}

/// Run some multi-step command; what it was.
pub fn any_command(r: &mut Rng, doc: &mut EditorDocument, n: usize) -> String {
    let idx = some_indices(r, n);
    let t = doc.text();
    let mut a = r.us(t.len() + 1); while !t.is_char_boundary(a) { a -= 1 }
    let mut b = r.us(t.len() + 1); while !t.is_char_boundary(b) { b -= 1 }
    let rg = Range::new(Position::new(a), Position::new(b));
    let (so, eo) = (off(r), off(r));
    let k = r.us(22);
    let res = match k {
        0 => TimingAdjustCommand::new(idx, so, eo).execute(doc),
        1 => ToggleEventTypeCommand::new(idx).execute(doc),
        2 => EventEffectCommand::new(idx, "fx(1,2)".into(), EffectOperation::Append).execute(doc),
        3 | 4 => BatchDeleteEventsCommand::new(idx).execute(doc),
        5 => DeleteEventCommand::new(r.us(n + 1)).execute(doc),
        6 => MergeEventsCommand::new(r.us(n + 1), r.us(n + 1)).execute(doc),
        7 => SplitEventCommand::new(r.us(n + 1), "0:00:10.00".into()).execute(doc),
        8 => GenerateKaraokeCommand::new(rg, 30).execute(doc),
        9 => SplitKaraokeCommand::new(rg, vec![1, 3, 9]).execute(doc),
        10 => AdjustKaraokeCommand::offset(rg, 5).execute(doc),
        11 => ApplyKaraokeCommand::equal(rg, 20, KaraokeType::Fill).execute(doc),
        12 => InsertTagCommand::new(rg.start, "\\b1".into()).execute(doc),
        13 => RemoveTagCommand::new(rg).execute(doc),
        14 => ReplaceTagCommand::new(rg, "\\b1".into(), "\\b0".into()).all().execute(doc),
        15 => WrapTagCommand::new(rg, "\\i1".into()).closing_tag("\\i0".into()).execute(doc),
        16 => CreateStyleCommand::new("New".into(), Default::default()).execute(doc),
        17 => ApplyStyleCommand::new("S0".into(), "S11".into()).execute(doc),
        18 => CloneStyleCommand::new("S0".into(), "S9".into()).execute(doc),
        19 => SetScriptInfoCommand::new("Title".into(), "né".into()).execute(doc),
        20 => BatchCommand::new("two".into()).add_command(Box::new(ToggleEventTypeCommand::new(idx))).add_command(Box::new(InsertTextCommand::new(Position::new(0), "; é\n".into()))).execute(doc),
        _ => doc.add_event_line(&clean_event(r)).map(|_| CommandResult::success()),
    };
    format!("command {k} -> {:?}", res.map(|x| x.success).map_err(|e| e.to_string()))
}

fn visible(s: &str) -> String {
    let (mut o, mut d) = (String::new(), 0);
    for c in s.chars() { match c { '{' => d += 1, '}' if d > 0 => d -= 1, _ if d == 0 => o.push(c), _ => {} } }
    o
}

pub fn karaoke(cx: &mut Cx) {
    for _ in 0..cx.n(2500) {
        let r = &mut cx.rng;
        let plain = r.string(&["a", "e", "ka", "ra", " ", "  ", "é", "界", "oke", "\t", ",", "\u{3000}", "B"], 10);
        let pre = r.string(&["x", "é", " "], 2);
        let post = r.string(&["y", "ü", "{\\k9}"], 2);
        let dur = r.us(500) as u32;
        let kt = match r.us(4) { 0 => KaraokeType::Standard, 1 => KaraokeType::Fill, 2 => KaraokeType::Outline, _ => KaraokeType::Transition };
        let op = r.us(3);
        let cuts: Vec<usize> = (0..r.us(5)).map(|_| r.us(plain.len() + 3)).collect();
        let full = format!("{pre}{plain}{post}");
        let rg = Range::new(Position::new(pre.len()), Position::new(pre.len() + plain.len()));
        let (f0, c0) = (full.clone(), cuts.clone());
        cx.check("adding_karaoke_keeps_the_visible_text", move || format!("text={f0:?} range={rg} op={op} duration={dur} type={kt:?} cuts={c0:?}"), || {
            let mut doc = EditorDocument::from_content(&full).map_err(|e| e.to_string())?;
            let tag = match (op, kt) { (1, _) => "k", (_, KaraokeType::Standard) => "k", (_, KaraokeType::Fill) => "kf", (_, KaraokeType::Outline) => "ko", _ => "kt" };
            match op {
                0 => GenerateKaraokeCommand::new(rg, dur).karaoke_type(kt).execute(&mut doc),
                1 => SplitKaraokeCommand::new(rg, cuts.clone()).duration(dur).execute(&mut doc),
                _ => GenerateKaraokeCommand::new(rg, dur).karaoke_type(kt).manual_syllables().execute(&mut doc),
            }.map_err(|e| e.to_string())?;
            let got = doc.text();
            ensure!(got.starts_with(&pre) && got.ends_with(&post), "text around the range changed: {got:?}");
            let mid = &got[pre.len()..got.len() - post.len()];
            ensure!(visible(mid) == plain, "visible text is {:?}, was {plain:?}", visible(mid));
            let block = format!("{{\\{tag}{dur}}}");
            ensure!(mid.matches('{').count() == mid.matches(&block).count(), "a block other than {block} in {mid:?}");
            if !plain.is_empty() { ensure!(mid.starts_with(&block), "{mid:?} does not begin with {block}"); }
            if op == 1 {
                let mut cut = vec![0]; for &c in &cuts { if c > *cut.last().unwrap() && c < plain.len() && plain.is_char_boundary(c) { cut.push(c) } }
                let want: String = if plain.is_empty() { String::new() } else { cut.iter().enumerate().map(|(i, c)| format!("{block}{}", &plain[*c..*cut.get(i + 1).unwrap_or(&plain.len())])).collect() };
                ensure!(mid == want, "split into {mid:?}, expected {want:?}");
            }
            if op == 2 { ensure!(mid == format!("{block}{plain}"), "manual syllables: {mid:?}"); }
            Ok(())
        });
        // adjusting durations: pieces are literal text or a karaoke tag with its duration
        let r = &mut cx.rng;
        let mut pieces: Vec<(String, Option<u32>)> = vec![];
        for _ in 0..r.us(6) {
            if r.chance(1, 3) { pieces.push((r.string(&["a", "é", " ", "\\k5", "\\N"], 3), None)); continue }
            pieces.push(("{".into(), None));
            for _ in 0..r.us(4) {
                match r.us(7) {
                    0 => pieces.push((r.pick(&["\\b1", "\\fs20", "\\pos(1,2)", "\\fnArial", "\\c&HFF&"]).to_string(), None)),
                    1 => pieces.push((r.pick(&["\\kx", "\\k", "\\kf ", "\\k-5"]).to_string(), None)),
                    2 if pieces.last().is_some_and(|x| x.0 == "{") => pieces.push((r.pick(&["note", " 50 ", "é"]).to_string(), None)),
                    _ => { pieces.push((r.pick(&["\\k", "\\kf", "\\ko", "\\kt", "\\k "]).to_string(), None)); let d = *r.pick(&[0u32, 1, 5, 50, 500, 55, u32::MAX]); pieces.push((String::new(), Some(d))) }
                }
            }
            pieces.push(("}".into(), None));
        }
        // the range may end inside a block
        if r.chance(1, 6) { pieces.push(("{\\b1".into(), None)); if r.chance(1, 2) { pieces.push(("\\kf".into(), None)); pieces.push((String::new(), Some(r.us(200) as u32))) } }
        let how = r.us(4);
        let factor = *r.pick(&[0.0f32, 0.5, 1.5, 2.0, -1.0, 1e9]);
        let delta = *r.pick(&[0i32, 5, -5, -1000, i32::MAX, i32::MIN]);
        let list: Vec<u32> = (0..r.us(5)).map(|_| r.us(900) as u32).collect();
        let src: String = pieces.iter().map(|(s, d)| d.map_or(s.clone(), |d| d.to_string())).collect();
        let (s0, l0) = (src.clone(), list.clone());
        cx.check("adjusting_karaoke_changes_only_durations", move || format!("text={s0:?} how={how} factor={factor} delta={delta} list={l0:?}"), || {
            let mut doc = EditorDocument::from_content(&src).map_err(|e| e.to_string())?;
            let rg = Range::new(Position::new(0), Position::new(src.len()));
            let mut k = 0;
            let want: String = pieces.iter().map(|(s, d)| match d {
                None => s.clone(),
                Some(d) => match how {
                    0 => ((*d as f32 * factor) as u32).max(1),
                    1 => d.saturating_add_signed(delta).max(1),
                    2 => delta.unsigned_abs(),
                    _ => { k += 1; list.get(k - 1).copied().unwrap_or(*d) }
                }.to_string(),
            }).collect();
            match how { 0 => AdjustKaraokeCommand::scale(rg, factor), 1 => AdjustKaraokeCommand::offset(rg, delta), 2 => AdjustKaraokeCommand::set_all(rg, delta.unsigned_abs()), _ => AdjustKaraokeCommand::custom(rg, list.clone()) }.execute(&mut doc).map_err(|e| e.to_string())?;
            ensure!(doc.text() == want, "text is {:?}, expected {want:?}", doc.text());
            Ok(())
        });
    }
}

fn all_events(s: &str) -> Vec<Vec<String>> {
    let Ok(x) = Script::parse(s) else { return vec![] };
    x.sections().iter().filter_map(|s| if let Section::Events(e) = s { Some(e) } else { None }).flatten()
        .map(|e| vec![e.event_type.as_str().into(), e.layer.into(), e.start.into(), e.end.into(), e.style.into(), e.name.into(), e.margin_l.into(), e.margin_r.into(), e.margin_v.into(), e.effect.into(), e.text.into()]).collect()
}

pub fn fields(cx: &mut Cx) {
    for _ in 0..cx.n(1500) {
        let (start, _) = events_doc(&mut cx.rng);
        let r = &mut cx.rng;
        let idx = r.us(7);
        let names = ["layer", "start", "end", "style", "name", "margin_l", "margin_r", "margin_v", "effect", "text"];
        let mut m: Vec<(&'static str, String)> = vec![];
        for _ in 0..r.us(4) {
            let k = r.us(10);
            let v = match k { 0 | 5 | 6 | 7 => r.us(99).to_string(), 1 | 2 => time_str(r.us(900_000) as u32), 3 | 4 => r.pick(&["", "Xé", "A b"]).to_string(), 8 => r.pick(&["", "fx", "Scroll up;1"]).to_string(), _ => text(r, 5).trim().to_string() };
            if !m.iter().any(|x| x.0 == names[k]) { m.push((names[k], v)) }
        }
        let (s0, m0) = (start.clone(), m.clone());
        cx.check("editing_an_event_changes_exactly_its_fields", move || format!("doc={s0:?} index={idx} changes={m0:?}"), || {
            let mut doc = EditorDocument::from_content(&start).map_err(|e| e.to_string())?;
            let mut want = all_events(&start);
            let n = want.len();
            let res = doc.edit_event_by_index(idx, |_| m.clone());
            ensure!(res.is_ok() == (idx < n), "editing event {idx} of {n}: {res:?}");
            if idx >= n { ensure!(doc.text() == start, "refused edit changed the text"); return Ok(()) }
            for (k, v) in &m { let i = names.iter().position(|x| x == k).unwrap(); want[idx][i + 1] = v.clone(); }
            let got = all_events(&doc.text());
            ensure!(got == want, "events are {got:?}, expected {want:?}");
            let (a, b) = (start.split('\n').collect::<Vec<_>>(), doc.text());
            let b: Vec<&str> = b.split('\n').collect();
            ensure!(a.len() == b.len() && a.iter().zip(&b).filter(|(x, y)| x != y).count() <= 1, "other lines changed");
            Ok(())
        });
        let r = &mut cx.rng;
        let key = r.pick(&["Title", "Format", "PlayResX", "Original Title", "Ti"]).to_string();
        let val = r.pick(&["new", "a: b", "Ä [x]", "640", "Title: z"]).to_string();
        let mut info: Vec<(String, String)> = vec![];
        for k in ["Original Title", "Title", "PlayResX", "X"] { if r.chance(2, 3) { info.push((k.into(), r.pick(&["1", "Title: y", "PlayResX", "ü", ""]).to_string())) } }
        let nl = if r.chance(1, 5) { "\r\n" } else { "\n" };
        let sepc = if r.chance(1, 5) { ":" } else { ": " };
        let mut s = format!("[Script Info]{nl}; Title: comment{nl}");
        for (k, v) in &info { s += &format!("{k}{sepc}{v}{nl}"); }
        if r.chance(1, 2) { s += &format!("{nl}[Other]{nl}Title: z{nl}PlayResX: 5{nl}"); }
        let (s0, k0, v0) = (s.clone(), key.clone(), val.clone());
        cx.check("setting_a_script_field_changes_exactly_it", move || format!("doc={s0:?} key={k0:?} value={v0:?}"), || {
            let mut doc = EditorDocument::from_content(&s).map_err(|e| e.to_string())?;
            let old = info.iter().find(|x| x.0 == key).map(|x| x.1.clone());
            let got = doc.get_script_info_field(&key).map_err(|e| e.to_string())?;
            ensure!(got == old, "{key} reads {got:?}, expected {old:?}");
            doc.set_script_info_field(&key, &val).map_err(|e| e.to_string())?;
            let now = doc.get_script_info_field(&key).map_err(|e| e.to_string())?;
            ensure!(now == old.as_ref().map(|_| val.clone()), "{key} reads {now:?} after setting {val:?}");
            let mut want: Vec<String> = s.split('\n').map(Into::into).collect();
            let mut touched = vec![];
            if let Some(i) = info.iter().position(|x| x.0 == key) { want[i + 2] = format!("{key}: {val}"); touched.push(i + 2); }
            same_lines(&doc.text(), &want, &touched)
        });
        let (start, _) = events_doc(&mut cx.rng);
        let r = &mut cx.rng;
        let line = clean_event(r);
        let mut style = format!("Style: N{},Arial", r.us(9));
        let which = r.chance(1, 2);
        let start = if r.chance(1, 6) { "[Script Info]\nTitle: x\n".to_string() } else { start };
        if !start.contains("[V4+ Styles]") { style += ",20,&H00FFFFFF,&H000000FF,&H00000000,&H00000000,0,0,0,0,100,100,0,0,1,2,0,2,10,10,10,1" }
        let s0 = start.clone(); let l0 = line.clone();
        cx.check("adding_a_line_keeps_every_other_line", move || format!("doc={s0:?} line={l0:?} event={which}"), || {
            let mut doc = EditorDocument::from_content(&start).map_err(|e| e.to_string())?;
            let new = if which { doc.add_event_line(&line).map_err(|e| e.to_string())?; &line } else { doc.add_style_line(&style).map_err(|e| e.to_string())?; &style };
            let t = doc.text();
            let a: Vec<&str> = start.split('\n').map(str::trim_end).filter(|x| !x.is_empty()).collect();
            let b: Vec<&str> = t.split('\n').map(str::trim_end).filter(|x| !x.is_empty()).collect();
            let mut it = b.iter();
            for x in &a { ensure!(it.any(|y| y == x), "line {x:?} was lost or moved"); }
            ensure!(b.iter().filter(|x| **x == new.trim_end()).count() == a.iter().filter(|x| **x == new.trim_end()).count() + 1, "the new line is not there exactly once");
            if which {
                let (mut e0, mut e1) = (all_events(&start), all_events(&t));
                ensure!(e1.len() == e0.len() + 1, "{} events became {}", e0.len(), e1.len());
                let one = all_events(&format!("[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n{line}\n"));
                e0.extend(one); e0.sort(); e1.sort();
                ensure!(e0 == e1, "events differ: {e1:?}");
            } else {
                let x = Script::parse(&t).map_err(|e| e.to_string())?;
                let name = &style[7..style.find(',').unwrap()];
                ensure!(x.sections().iter().any(|s| matches!(s, Section::Styles(v) if v.iter().any(|y| y.name == name))), "style {name} not found after adding it");
            }
            Ok(())
        });
    }
}
