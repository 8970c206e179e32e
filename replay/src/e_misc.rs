//! Format conversion, sessions, event channel.
use super::*;
use crate::ensure;
use ass_core::parser::ast::{EventType, Section};
use ass_core::Script;
use ass_editor::events::EventFilter;
use ass_editor::formats::{srt::SrtFormat, webvtt::WebVttFormat, FormatExporter, FormatImporter, FormatOptions};
use ass_editor::utils::formats::{ConversionOptions, FormatConverter, FormatOptions as VttOptions, SubtitleFormat};
use ass_editor::{DocumentEvent, EditorDocument, EditorSessionManager, EventChannel, EventChannelConfig, EventHandler, Position, Range, SessionConfig};
use std::sync::{Arc, Mutex};

type Cue = (u64, u64, Vec<String>);
fn dialogues(s: &str) -> Result<Vec<Cue>, String> {
    let x = Script::parse(s).map_err(|e| e.to_string())?;
    let mut v = vec![];
    for s in x.sections() { if let Section::Events(e) = s { for e in e { if e.event_type == EventType::Dialogue {
        v.push((e.start_time_cs().map_err(|x| format!("{:?}: {x}", e.start))? as u64 * 10, e.end_time_cs().map_err(|x| format!("{:?}: {x}", e.end))? as u64 * 10, e.text.split("\\N").map(String::from).collect()));
    } } } }
    Ok(v)
}
fn stamp(ms: u64, sep: char) -> String { format!("{:02}:{:02}:{:02}{sep}{:03}", ms / 3_600_000, ms / 60_000 % 60, ms / 1000 % 60, ms % 1000) }
fn unstamp(s: &str, sep: char) -> Result<u64, String> {
    let (a, b) = s.split_once(sep).ok_or(format!("bad time {s:?}"))?;
    let v: Vec<&str> = a.split(':').collect();
    ensure!(v.len() == 3 && v.iter().all(|x| x.len() >= 2) && b.len() == 3, "bad time {s:?}");
    let n = |x: &str| x.parse::<u64>().map_err(|_| format!("bad time {s:?}"));
    ensure!(n(v[1])? < 60 && n(v[2])? < 60, "bad time {s:?}");
    Ok(((n(v[0])? * 60 + n(v[1])?) * 60 + n(v[2])?) * 1000 + n(b)?)
}
/// Cues of an SRT or WebVTT text, read strictly.
fn cues(s: &str, vtt: bool, numbered: bool) -> Result<Vec<Cue>, String> {
    let sep = if vtt { '.' } else { ',' };
    let mut blocks: Vec<Vec<&str>> = s.split("\n\n").map(|b| b.split('\n').filter(|l| !l.is_empty()).collect::<Vec<_>>()).filter(|b| !b.is_empty()).collect();
    if vtt { ensure!(!blocks.is_empty() && blocks[0] == ["WEBVTT"], "no WEBVTT header"); blocks.remove(0); }
    let mut v = vec![];
    for (i, b) in blocks.iter().enumerate() {
        let b = if numbered { ensure!(b[0] == (i + 1).to_string(), "cue {} is numbered {:?}", i + 1, b[0]); &b[1..] } else { &b[..] };
        ensure!(!b.is_empty(), "cue without a time");
        let (a, e) = b[0].split_once(" --> ").ok_or(format!("bad time line {:?}", b[0]))?;
        v.push((unstamp(a, sep)?, unstamp(e, sep)?, b[1..].iter().map(|x| x.to_string()).collect()));
    }
    Ok(v)
}
fn line_of_text(r: &mut Rng) -> String {
    let s = r.string(&["word", "é", "界", " ", "1", "12:30", "a,b", "x;y", "...", "-"], 5).trim().to_string();
    if s.is_empty() || s.chars().all(|c| c.is_ascii_digit()) { format!("t{s}") } else { s }
}
/// lines of a cue: only the first may not be taken for a cue number
fn cue_lines(r: &mut Rng) -> Vec<String> {
    let mut v = vec![line_of_text(r)];
    for _ in 0..r.us(3) { v.push(if r.chance(1, 4) { format!("{}", r.below(2000)) } else { line_of_text(r) }) }
    v
}
fn styled(r: &mut Rng, s: &str) -> (String, String, String) {
    let (ass, html) = *r.pick(&[("", ""), ("", ""), ("i", "i"), ("b", "b"), ("u", "u")]);
    if ass.is_empty() { (s.into(), s.into(), s.into()) } else { (format!("{{\\{ass}1}}{s}{{\\{ass}0}}"), format!("<{html}>{s}</{html}>"), s.into()) }
}

pub fn formats(cx: &mut Cx) {
    let opts = FormatOptions::default();
    for _ in 0..cx.n(250) {
        let r = &mut cx.rng;
        let mut doc = String::from("[Script Info]\nTitle: x\n\n[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n");
        let (mut want, mut plain): (Vec<Cue>, Vec<Cue>) = (vec![], vec![]);
        let mut margins: Vec<i64> = vec![];
        for _ in 0..r.us(5) {
            let kind = *r.pick(&["Dialogue", "Dialogue", "Dialogue", "Comment", "Picture"]);
            let a = if r.chance(1, 8) { r.below(36_000_000) } else { r.below(720_000) };
            let b = a + r.below(99_999);
            let (mut t, mut h, mut p) = (vec![], vec![], vec![]);
            for l in cue_lines(r) { let (x, y, z) = styled(r, &l); t.push(x); h.push(y); p.push(z) }
            let junk = *r.pick(&["", "", "{\\pos(1,2)}", "{note}"]);
            let mv = *r.pick(&["0", "0", "10", "0030", "x", "", "-5", "250", "2147483647", "-2147483648", "99999999999"]);
            doc += &format!("{kind}: 0,{},{},S,,0,0,{mv},,{junk}{}\n", time_str(a as u32), time_str(b as u32), t.join("\\N"));
            if kind == "Dialogue" { margins.push(mv.parse::<i32>().map_or(0, i64::from)); want.push((a * 10, b * 10, h)); plain.push((a * 10, b * 10, p)); }
        }
        let d0 = doc.clone();
        cx.check("export_keeps_every_dialogue", move || format!("{d0:?}"), || {
            let d = EditorDocument::from_content(&doc).map_err(|e| e.to_string())?;
            let strip = ConversionOptions { strip_formatting: true, ..Default::default() };
            let keep = ConversionOptions::default();
            let ex = |f, o| FormatConverter::export(&d, f, o).map_err(|e| e.to_string());
            let outs = [
                ("SrtFormat", SrtFormat::new().export_to_string(&d, &opts).map_err(|e| e.to_string())?.0, false, true, &want),
                ("WebVttFormat", WebVttFormat::new().export_to_string(&d, &opts).map_err(|e| e.to_string())?.0, true, true, &want),
                ("converter SRT", ex(SubtitleFormat::SRT, &keep)?, false, true, &want),
                ("converter WebVTT", ex(SubtitleFormat::WebVTT, &keep)?, true, false, &want),
                ("converter SRT, stripped", ex(SubtitleFormat::SRT, &strip)?, false, true, &plain),
                ("converter WebVTT, stripped", ex(SubtitleFormat::WebVTT, &strip)?, true, false, &plain),
            ];
            for (n, o, vtt, num, w) in outs { let c = cues(&o, vtt, num).map_err(|e| format!("{n}: {e} in {o:?}"))?; ensure!(&c == w, "{n}: cues {c:?}, expected {w:?}"); }
            // the same cues, each with the line its vertical margin asks for
            let set = ConversionOptions { format_options: VttOptions::WebVTT { include_style_block: false, include_notes: false, use_cue_settings: true }, ..Default::default() };
            let unset = ConversionOptions { format_options: VttOptions::WebVTT { include_style_block: false, include_notes: false, use_cue_settings: false }, ..Default::default() };
            let mut m = margins.iter();
            let w: Vec<String> = ex(SubtitleFormat::WebVTT, &unset)?.split('\n').map(|l| if l.contains(" --> ") { match m.next() { Some(0) | None => l.to_string(), Some(v) => format!("{l} line:{}", 100 - v) } } else { l.to_string() }).collect();
            let got = ex(SubtitleFormat::WebVTT, &set)?;
            ensure!(got == w.join("\n"), "WebVTT with cue settings {got:?}, expected {:?}", w.join("\n"));
            let p = ex(SubtitleFormat::PlainText, &strip)?;
            let w: String = plain.iter().map(|c| c.2.join("\n") + "\n").collect();
            ensure!(p == w, "plain text {p:?}, expected {w:?}");
            ensure!(ex(SubtitleFormat::ASS, &keep)? == doc, "ASS export is not the document");
            // there and back
            for (n, o, f) in [("SRT", ex(SubtitleFormat::SRT, &keep)?, SubtitleFormat::SRT), ("WebVTT", ex(SubtitleFormat::WebVTT, &keep)?, SubtitleFormat::WebVTT)] {
                let back = dialogues(&FormatConverter::import(&o, Some(f)).map_err(|e| e.to_string())?)?;
                let w: Vec<Cue> = want.iter().map(|c| (c.0, c.1, c.2.iter().map(|x| { let mut y = x.clone(); for t in ["i", "b", "u"] { y = y.replace(&format!("<{t}>"), &format!("{{\\{t}1}}")).replace(&format!("</{t}>"), &format!("{{\\{t}0}}")); } y }).collect())).collect();
                ensure!(back == w, "{n} there and back: {back:?}, expected {w:?}");
            }
            Ok(())
        });
        let r = &mut cx.rng;
        let vtt = r.chance(1, 2);
        let nl = if r.chance(1, 4) { "\r\n" } else { "\n" };
        let sep = if vtt { '.' } else { ',' };
        let mut src = if vtt { format!("WEBVTT{nl}{nl}") } else { String::new() };
        let mut want: Vec<Cue> = vec![];
        for i in 0..r.us(5) {
            let a = if r.chance(1, 6) { r.below(360_000_000) } else { r.below(7_200_000) };
            let b = a + r.below(100_000);
            if !vtt || r.chance(1, 2) { src += &format!("{}{nl}", i + 1); }
            let st = |x: u64| { let s = stamp(x, sep); if vtt && x < 3_600_000 { s[3..].to_string() } else { s } };
            src += &format!("{} --> {}{nl}", st(a), st(b));
            let mut lines = vec![];
            for l in cue_lines(r) { let (x, y, _) = styled(r, &l); src += &y; src += nl; lines.push(x); }
            src += nl;
            if r.chance(1, 6) { src += nl; }
            want.push((a / 10 * 10, b / 10 * 10, lines));
        }
        if r.chance(1, 3) { while src.ends_with(['\n', '\r']) { src.pop(); } }
        let d0 = src.clone();
        cx.check("import_keeps_every_cue", move || format!("{d0:?}"), || {
            let f = if vtt { SubtitleFormat::WebVTT } else { SubtitleFormat::SRT };
            let a = FormatConverter::import(&src, Some(f)).map_err(|e| e.to_string())?;
            let (d, res) = if vtt { WebVttFormat::new().import_from_string(&src, &opts) } else { SrtFormat::new().import_from_string(&src, &opts) }.map_err(|e| e.to_string())?;
            ensure!(dialogues(&a)? == want, "converter: {:?}, expected {want:?}", dialogues(&a)?);
            ensure!(dialogues(&d.text())? == want, "importer: {:?}, expected {want:?}", dialogues(&d.text())?);
            ensure!(res.lines_processed == want.len(), "{} cues reported", res.lines_processed);
            Ok(())
        });
        let r = &mut cx.rng;
        let junk = r.string(&["1", "\n", "\n", "00:00:01,000", " --> ", "00:00:02.000", "WEBVTT", "NOTE", "é", "<i>", "</font>", "<font color=\"#ff0000\">", "-->", ":", ",", ".", "{", "}", "\\N", "00:01.5", "99999999999:00:00,000", "[Events]", "Dialogue: ", "line:1 position:2", "0é:00:00,000"], 14);
        let d0 = junk.clone();
        cx.check("conversion_survives_any_text", move || format!("{d0:?}"), || {
            for f in [None, Some(SubtitleFormat::SRT), Some(SubtitleFormat::WebVTT), Some(SubtitleFormat::PlainText)] { let _ = FormatConverter::import(&junk, f); }
            let _ = SrtFormat::new().import_from_string(&junk, &opts);
            let _ = WebVttFormat::new().import_from_string(&junk, &opts);
            if let Ok(d) = EditorDocument::from_content(&format!("[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\nDialogue: 0,{},0:00:01.00,S,,0,0,0,,{}\n", junk.replace('\n', ""), junk.replace('\n', ""))) {
                for f in [SubtitleFormat::SRT, SubtitleFormat::WebVTT, SubtitleFormat::SSA, SubtitleFormat::PlainText] { let _ = FormatConverter::export(&d, f, &ConversionOptions::default()); }
                let _ = SrtFormat::new().export_to_string(&d, &opts);
                let _ = WebVttFormat::new().export_to_string(&d, &opts);
            }
            Ok(())
        });
    }
}

pub fn sessions(cx: &mut Cx) {
    for _ in 0..cx.n(800) {
        let seed = cx.rng.next();
        let log = std::cell::RefCell::new(String::new());
        cx.check("session_manager_keeps_its_sessions", || format!("seed={seed:#x} ops: {}", log.borrow()), || {
            let mut r = Rng(seed);
            let max = r.us(4);
            let mut m = EditorSessionManager::with_config(SessionConfig { max_sessions: max, ..Default::default() });
            let mut model: std::collections::BTreeMap<String, String> = Default::default();
            let mut active: Option<String> = None;
            for _ in 0..1 + r.us(25) {
                let id = r.pick(&["a", "b", "c", "d", ""]).to_string();
                let op = r.us(6);
                *log.borrow_mut() += &format!("{op}:{id:?} ");
                match op {
                    0 | 1 => {
                        let c = odd(&mut r, 4);
                        let res = if op == 0 { m.create_session(id.clone()) } else { let Ok(d) = EditorDocument::from_content(&c) else { continue }; m.create_session_with_document(id.clone(), d) };
                        let ok = model.contains_key(&id) || model.len() < max;
                        ensure!(res.is_ok() == ok, "creating {id:?} with {} of {max} sessions: {res:?}", model.len());
                        if ok { model.insert(id.clone(), if op == 0 { EditorDocument::new().text() } else { c }); if active.is_none() { active = Some(id) } }
                    }
                    2 => { let res = m.switch_session(&id); ensure!(res.is_ok() == model.contains_key(&id), "switch to {id:?}: {res:?}"); if res.is_ok() { active = Some(id) } }
                    3 => {
                        let res = m.remove_session(&id);
                        let had = model.remove(&id);
                        ensure!(res.is_ok() == had.is_some(), "remove {id:?}");
                        if let (Ok(s), Some(t)) = (res, had) { ensure!(s.document.text() == t && s.id == id, "removed session {:?} with {:?}", s.id, s.document.text()); }
                        if active.as_deref() == Some(id.as_str()) { active = None }
                    }
                    4 => {
                        let res = m.with_document_mut(&id, |d| d.insert(Position::new(0), "x"));
                        ensure!(res.is_ok() == model.contains_key(&id), "edit {id:?}");
                        if let Some(t) = model.get_mut(&id) { t.insert(0, 'x') }
                    }
                    _ => { let res = m.with_document_mut(&id, |d| d.insert(Position::new(1 << 30), "x")); ensure!(res.is_err(), "impossible edit accepted") }
                }
                let mut l = m.list_sessions().map_err(|e| e.to_string())?;
                l.sort();
                ensure!(l == model.keys().cloned().collect::<Vec<_>>(), "sessions are {l:?}, expected {:?}", model.keys());
                ensure!(m.active_session().map_err(|e| e.to_string())? == active, "active session is {:?}, expected {active:?}", m.active_session());
                ensure!(m.stats().active_sessions == model.len(), "{} sessions counted, {} exist", m.stats().active_sessions, model.len());
                ensure!(l.len() <= max, "limit exceeded");
                for k in ["a", "b", "c", "d", ""] { match (m.with_document(k, |d| Ok(d.text())), model.get(k)) { (Ok(t), Some(w)) => ensure!(&t == w, "session {k:?} holds {t:?}, expected {w:?}"), (Err(_), None) => {} (x, y) => return Err(format!("session {k:?}: {x:?}, expected {y:?}")) } }
            }
            Ok(())
        });
    }
}

struct H { tag: usize, filter: EventFilter, prio: i32, log: Arc<Mutex<Vec<(usize, String)>>> }
impl EventHandler for H {
    fn handle_event(&mut self, e: &DocumentEvent) -> Result<(), ass_editor::EditorError> { self.log.lock().unwrap().push((self.tag, e.description())); Ok(()) }
    fn event_filter(&self) -> EventFilter { self.filter.clone() }
    fn priority(&self) -> i32 { self.prio }
}
/// An event, its type name, whether it modifies the document, whether it concerns the cursor.
fn event(r: &mut Rng) -> (DocumentEvent, String, bool, bool) {
    let p = Position::new(r.us(9));
    let g = Range::new(p, Position::new(r.us(9)));
    let s = || "s".to_string();
    match r.us(15) {
        0 => (DocumentEvent::TextInserted { position: p, text: s(), length: 1 }, "TextInserted".into(), true, false),
        1 => (DocumentEvent::TextDeleted { range: g, deleted_text: s() }, "TextDeleted".into(), true, false),
        2 => (DocumentEvent::TextReplaced { range: g, old_text: s(), new_text: s() }, "TextReplaced".into(), true, false),
        3 => (DocumentEvent::SelectionChanged { old_selection: None, new_selection: Some(g) }, "SelectionChanged".into(), false, true),
        4 => (DocumentEvent::CursorMoved { old_position: p, new_position: p }, "CursorMoved".into(), false, true),
        5 => (DocumentEvent::DocumentSaved { file_path: s(), save_as: true }, "DocumentSaved".into(), false, false),
        6 => (DocumentEvent::DocumentLoaded { file_path: s(), size: 3 }, "DocumentLoaded".into(), false, false),
        7 => (DocumentEvent::UndoPerformed { action_description: s(), changes_count: 1 }, "UndoPerformed".into(), true, false),
        8 => (DocumentEvent::RedoPerformed { action_description: s(), changes_count: 1 }, "RedoPerformed".into(), true, false),
        9 => (DocumentEvent::ValidationCompleted { issues_count: 1, error_count: 0, warning_count: 1, validation_time_ms: 2 }, "ValidationCompleted".into(), false, false),
        10 => (DocumentEvent::SearchCompleted { pattern: s(), matches_count: 1, hit_limit: false, search_time_us: 1 }, "SearchCompleted".into(), false, false),
        11 => (DocumentEvent::ParsingCompleted { success: true, sections_count: 1, parse_time_ms: 1, error_message: None }, "ParsingCompleted".into(), false, false),
        12 => (DocumentEvent::ExtensionChanged { extension_name: s(), loaded: true }, "ExtensionChanged".into(), false, false),
        13 => (DocumentEvent::ConfigChanged { key: s(), old_value: None, new_value: s() }, "ConfigChanged".into(), false, false),
        _ => { let n = r.pick(&["Mine", "CursorMoved", ""]).to_string(); (DocumentEvent::CustomEvent { event_type: n.clone(), data: Default::default() }, n, false, false) }
    }
}
const NAMES: &[&str] = &["TextInserted", "TextDeleted", "TextReplaced", "CursorMoved", "SelectionChanged", "UndoPerformed", "ConfigChanged", "Mine", "DocumentLoaded"];
#[derive(Clone, Debug, Default)]
struct F { inc: Vec<String>, exc: Vec<String>, mods: Option<bool>, cur: Option<bool> }
fn filter(r: &mut Rng) -> (EventFilter, F) {
    let pick = |r: &mut Rng| -> Vec<String> { if r.chance(1, 2) { vec![] } else { (0..1 + r.us(4)).map(|_| r.pick(NAMES).to_string()).collect() } };
    let f = F { inc: pick(r), exc: pick(r), mods: if r.chance(1, 2) { None } else { Some(r.chance(1, 2)) }, cur: if r.chance(1, 2) { None } else { Some(r.chance(1, 2)) } };
    let mut e = EventFilter::new().include_types(f.inc.clone()).exclude_types(f.exc.clone());
    if let Some(m) = f.mods { e = e.include_modifications(m) }
    if let Some(m) = f.cur { e = e.include_cursor_events(m) }
    (e, f)
}
fn passes(f: &F, name: &str, modif: bool, cur: bool) -> bool {
    !f.exc.iter().any(|x| x == name) && (f.inc.is_empty() || f.inc.iter().any(|x| x == name)) && f.mods.is_none_or(|m| m == modif) && f.cur.is_none_or(|c| c == cur)
}

pub fn channel(cx: &mut Cx) {
    for _ in 0..cx.n(3000) {
        let (e, n, m, c) = event(&mut cx.rng);
        let (f, d) = filter(&mut cx.rng);
        let (e0, d0) = (e.clone(), d.clone());
        cx.check("filter_accepts_what_it_says", move || format!("event={e0:?} filter={d0:?}"), || {
            ensure!(f.matches(&e) == passes(&d, &n, m, c), "filter says {}", f.matches(&e));
            ensure!(e.is_modification() == m, "is_modification is {}", e.is_modification());
            Ok(())
        });
    }
    for _ in 0..cx.n(800) {
        let seed = cx.rng.next();
        cx.check("channel_delivers_in_priority_order", || format!("seed={seed:#x}"), || {
            let mut r = Rng(seed);
            let max = r.us(6);
            let mut ch = EventChannel::with_config(EventChannelConfig { max_handlers: max, enable_batching: r.chance(1, 2), max_batch_size: r.us(3), ..Default::default() });
            let log = Arc::new(Mutex::new(vec![]));
            // registered handlers: (id, tag, priority, filter), in the order of registration
            let mut hs: Vec<(usize, usize, i32, F)> = vec![];
            let (mut tag, mut sent, mut dropped) = (0, 0usize, 0usize);
            let mut ids = vec![];
            for _ in 0..1 + r.us(20) {
                match r.us(8) {
                    0..=2 => {
                        let (f, d) = filter(&mut r);
                        let prio = *r.pick(&[0, 0, 1, -1, i32::MIN, i32::MAX]);
                        tag += 1;
                        let res = ch.register_handler(Box::new(H { tag, filter: f, prio, log: log.clone() }));
                        ensure!(res.is_ok() == (hs.len() < max), "registering handler {} of {max}", hs.len() + 1);
                        if let Ok(id) = res { ensure!(!ids.contains(&id), "handler id {id} used twice"); ids.push(id); hs.push((id, tag, prio, d)); }
                    }
                    3 => { let id = if r.chance(1, 3) { r.us(30) } else { hs.get(r.us(4)).map_or(99, |x| x.0) }; let res = ch.unregister_handler(id).map_err(|e| e.to_string())?; ensure!(res == hs.iter().any(|x| x.0 == id), "unregister {id} says {res}"); hs.retain(|x| x.0 != id); }
                    4 if r.chance(1, 4) => { ch.clear_handlers().map_err(|e| e.to_string())?; hs.clear(); }
                    _ => {
                        let k = if r.chance(1, 3) { r.us(4) } else { 1 };
                        let es: Vec<_> = (0..k).map(|_| event(&mut r)).collect();
                        log.lock().unwrap().clear();
                        let mut want = vec![];
                        let mut order = hs.clone();
                        order.sort_by_key(|x| std::cmp::Reverse(x.2));
                        for e in &es { for h in &order { if passes(&h.3, &e.1, e.2, e.3) { want.push((h.1, e.0.description())) } else { dropped += 1 } } }
                        sent += k;
                        if k == 1 { ch.dispatch(es[0].0.clone()).map_err(|e| e.to_string())? } else { ch.dispatch_batch(es.iter().map(|e| e.0.clone()).collect()).map_err(|e| e.to_string())? }
                        ensure!(*log.lock().unwrap() == want, "delivered {:?}, expected {want:?}", log.lock().unwrap());
                    }
                }
                let s = ch.stats();
                ensure!(s.handlers_count == hs.len() && s.events_dispatched == sent && s.events_filtered == dropped, "stats {s:?}, expected {} handlers, {sent} sent, {dropped} filtered", hs.len());
            }
            Ok(())
        });
    }
}
