//! Document editing, history, positions, ranges and search.
use super::*;
use crate::ensure;
use ass_editor::commands::{EditorCommand, InsertTextCommand, DeleteTextCommand, ReplaceTextCommand};
use ass_editor::core::position::LineColumn;
use ass_editor::utils::search::{create_search, SearchOptions, SearchScope};
use ass_editor::core::history::{HistoryEntry, UndoStack};
use ass_editor::{EditorDocument, Position, PositionBuilder, Range, Selection, UndoStackConfig};

pub fn bound(r: &mut Rng, s: &str) -> usize {
    let mut i = r.us(s.len() + 1);
    while !s.is_char_boundary(i) { i -= 1 }
    i
}
fn any_pos(r: &mut Rng, s: &str) -> usize {
    if r.chance(1, 12) { r.us(s.len() + 4) } else { bound(r, s) }
}

fn base(r: &mut Rng) -> String {
    match r.us(4) { 0 => String::new(), 1 => odd(r, 12), 2 => events_doc(r).0, _ => script(r, Opt::default()) }
}

struct Model { text: String, undo: Vec<String>, redo: Vec<String>, cap: usize }
impl Model {
    fn did(&mut self, after: String) { self.undo.push(std::mem::replace(&mut self.text, after)); self.redo.clear(); self.trim() }
    fn trim(&mut self) { while self.undo.len() > self.cap { self.undo.remove(0); } }
}

pub fn history(cx: &mut Cx) {
    for _ in 0..cx.n(1400) {
        let start = base(&mut cx.rng);
        let steps = 1 + cx.rng.us(24);
        let seed = cx.rng.next();
        let cap = *cx.rng.pick(&[50usize, 50, 50, 3, 1, 0]);
        let mem = *cx.rng.pick(&[10usize << 20, 10 << 20, 10 << 20, 2000, 600]);
        let small = mem < 10 << 20;
        let s0 = start.clone();
        let log = std::cell::RefCell::new(String::new());
        cx.check("undo_redo_are_exact_inverses", || format!("start={s0:?} cap={cap} mem={mem} seed={seed:#x} steps={steps} ops: {}", log.borrow()), || {
            let mut r = Rng(seed);
            let Ok(mut doc) = EditorDocument::from_content(&start) else { return Ok(()) };
            doc.undo_manager_mut().set_config(UndoStackConfig { max_entries: cap, max_memory: mem, ..Default::default() });
            let mut m = Model { text: start.clone(), undo: vec![], redo: vec![], cap };
            for _ in 0..steps {
                let (before_mem, before_redo) = (doc.undo_manager().stats().memory_usage, doc.undo_manager().stats().redo_count);
                let t = m.text.clone();
                let (a, b) = (any_pos(&mut r, &t), any_pos(&mut r, &t));
                let rg = Range::new(Position::new(a), Position::new(b));
                let ok = rg.end.offset <= t.len() && t.is_char_boundary(rg.start.offset) && t.is_char_boundary(rg.end.offset);
                let ok1 = a <= t.len() && t.is_char_boundary(a);
                let new = if r.chance(1, 10) { odd(&mut r, 60) } else { odd(&mut r, 4) };
                let splice = |s: usize, e: usize, x: &str| format!("{}{}{}", &t[..s], x, &t[e..]);
                let op = r.us(14);
                *log.borrow_mut() += &format!("{op}:{a},{b},{new:?}; ");
                let mut atomic = true;
                let (done, want): (bool, Option<String>) = match op {
                    0 => (doc.insert(Position::new(a), &new).is_ok(), ok1.then(|| splice(a, a, &new))),
                    1 => (doc.delete(rg).is_ok(), ok.then(|| splice(rg.start.offset, rg.end.offset, ""))),
                    2 => (doc.replace(rg, &new).is_ok(), ok.then(|| splice(rg.start.offset, rg.end.offset, &new))),
                    3 => (InsertTextCommand::new(Position::new(a), new.clone()).execute(&mut doc).is_ok(), ok1.then(|| splice(a, a, &new))),
                    4 => (DeleteTextCommand::new(rg).execute(&mut doc).is_ok(), ok.then(|| splice(rg.start.offset, rg.end.offset, ""))),
                    5 => (doc.execute_command(&ReplaceTextCommand::new(rg, new.clone())).is_ok(), ok.then(|| splice(rg.start.offset, rg.end.offset, &new))),
                    6 => (doc.edit_incremental(rg, &new).is_ok(), ok.then(|| splice(rg.start.offset, rg.end.offset, &new))),
                    7 => (doc.insert_incremental(Position::new(a), &new).is_ok(), ok1.then(|| splice(a, a, &new))),
                    8 => (doc.edit_safe(rg, &new).is_ok(), ok.then(|| splice(rg.start.offset, rg.end.offset, &new))),
                    9 => { let x = if r.chance(1, 2) { doc.add_event_line(&event_line(&mut r)).is_ok() } else { doc.set_script_info_field("Title", &format!("{}{}", new.replace(['\n', '\r'], ""), log.borrow().len())).is_ok() }; atomic = false; (x, None) }
                    10 | 11 => {
                        let cur0 = doc.undo_manager().cursor_position();
                        let res = doc.undo();
                        ensure!(res.is_ok() == !m.undo.is_empty(), "undo with {} recorded edits: {:?}", m.undo.len(), res.is_ok());
                        match m.undo.pop() {
                            Some(p) => { m.redo.push(std::mem::replace(&mut m.text, p)); ensure!(doc.undo_manager().stats().memory_usage == before_mem, "undo changed the accounted memory"); }
                            None => ensure!(doc.undo_manager().cursor_position() == cur0, "failed undo moved the cursor"),
                        }
                        ensure!(doc.text() == m.text, "after undo the text is {:?}, expected {:?}", doc.text(), m.text);
                        continue;
                    }
                    _ => {
                        let res = doc.redo();
                        ensure!(res.is_ok() == !m.redo.is_empty(), "redo with {} undone edits: {:?}", m.redo.len(), res.is_ok());
                        if let Some(p) = m.redo.pop() { m.undo.push(std::mem::replace(&mut m.text, p)); ensure!(doc.undo_manager().stats().memory_usage == before_mem, "redo changed the accounted memory"); }
                        ensure!(doc.text() == m.text, "after redo the text is {:?}, expected {:?}", doc.text(), m.text);
                        continue;
                    }
                };
                let st = doc.undo_manager().stats();
                if atomic {
                    ensure!(done == want.is_some(), "edit accepted={done}, its range is valid={}", want.is_some());
                    match want {
                        // a command that leaves the text as it was is not recorded
                        Some(w) if op == 5 && w == t => { ensure!(doc.text() == w, "after the edit the text is {:?}, expected {w:?}", doc.text()); ensure!(st.redo_count == before_redo && st.memory_usage == before_mem, "a command that changed nothing changed the history") }
                        Some(w) => { ensure!(doc.text() == w, "after the edit the text is {:?}, expected {w:?}", doc.text()); ensure!(doc.is_modified(), "document not marked modified"); m.did(w); ensure!(st.redo_count == 0, "edit left {} entries to redo", st.redo_count) }
                        None => { ensure!(doc.text() == t, "a refused edit changed the text"); ensure!(st.redo_count == before_redo && st.memory_usage == before_mem, "a refused edit changed the history") }
                    }
                } else if doc.text() != t { m.did(doc.text()); }
                else { ensure!(st.redo_count == before_redo && st.memory_usage == before_mem, "a command that changed nothing changed the history") }
                if small { while m.undo.len() > st.undo_count { m.undo.remove(0); } }
                ensure!(st.undo_count == m.undo.len(), "{} entries to undo, expected {}", st.undo_count, m.undo.len());
                ensure!(st.undo_count <= cap && (st.memory_usage <= mem || st.undo_count == 0), "history exceeds its limits: {} entries, {} bytes", st.undo_count, st.memory_usage);
                ensure!(doc.can_undo() == (st.undo_count > 0) && doc.can_redo() == (st.redo_count > 0), "can_undo/can_redo disagree with the counts");
            }
            // walk back and forth
            let mut back = vec![m.text.clone()];
            while let Some(p) = m.undo.pop() { ensure!(doc.undo().is_ok(), "undo refused"); ensure!(doc.text() == p, "walking back: {:?}, expected {p:?}", doc.text()); back.push(p); }
            ensure!(doc.undo().is_err(), "more to undo than was recorded");
            back.pop();
            while let Some(p) = back.pop() { ensure!(doc.redo().is_ok(), "redo refused"); ensure!(doc.text() == p, "walking forward: {:?}, expected {p:?}", doc.text()); }
            doc.undo_manager_mut().clear();
            let st = doc.undo_manager().stats();
            ensure!(st.memory_usage == 0 && st.undo_count == 0 && st.redo_count == 0, "cleared history keeps {} bytes", st.memory_usage);
            Ok(())
        });
    }
    // the stacks against lists: what is kept is the newest entries within both limits, and what they hold is what is counted
    for _ in 0..cx.n(800) {
        let seed = cx.rng.next();
        let cap = *cx.rng.pick(&[50usize, 3, 1, 0]);
        let mem = *cx.rng.pick(&[1_000_000usize, 3000, 1000, 0]);
        let log = std::cell::RefCell::new(String::new());
        cx.check("history_keeps_the_newest_edits_within_its_limits", || format!("max_entries={cap} max_memory={mem} seed={seed:#x} ops: {}", log.borrow()), || {
            use ass_editor::commands::CommandResult;
            use ass_editor::core::history::Operation;
            let mut r = Rng(seed);
            let mut st = UndoStack::with_config(UndoStackConfig { max_entries: cap, max_memory: mem, ..Default::default() });
            // newest last
            let (mut undo, mut redo): (Vec<(String, usize)>, Vec<(String, usize)>) = (vec![], vec![]);
            for k in 0..1 + r.us(30) {
                let op = r.us(6);
                *log.borrow_mut() += &format!("{op} ");
                match op {
                    0..=2 => {
                        let name = format!("edit {k}");
                        let text = "y".repeat(*r.pick(&[0, 1, 100, 400, 900]));
                        let o = if r.chance(1, 2) { Operation::Insert { position: Position::new(0), text } } else { Operation::Replace { range: Range::new(Position::new(0), Position::new(1)), old_text: "é".into(), new_text: text } };
                        let size = o.memory_usage() + name.len();
                        let e = HistoryEntry::new(o, name.clone(), &CommandResult::success(), None);
                        ensure!(e.memory_usage == size, "an entry of {size} bytes is counted as {}", e.memory_usage);
                        st.push(e);
                        redo.clear(); undo.push((name, size));
                        while undo.len() > cap || mem > 0 && undo.iter().map(|e| e.1).sum::<usize>() > mem { undo.remove(0); }
                    }
                    3 | 4 => {
                        let e = st.pop_undo();
                        ensure!(e.as_ref().map(|e| e.description.clone()) == undo.last().map(|e| e.0.clone()), "the entry to undo is {:?}, expected {:?}", e.map(|e| e.description), undo.last());
                        if let Some(e) = e { st.push_redo(e); redo.push(undo.pop().unwrap()) }
                    }
                    _ => {
                        let e = st.pop_redo();
                        ensure!(e.as_ref().map(|e| e.description.clone()) == redo.last().map(|e| e.0.clone()), "the entry to redo is {:?}, expected {:?}", e.map(|e| e.description), redo.last());
                        if let Some(e) = e { st.push_redone(e); undo.push(redo.pop().unwrap()) }
                    }
                }
                ensure!((st.undo_count(), st.redo_count()) == (undo.len(), redo.len()), "{} entries to undo and {} to redo, expected {} and {}", st.undo_count(), st.redo_count(), undo.len(), redo.len());
                let held: usize = undo.iter().chain(&redo).map(|e| e.1).sum();
                ensure!(st.memory_usage() == held, "{} bytes are counted, the entries hold {held}", st.memory_usage());
                ensure!(st.next_undo_description() == undo.last().map(|e| &e.0[..]) && st.next_redo_description() == redo.last().map(|e| &e.0[..]), "descriptions {:?}, {:?}", st.next_undo_description(), st.next_redo_description());
            }
            st.clear();
            ensure!(st.memory_usage() == 0 && st.undo_count() == 0 && st.redo_count() == 0, "the cleared history keeps {} bytes", st.memory_usage());
            Ok(())
        });
    }
    // cursor restored by undo and redo
    for _ in 0..cx.n(300) {
        let start = base(&mut cx.rng);
        let seed = cx.rng.next();
        let s0 = start.clone();
        cx.check("undo_restores_the_cursor", || format!("start={s0:?} seed={seed:#x}"), || {
            let mut r = Rng(seed);
            let Ok(mut doc) = EditorDocument::from_content(&start) else { return Ok(()) };
            let mut cur = vec![];
            for _ in 0..1 + r.us(6) {
                let t = doc.text();
                let c = Position::new(bound(&mut r, &t));
                doc.set_cursor_position(Some(c));
                let a = Position::new(bound(&mut r, &t));
                let b = Position::new(bound(&mut r, &t));
                match r.us(3) { 0 => doc.insert(a, "xé").map_err(|e| e.to_string())?, 1 => doc.delete(Range::new(a, b)).map_err(|e| e.to_string())?, _ => doc.replace(Range::new(a, b), "yy").map_err(|e| e.to_string())? }
                cur.push((c, doc.cursor_position()));
            }
            for (before, _) in cur.iter().rev() { let x = doc.undo().map_err(|e| e.to_string())?; ensure!(x.new_cursor == Some(*before) && doc.cursor_position() == Some(*before), "undo put the cursor at {:?}, expected {before:?}", doc.cursor_position()); }
            for (_, after) in &cur { let x = doc.redo().map_err(|e| e.to_string())?; ensure!(x.new_cursor == *after && doc.cursor_position() == *after, "redo put the cursor at {:?}, expected {after:?}", doc.cursor_position()); }
            Ok(())
        });
    }
    // multi-step commands can be undone completely
    for _ in 0..cx.n(500) {
        let (start, n) = events_doc(&mut cx.rng);
        let seed = cx.rng.next();
        let s0 = start.clone();
        cx.check("commands_are_undone_completely", || format!("start={s0:?} seed={seed:#x}"), || {
            let mut r = Rng(seed);
            let mut doc = EditorDocument::from_content(&start).map_err(|e| e.to_string())?;
            let what = super::e_events::any_command(&mut r, &mut doc, n);
            let was = doc.undo_manager().stats().undo_count;
            let before = doc.text();
            let shared = ass_editor::core::SyncDocument::new(doc);
            let rg = Range::new(Position::new(any_pos(&mut r, &before)), Position::new(any_pos(&mut r, &before)));
            let two = ass_editor::commands::BatchCommand::new("two".into()).add_command(Box::new(InsertTextCommand::new(Position::new(0), "; é\n".into()))).add_command(Box::new(ReplaceTextCommand::new(rg, "x".into())));
            let ran = shared.execute_command(two).is_ok_and(|x| x.success);
            let mut doc = shared.write().map_err(|e| e.to_string())?;
            let steps = doc.undo_manager().stats().undo_count;
            ensure!(ran || doc.text() == before, "{what}: a failed shared command left {:?}, before {before:?}", doc.text());
            ensure!(steps == was + (doc.text() != before && was < 50) as usize || was >= 50, "{what}: a shared command took {} steps", steps - was);
            let after = doc.text();
            let mut k = 0;
            while doc.can_undo() { doc.undo().map_err(|e| format!("{what}: undo: {e}"))?; k += 1; ensure!(k < 200, "endless undo"); }
            ensure!(doc.text() == start, "{what}: after {k} undos the text is {:?}", doc.text());
            for _ in 0..k { doc.redo().map_err(|e| format!("{what}: redo: {e}"))?; }
            ensure!(doc.text() == after, "{what}: after redo the text is {:?}, expected {after:?}", doc.text());
            Ok(())
        });
    }
}

/// Lines as the rope counts them: LF, CR, CR LF, VT, FF, NEL, LS, PS.
fn line_starts(s: &str) -> Vec<usize> {
    let mut v = vec![0];
    let mut it = s.char_indices().peekable();
    while let Some((i, c)) = it.next() {
        if matches!(c, '\n' | '\u{b}' | '\u{c}' | '\u{85}' | '\u{2028}' | '\u{2029}') || c == '\r' && it.peek().map(|x| x.1) != Some('\n') { v.push(i + c.len_utf8()) }
    }
    v
}

pub fn positions(cx: &mut Cx) {
    for _ in 0..cx.n(1500) {
        let s = if cx.rng.chance(1, 2) { cx.rng.string(&["a", "é", "界", "🎬", "\n", "\r\n", "\r", "\u{2028}", "\u{85}", "\u{b}", "", " "], 14) } else { base(&mut cx.rng) };
        let i0 = s.clone();
        cx.check("offset_and_line_column_agree", || format!("{i0:?}"), || {
            let Ok(doc) = EditorDocument::from_content(&s) else { return Ok(()) };
            let ls = line_starts(&s);
            ensure!(doc.len_lines() == ls.len(), "{} lines, expected {}", doc.len_lines(), ls.len());
            ensure!(doc.len_bytes() == s.len() && doc.text() == s, "text differs from its source");
            let step = 1 + s.len() / 60;
            let mut p = 0;
            while p <= s.len() {
                if s.is_char_boundary(p) {
                    let li = ls.iter().rposition(|x| *x <= p).unwrap();
                    let col = s[ls[li]..p].chars().count() + 1;
                    let lc = doc.position_to_line_column(Position::new(p)).map_err(|e| e.to_string())?;
                    ensure!(lc.line == li + 1 && lc.column == col, "offset {p} is reported as {lc}, really {}:{col}", li + 1);
                    let back = PositionBuilder::new().line(lc.line).column(lc.column).build(doc.rope()).map_err(|e| e.to_string())?;
                    ensure!(back.offset == p, "{lc} built to {} instead of {p}", back.offset);
                }
                p += step;
            }
            ensure!(doc.position_to_line_column(Position::new(s.len() + 1)).is_err(), "offset past the end accepted");
            for (i, a) in ls.iter().enumerate() {
                let e = ls.get(i + 1).copied().unwrap_or(s.len());
                let body = &s[*a..e];
                let end = if i + 1 < ls.len() { let x = body.strip_suffix("\r\n").unwrap_or_else(|| { let mut c = body.chars(); c.next_back(); c.as_str() }); a + x.len() } else { e };
                let got = PositionBuilder::new().at_line_end(i + 1).build(doc.rope()).map_err(|e| e.to_string())?;
                ensure!(got.offset == end, "end of line {} is {} instead of {end}", i + 1, got.offset);
                let st = PositionBuilder::new().at_line_start(i + 1).build(doc.rope()).map_err(|e| e.to_string())?;
                ensure!(st.offset == *a, "start of line {} is {}", i + 1, st.offset);
                let n = body.chars().count();
                for c in [n + 1, n + 2, n + 3, usize::MAX] {
                    let g = PositionBuilder::new().line(i + 1).column(c).build(doc.rope());
                    ensure!(g.is_ok() == (c == n + 1), "column {c} of a line of {n} characters: {g:?}");
                    if let Ok(g) = g { ensure!(g.offset == e, "column {c} built to {}", g.offset) }
                }
                ensure!(PositionBuilder::new().line(i + 1).column(0).build(doc.rope()).is_err(), "column 0 accepted");
            }
            ensure!(PositionBuilder::new().at_line_end(0).build(doc.rope()).is_err() && PositionBuilder::new().at_line_start(0).build(doc.rope()).is_err(), "line 0 accepted");
            ensure!(PositionBuilder::new().line(ls.len() + 1).column(1).build(doc.rope()).is_err(), "line past the end accepted");
            ensure!(PositionBuilder::new().offset(s.len()).build(doc.rope()).is_ok() && PositionBuilder::new().offset(s.len() + 1).build(doc.rope()).is_err(), "offset bound");
            Ok(())
        });
    }
    cx.check("line_column_is_one_based", || "0..4".into(), || {
        for l in 0..4 { for c in 0..4 { ensure!(LineColumn::new(l, c).is_ok() == (l > 0 && c > 0), "LineColumn::new({l},{c})"); } }
        Ok(())
    });
}

pub fn ranges(cx: &mut Cx) {
    let pts: Vec<usize> = vec![0, 1, 2, 3, 4, 5, usize::MAX - 1, usize::MAX];
    let p = Position::new;
    for &a in &pts { for &b in &pts {
        cx.check("range_of_two_points", || format!("{a},{b}"), || {
            let g = Range::new(p(a), p(b));
            ensure!(g.start.offset == a.min(b) && g.end.offset == a.max(b), "Range::new({a},{b}) = {g}");
            ensure!(g.len() == a.max(b) - a.min(b) && g.is_empty() == (a == b), "length {}", g.len());
            let s = Selection::new(p(a), p(b));
            ensure!(s.range() == g && s.is_reversed() == (b < a) && s.is_empty() == (a == b), "selection of {a},{b}");
            ensure!(p(a).advance(b).offset == a.saturating_add(b) && p(a).retreat(b).offset == a.saturating_sub(b), "advance/retreat");
            for &x in &pts { ensure!(g.contains(p(x)) == (x >= g.start.offset && x < g.end.offset), "{g} contains {x}");
                let e = g.extend_to(p(x)); ensure!(e.start.offset == g.start.offset.min(x) && e.end.offset == g.end.offset.max(x), "extend");
                let s2 = s.extend_to(p(x)); ensure!(s2.anchor == p(a) && s2.cursor == p(x), "selection extend"); }
            Ok(())
        });
        for &c in &pts { for &d in &pts {
            cx.check("range_algebra", || format!("{a},{b} {c},{d}"), || {
                let (x, y) = (Range::new(p(a), p(b)), Range::new(p(c), p(d)));
                let common = pts.iter().any(|q| x.contains(p(*q)) && y.contains(p(*q)));
                ensure!(x.overlaps(&y) == y.overlaps(&x), "overlaps is not symmetric");
                if !x.is_empty() && !y.is_empty() { ensure!(x.overlaps(&y) == common, "overlaps({x},{y}) = {}", x.overlaps(&y)); }
                let u = x.union(&y);
                ensure!(u.start.offset == x.start.offset.min(y.start.offset) && u.end.offset == x.end.offset.max(y.end.offset), "union {u}");
                match x.intersection(&y) { Some(i) => for &q in &pts { ensure!(i.contains(p(q)) == (x.contains(p(q)) && y.contains(p(q))), "intersection {i} at {q}"); }, None => ensure!(!common, "no intersection of {x} and {y}") }
                ensure!(x.intersection(&y) == y.intersection(&x) && x.union(&y) == y.union(&x), "not symmetric");
                Ok(())
            });
        } }
    } }
    cx.exhaustive("range_of_two_points");
    cx.exhaustive("range_algebra");
}

fn word(c: char) -> bool { c.is_alphanumeric() || c == '_' }
fn fold(s: &str, cs: bool) -> Vec<char> { if cs { s.chars().collect() } else { s.chars().flat_map(char::to_lowercase).collect() } }
/// All matches, leftmost first, without overlap, straight from the definition.
fn oracle(t: &str, pat: &str, cs: bool, ww: bool, scopes: &[(usize, usize)], max: usize) -> Vec<(usize, usize)> {
    let f = fold(pat, cs);
    let mut out = vec![];
    if f.is_empty() { return out }
    for &(s, e) in scopes {
        let mut at = s;
        'o: while at < e {
            if !t.is_char_boundary(at) { at += 1; continue }
            for len in 1..=e - at {
                if t.is_char_boundary(at + len) && fold(&t[at..at + len], cs) == f {
                    if !ww || (!t[..at].chars().next_back().is_some_and(word) && !t[at + len..].chars().next().is_some_and(word)) {
                        out.push((at, at + len));
                        if max > 0 && out.len() >= max { return out }
                        at += len;
                        continue 'o;
                    }
                    break;
                }
                if len > pat.len() * 3 + 12 { break }
            }
            at += 1;
        }
    }
    out
}

pub fn search(cx: &mut Cx) {
    for _ in 0..cx.n(3000) {
        let r = &mut cx.rng;
        let alpha: &[&str] = &["a", "A", "aa", "b", "_", " ", "é", "É", "İ", "ß", "\n", "\r\n", "[Events]", "[S x]", ",", ".", "\n[S x]\n", "x9", "ſ", "K", "k"];
        let t = if r.chance(1, 8) { events_doc(r).0 } else { r.string(alpha, 14) };
        let pat = if r.chance(1, 2) && !t.is_empty() { let (a, b) = (bound(r, &t), bound(r, &t)); let (a, b) = (a.min(b), a.max(b)); t[a..b].chars().take(5).collect() } else { r.string(&["a", "A", "b", "_", "é", "É", "İ", "i", "ss", "ß", " ", "k", "\n", "x9"], 3) };
        let pat = if r.chance(1, 5) { pat.to_uppercase() } else { pat };
        let (cs, ww) = (r.chance(1, 2), r.chance(1, 3));
        let max = *r.pick(&[0usize, 0, 100, 1, 2, 3]);
        let (scope, ranges) = match r.us(6) {
            0 => { let (a, b) = (bound(r, &t), bound(r, &t)); (SearchScope::Range(Range::new(Position::new(a), Position::new(b))), vec![(a.min(b), a.max(b))]) }
            1 => {
                let (a, b) = (r.us(4), r.us(4));
                let mut o = 0; let mut v: Option<(usize, usize)> = None;
                for (i, l) in t.split_inclusive('\n').enumerate() { if i >= a && i <= b { v = Some((v.map_or(o, |x| x.0), o + l.len())) } o += l.len(); }
                (SearchScope::Lines { start: a, end: b }, v.into_iter().collect())
            }
            2 => {
                let names = vec!["S x".to_string()];
                let (mut o, mut cur, mut v) = (0, None, vec![]);
                for l in t.split_inclusive('\n') { let x = l.trim(); if x.starts_with('[') && x.ends_with(']') && x.len() > 1 { if let Some(s) = cur.take() { v.push((s, o)) } if x == "[S x]" { cur = Some(o) } } o += l.len(); }
                if let Some(s) = cur { v.push((s, t.len())) }
                (SearchScope::Sections(names), v)
            }
            _ => (SearchScope::All, vec![(0, t.len())]),
        };
        let want = oracle(&t, &pat, cs, ww, &ranges, max);
        let opt = SearchOptions { case_sensitive: cs, whole_words: ww, max_results: max, use_regex: false, scope };
        let rep = r.string(&["z", "a", "é", ""], 3);
        let cached = r.chance(1, 2);
        let (t0, p0, o0, r0) = (t.clone(), pat.clone(), opt.clone(), rep.clone());
        let desc = move || format!("text={t0:?} pattern={p0:?} options={o0:?} replacement={r0:?}");
        cx.check("search_finds_exactly_the_matches", &desc, || {
            let Ok(mut doc) = EditorDocument::from_content(if cached { "stale text" } else { &t }) else { return Ok(()) };
            let mut se = create_search();
            se.build_index(&doc).map_err(|e| e.to_string())?;
            if cached {
                let n = doc.len_bytes();
                let rg = Range::new(Position::new(0), Position::new(n));
                doc.replace(rg, &t).map_err(|e| e.to_string())?;
                se.update_index(&doc, &[Range::new(Position::new(0), Position::new(doc.len_bytes()))]).map_err(|e| e.to_string())?;
            }
            let got = se.search(&pat, &opt).map_err(|e| e.to_string())?;
            let g: Vec<_> = got.iter().map(|x| (x.start.offset, x.end.offset)).collect();
            ensure!(g == want, "found {g:?}, expected {want:?}");
            for x in &got {
                let (s, e) = (x.start.offset, x.end.offset);
                ensure!(x.text == t[s..e], "match text {:?}", x.text);
                let ls = t[..s].rfind('\n').map_or(0, |i| i + 1);
                let le = t[s..].find('\n').map_or(t.len(), |i| s + i);
                ensure!(x.line == t[..s].matches('\n').count() && x.column == s - ls && x.context == t[ls..le], "match at {s} reported on line {} column {} context {:?}", x.line, x.column, x.context);
            }
            Ok(())
        });
        cx.check("replace_all_replaces_exactly_the_matches", &desc, || {
            let Ok(mut doc) = EditorDocument::from_content(&t) else { return Ok(()) };
            let mut other = EditorDocument::from_content("something else a A b").map_err(|e| e.to_string())?;
            let mut se = create_search();
            se.build_index(if cached { &other } else { &doc }).map_err(|e| e.to_string())?;
            let got = se.find_replace(&mut doc, &pat, &rep, &opt).map_err(|e| e.to_string())?;
            let g: Vec<_> = got.iter().map(|x| (x.start.offset, x.end.offset)).collect();
            ensure!(g == want, "replaced {g:?}, expected {want:?}");
            let mut o = String::new(); let mut at = 0;
            for &(s, e) in &want { o += &t[at..s]; o += &rep; at = e; }
            o += &t[at..];
            ensure!(doc.text() == o, "text is {:?}, expected {o:?}", doc.text());
            let _ = other.insert(Position::new(0), "x");
            Ok(())
        });
    }
}
