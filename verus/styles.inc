//@@ struct crates/ass-editor/core/section_text.rs StyleLine "Range<usize>" "Bytes"
pub open spec fn cell(s: Seq<char>, f: (int, int)) -> Seq<char> { s.subrange(f.0, f.1) }
pub open spec fn cells(s: Seq<char>, f: Seq<(int, int)>) -> Seq<Seq<char>> { Seq::new(f.len(), |k: int| cell(s, f[k])) }
proof fn field_at(s: Seq<char>, v: Seq<Bytes>, f: Seq<(int, int)>, k: int)
    requires at_flds(s, v, f), 0 <= k < v.len()
    ensures at_field(s, v[k], f[k]), v[k].start <= v[k].end <= nbytes(s), off(s, f[k].0) == v[k].start, off(s, f[k].1) == v[k].end, nbytes(cell(s, f[k])) == v[k].end - v[k].start
{ let x = v[k]; off_mono(s, f[k].0, f[k].1); sub_bytes(s, f[k].0, f[k].1); }
/// position of the first column of this name
pub open spec fn col(v: Seq<Seq<char>>, n: Seq<char>, k: int) -> Option<int> decreases v.len() - k { if k < 0 || k >= v.len() { None } else if v[k] == n { Some(k) } else { col(v, n, k + 1) } }
/// `.iter().position(|&column| column == NAME)`
fn pos_of(v: &Vec<&str>, n: &str) -> (r: Option<usize>)
    ensures match r { None => col(texts(v@), n@, 0) is None, Some(i) => col(texts(v@), n@, 0) == Some(i as int) && i < v.len() }
{
    let mut ix: usize = 0;
    while ix < v.len()
        invariant ix <= v.len(), col(texts(v@), n@, 0) == col(texts(v@), n@, ix as int),
        decreases v.len() - ix
    { if same(v[ix], n) { return Some(ix); } ix += 1; }
    None
}
/// `.into_iter().map(|name| &line[name]).collect()`
fn cells_of<'a>(s: &'a str, v: Vec<Bytes>, f: Ghost<Seq<(int, int)>>) -> (r: Vec<&'a str>)
    requires at_flds(s@, v@, f@)
    ensures texts(r@) == cells(s@, f@)
{
    let mut ix: usize = 0; let mut out: Vec<&'a str> = Vec::new();
    while ix < v.len()
        invariant ix <= v.len(), at_flds(s@, v@, f@), out.len() == ix, forall|k: int| 0 <= k < ix ==> (#[trigger] out@[k])@ == cell(s@, f@[k]),
        decreases v.len() - ix
    { proof { field_at(s@, v@, f@, ix as int); } out.push(bslice(s, v[ix].start, v[ix].end)); ix += 1; }
    proof { assert(texts(out@) =~= cells(s@, f@)); }
    out
}
/// `.get(i).cloned()`
fn get_at(v: &Vec<Bytes>, i: usize) -> (r: Option<Bytes>) ensures match r { None => i >= v.len(), Some(x) => i < v.len() && x == v[i as int] } { if i < v.len() { Some(v[i].start..v[i].end) } else { None } }
/// the values of a style line: a leading mark, which some encoders write, is not one of them
pub open spec fn style_vals(s: Seq<char>) -> Option<Seq<(int, int)>> {
    match flds(s, "Style"@, usize::MAX as int) { None => None, Some(f) => Some(if f.len() > 1 && cell(s, f[0]).len() > 0 && cell(s, f[0])[0] == '*' { f.skip(1) } else { f }) }
}
pub ghost struct Sty { pub row: int, pub cols: Seq<Seq<char>>, pub vals: Seq<(int, int)> }
pub open spec fn or_zero(x: Option<int>) -> int { match x { Some(i) => i, None => 0 } }
/// the first style line, from the k-th row on, whose name is this one; the columns are those of the last format line above it
pub open spec fn sty(c: Seq<char>, r: Seq<(int, int)>, k: int, cols: Seq<Seq<char>>, nm: Seq<char>) -> Option<Sty>
    decreases r.len() - k
{
    if k < 0 || k >= r.len() { None } else {
        let s = c.subrange(r[k].0, r[k].1);
        match flds(s, "Format"@, usize::MAX as int) {
            Some(f) => sty(c, r, k + 1, cells(s, f), nm),
            None => match style_vals(s) {
                Some(v) => { let i = or_zero(col(cols, "Name"@, 0)); if i < v.len() && cell(s, v[i]) == core_of(nm) { Some(Sty { row: k, cols, vals: v }) } else { sty(c, r, k + 1, cols, nm) } }
                None => sty(c, r, k + 1, cols, nm),
            },
        }
    }
}
pub open spec fn srows(c: Seq<char>) -> Seq<(int, int)> { all_rows(c, STYLES_is()) }
pub open spec fn the_style(c: Seq<char>, nm: Seq<char>) -> Option<Sty> { sty(c, srows(c), 0, Seq::empty(), nm) }
pub open spec fn at_style(c: Seq<char>, x: StyleLine, y: Sty) -> bool {
    0 <= y.row < srows(c).len() && at_row(c, (x.start, x.line), srows(c)[y.row]) && texts(x.columns@) == y.cols && at_flds(x.line@, x.values@, y.vals) && or_zero(col(y.cols, "Name"@, 0)) < y.vals.len()
}
impl<'a> StyleLine<'a> {
//@@ fn crates/ass-editor/core/section_text.rs StyleLine::column
//@ret r
//@re self\.columns\.iter\(\)\.position\(\|&column\| column == name\) => pos_of(&self.columns, name)
//@spec
    ensures match r { None => col(texts(self.columns@), name@, 0) is None, Some(i) => col(texts(self.columns@), name@, 0) == Some(i as int) }
//@@ end
}
//@@ fn crates/ass-editor/core/section_text.rs find_style
//@ret r
//@re let mut columns = Vec::new\(\); => let mut columns: Vec<&'a str> = Vec::new();
//@re for \(start, line\) in section_lines\(content, STYLES\) \{ => let all = section_lines(content, STYLES()); let mut ix: usize = 0; while ix < all.len() { let (start, line) = all[ix]; ix += 1;
//@re names\.into_iter\(\)\.map\(\|name\| &line\[name\]\)\.collect\(\) => cells_of(line, names, Ghost(flds(line@, "Format"@, usize::MAX as int)->Some_0))
//@re line\[values\[0\]\.clone\(\)\]\.starts_with\( => begins_with(bslice(line, values[0].start, values[0].end), 
//@re columns\.iter\(\)\.position\(\|&column\| column == "Name"\) => pos_of(&columns, "Name")
//@re values\.get\(name_column\.unwrap_or\(0\)\)\.cloned\(\) => get_at(&values, name_column.unwrap_or(0))
//@re name\.is_some_and\(\|name\| &line\[name\] == style_name\.trim\(\)\) => match name { Some(name) => same(bslice(line, name.start, name.end), trimmed(style_name)), None => false }
//@spec
    requires nbytes(content@) < 0x7fff_ffff
    ensures match r { None => the_style(content@, style_name@) is None, Some(x) => the_style(content@, style_name@) is Some && at_style(content@, x, the_style(content@, style_name@)->Some_0) }
//@start
    let ghost c = content@; let ghost nm = style_name@; let ghost rs = srows(c);
    proof { assert(texts(Seq::<&str>::empty()) =~= Seq::<Seq<char>>::empty()); }
//@loop 0
    invariant c == content@, nm == style_name@, rs == srows(c), nbytes(c) < 0x7fff_ffff, at_rows(c, all@, rs), ix <= all.len(), the_style(c, nm) == sty(c, rs, ix as int, texts(columns@), nm),
    decreases all.len() - ix
//@loopstart 0
        let ghost k = ix as int; let ghost s = c.subrange(rs[k].0, rs[k].1); let ghost cols = texts(columns@);
        proof { assert(at_row(c, all@[k], rs[k])); }
//@before "if values.len() > 1"
            let ghost f = flds(s, "Style"@, usize::MAX as int)->Some_0;
            proof { if f.len() > 0 { field_at(s, values@, f, 0); follow_rest(f); } }
//@before "let name_column"
            let ghost v = style_vals(s)->Some_0;
            proof { assert(at_flds(s, values@, v)); let i = or_zero(col(cols, "Name"@, 0)); if 0 <= i < v.len() { field_at(s, values@, v, i); } }
//@@ end

