// ---- comma-separated fields of a line -----------------------------------------------------------------------
#[verifier::external_body]
fn strip<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>) ensures match r { Some(x) => prefixed(s@, p@) && x@ == s@.skip(p@.len() as int), None => !prefixed(s@, p@) } { s.strip_prefix(p) }
/// at most n pieces between commas
pub open spec fn cps(s: Seq<char>, p: int, n: int) -> Seq<(int, int)>
    decreases s.len() - p
{
    if n <= 0 || p < 0 || p > s.len() { Seq::empty() } else {
        let q = if n == 1 { s.len() as int } else { ch_at(s, p, ',') };
        if q >= s.len() || q < p { seq![(p, s.len() as int)] } else { seq![(p, q)] + cps(s, q + 1, n - 1) }
    }
}
#[verifier::external_body]
fn comma_pieces<'a>(s: &'a str, n: usize) -> (r: Vec<&'a str>) ensures r@.len() == cps(s@, 0, n as int).len(), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k])@ == s@.subrange(cps(s@, 0, n as int)[k].0, cps(s@, 0, n as int)[k].1) { s.splitn(n, ',').collect() }
pub proof fn cps_at(s: Seq<char>, p: int, n: int, k: int)
    requires 0 <= p <= s.len(), 0 <= k < cps(s, p, n).len()
    ensures ({ let v = cps(s, p, n); v[k].0 == (if k == 0 { p } else { v[k - 1].1 + 1 }) && p <= v[k].0 <= v[k].1 <= s.len() && (k + 1 < v.len() ==> v[k].1 < s.len() && s[v[k].1] == ',') })
    decreases s.len() - p
{
    let q = if n == 1 { s.len() as int } else { ch_at(s, p, ',') };
    ch_in(s, p, ',');
    if q < s.len() && k > 0 { cps_at(s, q + 1, n - 1, k - 1); if k > 1 { assert(cps(s, p, n)[k - 1] == cps(s, q + 1, n - 1)[k - 2]); } }
    if q < s.len() { assert(cps(s, p, n) =~= seq![(p, q)] + cps(s, q + 1, n - 1)); }
}
/// where the fields of a line with this key begin
pub open spec fn key_end(s: Seq<char>, key: Seq<char>) -> Option<int> {
    let b = blanks(s); let t = s.skip(b);
    if prefixed(t, key) && prefixed(t.skip(key.len() as int), seq![':']) { Some(b + key.len() + 1) } else { None }
}
/// a piece without the blanks around it
pub open spec fn tight(s: Seq<char>, st: int, x: (int, int)) -> (int, int) { let f = s.subrange(st + x.0, st + x.1); let a = st + x.0 + blanks(f); (a, a + core_of(f).len()) }
pub open spec fn flds(s: Seq<char>, key: Seq<char>, n: int) -> Option<Seq<(int, int)>> {
    match key_end(s, key) { None => None, Some(st) => { let v = cps(s.skip(st), 0, n); Some(Seq::new(v.len(), |k: int| tight(s, st, v[k]))) } }
}
pub open spec fn at_field(s: Seq<char>, x: Bytes, f: (int, int)) -> bool { 0 <= f.0 <= f.1 <= s.len() && off(s, f.0) == x.start && off(s, f.1) == x.end }
/// byte ranges of the fields, which follow one another
pub open spec fn at_flds(s: Seq<char>, v: Seq<Bytes>, f: Seq<(int, int)>) -> bool { v.len() == f.len() && (forall|k: int| 0 <= k < v.len() ==> at_field(s, #[trigger] v[k], f[k])) && follow(f) }
#[verifier::opaque]
pub open spec fn follow(f: Seq<(int, int)>) -> bool { forall|k: int| 0 < k < f.len() ==> f[k - 1].1 <= (#[trigger] f[k]).0 }
pub proof fn follow_at(f: Seq<(int, int)>, k: int) requires follow(f), 0 < k < f.len() ensures f[k - 1].1 <= f[k].0 { reveal(follow); let x = f[k]; }
pub proof fn follow_rest(f: Seq<(int, int)>) requires follow(f), f.len() > 0 ensures follow(f.skip(1)) { reveal(follow); let r = f.skip(1); assert forall|k: int| 0 < k < r.len() implies r[k - 1].1 <= (#[trigger] r[k]).0 by { let x = f[k + 1]; } }
pub proof fn core_in(f: Seq<char>) ensures 0 <= blanks(f), blanks(f) + core_of(f).len() <= f.len(), core_of(f) == f.subrange(blanks(f), blanks(f) + core_of(f).len())
{ blanks_in(f); trail_in(f.skip(blanks(f))); assert(core_of(f) =~= f.subrange(blanks(f), blanks(f) + core_of(f).len())); }
pub proof fn flds_follow(s: Seq<char>, key: Seq<char>, n: int)
    requires flds(s, key, n) is Some
    ensures follow(flds(s, key, n)->Some_0), 0 <= key_end(s, key)->Some_0 <= s.len()
{
    reveal(follow); blanks_in(s);
    let st = key_end(s, key)->Some_0; let v = cps(s.skip(st), 0, n); let f = flds(s, key, n)->Some_0;
    assert forall|k: int| 0 < k < f.len() implies f[k - 1].1 <= (#[trigger] f[k]).0 by {
        cps_at(s.skip(st), 0, n, k); cps_at(s.skip(st), 0, n, k - 1);
        core_in(s.subrange(st + v[k - 1].0, st + v[k - 1].1)); core_in(s.subrange(st + v[k].0, st + v[k].1));
    }
}
//@@ fn crates/ass-editor/core/section_text.rs line_fields
//@ret r
//@sig-re Range<usize> => Bytes
//@re line\.trim_start\(\)\.strip_prefix\(key\)\?\.strip_prefix\(':'\)\? => strip(strip(ltrimmed(line), key)?, ":")?
//@re line\.len\(\) - after_key\.len\(\) => blen(line) - blen(after_key)
//@re let mut ranges = Vec::new\(\); => let mut ranges: Vec<Bytes> = Vec::new(); let pieces = comma_pieces(after_key, count); let mut ix: usize = 0;
//@re for field in after_key\.splitn\(count, ','\) \{ => while ix < pieces.len() { let field = pieces[ix]; ix += 1;
//@re start \+ field\.len\(\) - field\.trim_start\(\)\.len\(\) => start + blen(field) - blen(ltrimmed(field))
//@re field\.trim\(\)\.len\(\) => blen(trimmed(field))
//@re start \+= field\.len\(\) \+ 1 => start += blen(field) + 1
//@spec
    requires nbytes(line@) < 0x7fff_ffff
    ensures match r { None => flds(line@, key@, count as int) is None, Some(v) => flds(line@, key@, count as int) is Some && at_flds(line@, v@, flds(line@, key@, count as int)->Some_0) }
//@start
    let ghost s = line@; let ghost n = count as int;
    proof { reveal_strlit(":"); assert(":"@ =~= seq![':']); off_end(s); blanks_in(s); }
//@before "let mut start"
    let ghost st = key_end(s, key@)->Some_0; let ghost rest = s.skip(st); let ghost v = cps(rest, 0, n);
    proof { assert(after_key@ =~= rest); off_skip(s, st, rest.len() as int); off_end(rest); off_zero(rest); off_mono(s, st, s.len() as int); off_mono(s, 0, st); off_zero(s); }
//@before "let mut ranges"
    proof { assert(start == off(s, st)); flds_follow(s, key@, n); assert(v.len() > 0 ==> v[0].0 == 0) by { if v.len() > 0 { cps_at(rest, 0, n, 0); } } }
//@loop 0
    invariant s == line@, rest == s.skip(st), 0 <= st <= s.len(), v == cps(rest, 0, n), nbytes(s) < 0x7fff_ffff, ix <= pieces.len(), pieces.len() == v.len(), forall|k: int| 0 <= k < pieces.len() ==> (#[trigger] pieces@[k])@ == rest.subrange(v[k].0, v[k].1),
        ix < v.len() ==> start == off(s, st + v[ix as int].0), ranges.len() == ix, forall|k: int| 0 <= k < ix ==> at_field(s, #[trigger] ranges@[k], tight(s, st, v[k])),
    decreases pieces.len() - ix
//@loopstart 0
        let ghost k = ix as int; let ghost (a, b) = v[k];
        proof {
            cps_at(rest, 0, n, k); let f = s.subrange(st + a, st + b);
            assert(rest.subrange(a, b) =~= f); core_in(f); let (x, y) = tight(s, st, v[k]);
            sub_bytes(s, st + a, st + b); off_mono(s, st + a, x); off_mono(s, x, y); off_mono(s, y, st + b); off_mono(s, st + b, s.len() as int);
            assert(f.skip(blanks(f)) =~= s.subrange(x, st + b)); sub_bytes(s, x, st + b); assert(core_of(f) =~= s.subrange(x, y)); sub_bytes(s, x, y);
            if k + 1 < v.len() { cps_at(rest, 0, n, k + 1); off_step(s, st + b); w_ascii(','); assert(rest[b] == s[st + b]); }
        }
//@@ end
