"""contracts for positions in source files (core/src/ast.rs Pos, Span; compiler/src/source_map.rs)"""
from vgen import Unit, F, L

A = "core/src/ast.rs"
M = "compiler/src/source_map.rs"
D = "compiler/src/diagnostics.rs"

# the derived order of a position is that of its number
RW = [("self.low <= pos", "self.low.0 <= pos.0"), ("self.high > pos", "self.high.0 > pos.0"), ("self.low > pos", "self.low.0 > pos.0"), ("self.high < pos", "self.high.0 < pos.0"),
      ("self.low.min(other.low)", "lesser(self.low, other.low)"), ("self.high.max(other.high)", "greater(self.high, other.high)"),
      ("pos < self.lines.0", "pos.0 < self.lines.0.0"),
      # operators as the methods they are
      ("f.high + 1", "f.high.add(1)"), ("low + source.len()", "low.add(byte_len(&source))"), ("low + offset + 1", "low.add(offset).add(1)"),
      ("usize::from(span.low) - usize::from(self.byte_offset())", "Pos::from(span.low) - Pos::from(self.byte_offset())"),
      ("usize::from(span.high) - usize::from(self.byte_offset())", "Pos::from(span.high) - Pos::from(self.byte_offset())"),
      ("&self.source[start..end]", "slice_text(&self.source, start, end)"),
      ("self.source_slice($s).chars().count()", "char_count(self.source_slice($s))"), ("$x:id.chars().count()", "char_count($x)"),
      ("self.lines.1.binary_search(&pos).map(|p| p + 1)", "(match search(&self.lines.1, &pos) { Ok(p) => Ok(p + 1), Err(p) => Err(p) })"),
      ("res.unwrap_or_else(|i| i)", "(match res { Ok(i) => i, Err(i) => i })"),
      ("self.lines.1.get($i)", "entry(&self.lines.1, $i)"), ("self.entries.get($i)", "entry(&self.entries, $i)"),
      ("entry(&self.lines.1, line).copied().unwrap_or(self.high)", "(match entry(&self.lines.1, line) { Some(p) => *p, None => self.high })"),
      ("self.entries.last().map_or(Pos::ZERO, |f| f.high.add(1))", "(match last_of(&self.entries) { Some(f) => f.high.add(1), None => Pos(0) })"),
      ("self.entries.binary_search_by(|file| $e).ok()?", "(match search_by(&self.entries, |file: &File| -> (o: Ordering) requires file.lines.0.0 <= file.high.0 ensures o == side(*file, pos) { $e }) { Ok(i) => i, Err(_) => return None })"),
      ("for (offset, _) in source.match_indices('\\n') {", "let hits = spots(&source, '\\n'); let stop = hits.len(); for step in 0..stop { let offset = hits[step];"),
      ("let mut $x:id = vec![];", "let mut $x: Vec<Pos> = Vec::new();"),
      ("self.entries.is_empty()", "(self.entries.len() == 0)"), ("Self::default()", "Files { entries: Vec::new() }"),
      ("self.path.display()", "&self.path"), ("self.file.path.display()", "&self.file.path")]

SPEC = """
#[verifier::external_body]
pub struct PathBuf { _p: () }
pub type Path = PathBuf;
impl View for PathBuf { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
// ------------------------------------------------------------------ text and its bytes
pub open spec fn width(c: char) -> nat { let n = c as u32; if n < 0x80 { 1 } else if n < 0x800 { 2 } else if n < 0x10000 { 3 } else { 4 } }
pub open spec fn wide(s: Seq<char>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { wide(s.drop_last()) + width(s.last()) } }
// the byte at which the character n of s starts
pub open spec fn at(s: Seq<char>, n: int) -> nat { wide(s.take(n)) }
pub open spec fn starts(s: Seq<char>, n: int, b: int) -> bool { 0 <= n <= s.len() && at(s, n) == b }
pub open spec fn on_char(s: Seq<char>, b: int) -> bool { exists|n: int| #[trigger] starts(s, n, b) }
// ... and the character that starts at byte b
pub open spec fn nth(s: Seq<char>, b: int) -> int { choose|n: int| #[trigger] starts(s, n, b) }
pub proof fn at_next(s: Seq<char>, n: int)
    requires 0 <= n < s.len(),
    ensures at(s, n + 1) == at(s, n) + width(s[n]), at(s, n + 1) > at(s, n),
{ assert(s.take(n + 1).drop_last() =~= s.take(n)); }
pub proof fn at_order(s: Seq<char>, n: int, m: int)
    requires 0 <= n < m <= s.len(),
    ensures at(s, n) < at(s, m),
    decreases m - n,
{ if n + 1 < m { at_order(s, n, m - 1); } at_next(s, m - 1); }
pub proof fn at_ends(s: Seq<char>) ensures at(s, 0) == 0, at(s, s.len() as int) == wide(s) { assert(s.take(s.len() as int) =~= s); }
pub proof fn only(s: Seq<char>, n: int, b: int)
    requires starts(s, n, b),
    ensures nth(s, b) == n, on_char(s, b), b <= wide(s),
{
    let m = nth(s, b);
    assert(starts(s, m, b));
    if m < n { at_order(s, m, n); }
    if n < m { at_order(s, n, m); }
    at_ends(s);
    if n < s.len() { at_order(s, n, s.len() as int); }
}
// ------------------------------------------------------------------ lines
// where the newlines are
pub open spec fn newlines(s: Seq<char>) -> Seq<int> { spots_in(s, '\\n') }
pub open spec fn spots_in(s: Seq<char>, c: char) -> Seq<int>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { let p = spots_in(s.drop_last(), c); if s.last() == c { p.push(s.len() - 1) } else { p } } }
// how many lines end in front of character n
pub open spec fn line_at(s: Seq<char>, n: int) -> int { newlines(s.take(n)).len() as int }
// the character the line starts with
pub open spec fn line_start(s: Seq<char>, k: int) -> int { if k <= 0 { 0 } else { newlines(s)[k - 1] + 1 } }
// the character behind the line, its newline included
pub open spec fn line_end(s: Seq<char>, k: int) -> int { if k < newlines(s).len() { newlines(s)[k] + 1 } else { s.len() as int } }
pub proof fn newlines_of(s: Seq<char>)
    ensures
        forall|i: int| 0 <= i < newlines(s).len() ==> 0 <= #[trigger] newlines(s)[i] < s.len() && s[newlines(s)[i]] == '\\n',
        forall|i: int, j: int| 0 <= i < j < newlines(s).len() ==> newlines(s)[i] < newlines(s)[j],
        forall|n: int| 0 <= n < s.len() && s[n] == '\\n' ==> exists|i: int| 0 <= i < newlines(s).len() && #[trigger] newlines(s)[i] == n,
    decreases s.len(),
{
    if s.len() > 0 {
        newlines_of(s.drop_last());
        let p = newlines(s.drop_last());
        assert forall|n: int| 0 <= n < s.len() && s[n] == '\\n' implies exists|i: int| 0 <= i < newlines(s).len() && #[trigger] newlines(s)[i] == n by {
            if n < s.len() - 1 { assert(s.drop_last()[n] == '\\n'); let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == n; assert(newlines(s)[i] == n); }
            else { assert(newlines(s)[p.len() as int] == n); }
        }
    }
}
// the newlines in front of a character are the first of all newlines
pub proof fn newlines_before(s: Seq<char>, n: int)
    requires 0 <= n <= s.len(),
    ensures
        line_at(s, n) <= newlines(s).len(),
        forall|i: int| 0 <= i < newlines(s).len() ==> (#[trigger] newlines(s)[i] < n <==> i < line_at(s, n)),
    decreases s.len() - n,
{
    if n < s.len() {
        newlines_before(s, n + 1);
        assert(s.take(n + 1).drop_last() =~= s.take(n));
        newlines_of(s.take(n + 1));
        newlines_of(s);
        newlines_of(s.take(n));
        let k = line_at(s, n + 1);
        assert(newlines(s.take(n + 1)).len() == k);
        prefix(s, n + 1);
        prefix(s, n);
    } else {
        assert(s.take(n) =~= s);
        newlines_of(s);
    }
}
pub proof fn prefix(s: Seq<char>, n: int)
    requires 0 <= n <= s.len(),
    ensures line_at(s, n) <= newlines(s).len(), forall|i: int| 0 <= i < line_at(s, n) ==> #[trigger] newlines(s)[i] == newlines(s.take(n))[i], newlines(s.take(n)) =~= newlines(s).take(line_at(s, n)),
    decreases s.len() - n,
{
    if n < s.len() {
        prefix(s, n + 1);
        assert(s.take(n + 1).drop_last() =~= s.take(n));
    } else { assert(s.take(n) =~= s); }
}
// THEOREM: the line a character is on starts at or before it, ends behind it, and no newline lies in between
pub proof fn on_line(s: Seq<char>, n: int)
    requires 0 <= n <= s.len(),
    ensures
        0 <= line_start(s, line_at(s, n)) <= n <= line_end(s, line_at(s, n)) <= s.len(),
        forall|i: int| line_start(s, line_at(s, n)) <= i < n ==> s[i] != '\\n',
        line_start(s, line_at(s, n)) > 0 ==> s[line_start(s, line_at(s, n)) - 1] == '\\n',
{
    newlines_before(s, n);
    newlines_of(s);
    let k = line_at(s, n);
    assert(k >= 0);
    if k > 0 { assert(newlines(s)[k - 1] < n); }
    if k < newlines(s).len() { assert(!(newlines(s)[k] < n)); }
    assert forall|i: int| line_start(s, k) <= i < n implies s[i] != '\\n' by {
        if s[i] == '\\n' {
            let j = choose|j: int| 0 <= j < newlines(s).len() && #[trigger] newlines(s)[j] == i;
            assert(newlines(s)[j] < n);
            assert(j < k);
            if j < k - 1 { assert(newlines(s)[j] < newlines(s)[k - 1]); }
        }
    }
}
pub open spec fn place(s: Seq<char>, n: int) -> FilePos { FilePos { line: line_at(s, n) as usize, col: (n - line_start(s, line_at(s, n))) as usize } }
// ------------------------------------------------------------------ files laid out one behind the other
pub open spec fn file_ok(f: File) -> bool {
    &&& f.high.0 == f.lines.0.0 + wide(f.source@)
    &&& f.lines.1@.len() == newlines(f.source@).len()
    &&& forall|k: int| 0 <= k < f.lines.1@.len() ==> (#[trigger] f.lines.1@[k]).0 == f.lines.0.0 + at(f.source@, newlines(f.source@)[k] + 1)
}
pub open spec fn tiled(s: Seq<File>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> file_ok(#[trigger] s[i])
    &&& s.len() > 0 ==> s[0].lines.0.0 == 0
    &&& forall|i: int| 0 < i < s.len() ==> (#[trigger] s[i]).lines.0.0 == s[i - 1].high.0 + 1
}
pub open spec fn holds(f: File, p: Pos) -> bool { f.lines.0.0 <= p.0 <= f.high.0 }
// the position is that of a character of the file, or its end
pub open spec fn inside(f: File, p: Pos) -> bool { holds(f, p) && on_char(f.source@, p.0 - f.lines.0.0) }
pub open spec fn char_of(f: File, p: Pos) -> int { nth(f.source@, p.0 - f.lines.0.0) }
pub open spec fn side(f: File, p: Pos) -> Ordering { if f.lines.0.0 > p.0 { Ordering::Greater } else if f.high.0 < p.0 { Ordering::Less } else { Ordering::Equal } }
pub open spec fn end_of(s: Seq<File>) -> int { if s.len() == 0 { 0 } else { s.last().high.0 + 1 } }
pub proof fn apart(s: Seq<File>, i: int, j: int)
    requires tiled(s), 0 <= i < j < s.len(),
    ensures s[i].high.0 < s[j].lines.0.0, s[i].lines.0.0 <= s[i].high.0,
    decreases j - i,
{ if i + 1 < j { apart(s, i, j - 1); assert(s[j - 1].high.0 >= s[j - 1].lines.0.0); } assert(s[j].lines.0.0 == s[j - 1].high.0 + 1); }
// THEOREM: a position belongs to one file at most
pub proof fn one_file(s: Seq<File>, i: int, j: int, p: Pos)
    requires tiled(s), 0 <= i < s.len(), 0 <= j < s.len(), holds(s[i], p), holds(s[j], p),
    ensures i == j,
{ if i < j { apart(s, i, j); } if j < i { apart(s, j, i); } }
pub proof fn line_table(f: File)
    requires file_ok(f),
    ensures
        forall|i: int, j: int| 0 <= i < j < f.lines.1@.len() ==> (#[trigger] f.lines.1@[i]).0 < (#[trigger] f.lines.1@[j]).0,
        forall|i: int| 0 <= i < f.lines.1@.len() ==> starts(f.source@, newlines(f.source@)[i] + 1, #[trigger] f.lines.1@[i].0 - f.lines.0.0),
{
    newlines_of(f.source@);
    assert forall|i: int, j: int| 0 <= i < j < f.lines.1@.len() implies (#[trigger] f.lines.1@[i]).0 < (#[trigger] f.lines.1@[j]).0 by { at_order(f.source@, newlines(f.source@)[i] + 1, newlines(f.source@)[j] + 1); }
}
// a line starts at or before a position exactly if its newline is in front of it
pub proof fn lines_up_to(f: File, p: Pos)
    requires file_ok(f), inside(f, p),
    ensures
        starts(f.source@, char_of(f, p), p.0 - f.lines.0.0),
        forall|i: int| 0 <= i < f.lines.1@.len() ==> ((#[trigger] f.lines.1@[i]).0 <= p.0 <==> i < line_at(f.source@, char_of(f, p))),
{
    let n = char_of(f, p);
    newlines_of(f.source@);
    newlines_before(f.source@, n);
    assert forall|i: int| 0 <= i < f.lines.1@.len() implies ((#[trigger] f.lines.1@[i]).0 <= p.0 <==> i < line_at(f.source@, n)) by {
        let m = newlines(f.source@)[i] + 1;
        if m < n { at_order(f.source@, m, n); }
        if n < m { at_order(f.source@, n, m); }
    }
}
pub proof fn drop_file(s: Seq<File>) requires tiled(s), s.len() > 0 ensures tiled(s.drop_last()) {
    assert forall|i: int| 0 <= i < s.drop_last().len() implies file_ok(#[trigger] s.drop_last()[i]) by { assert(file_ok(s[i])); }
    assert forall|i: int| 0 < i < s.drop_last().len() implies (#[trigger] s.drop_last()[i]).lines.0.0 == s.drop_last()[i - 1].high.0 + 1 by { assert(s[i].lines.0.0 == s[i - 1].high.0 + 1); }
}
// ------------------------------------------------------------------ std: assumed
#[verifier::external_body]
pub fn byte_len(s: &String) -> (r: usize) ensures r == wide(s@) { unimplemented!() }
#[verifier::external_body]
pub fn char_count(s: &str) -> (r: usize) ensures r == s@.len() { unimplemented!() }
#[verifier::external_body]
pub fn slice_text(s: &String, a: usize, b: usize) -> (r: &str)
    requires on_char(s@, a as int), on_char(s@, b as int), a <= b,
    ensures r@ == s@.subrange(nth(s@, a as int), nth(s@, b as int))
{ unimplemented!() }
#[verifier::external_body]
pub fn spots(s: &String, c: char) -> (r: Vec<usize>)
    ensures r@.len() == spots_in(s@, c).len(), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == at(s@, spots_in(s@, c)[k])
{ unimplemented!() }
#[verifier::external_body]
pub fn search(v: &Vec<Pos>, p: &Pos) -> (r: Result<usize, usize>)
    requires forall|i: int, j: int| 0 <= i < j < v@.len() ==> (#[trigger] v@[i]).0 <= (#[trigger] v@[j]).0,
    ensures match r {
        Ok(k) => k < v@.len() <= usize::MAX && v@[k as int].0 == p.0,
        Err(k) => k <= v@.len() && (forall|i: int| 0 <= i < k ==> (#[trigger] v@[i]).0 < p.0) && (forall|i: int| k <= i < v@.len() ==> (#[trigger] v@[i]).0 > p.0),
    }
{ unimplemented!() }
pub open spec fn rank(o: Ordering) -> int { match o { Ordering::Less => 0, Ordering::Equal => 1, Ordering::Greater => 2 } }
pub open spec fn graded<T, G: Fn(&T) -> Ordering>(s: Seq<T>, f: G) -> bool {
    forall|a: int, b: int, oa: Ordering, ob: Ordering| 0 <= a < b < s.len() && #[trigger] f.ensures((&s[a],), oa) && #[trigger] f.ensures((&s[b],), ob) ==> rank(oa) <= rank(ob)
}
#[verifier::external_body]
pub fn search_by<T, G: Fn(&T) -> Ordering>(v: &Vec<T>, f: G) -> (r: Result<usize, usize>)
    requires forall|i: int| 0 <= i < v@.len() ==> f.requires((&#[trigger] v@[i],)),
    ensures match r {
        Ok(k) => k < v@.len() && f.ensures((&v@[k as int],), Ordering::Equal),
        Err(k) => k <= v@.len() && (graded(v@, f) ==> (forall|i: int| 0 <= i < k ==> f.ensures((&#[trigger] v@[i],), Ordering::Less)) && (forall|i: int| k <= i < v@.len() ==> f.ensures((&#[trigger] v@[i],), Ordering::Greater))),
    }
{ unimplemented!() }
pub fn entry<T>(v: &Vec<T>, i: usize) -> (r: Option<&T>)
    ensures match r { Some(x) => i < v@.len() && *x == v@[i as int], None => i >= v@.len() }
{ if i < v.len() { Some(&v[i]) } else { None } }
pub fn last_of<T>(v: &Vec<T>) -> (r: Option<&T>)
    ensures match r { Some(x) => v@.len() > 0 && *x == v@.last(), None => v@.len() == 0 }
{ if v.len() > 0 { Some(&v[v.len() - 1]) } else { None } }
pub fn lesser(a: Pos, b: Pos) -> (r: Pos) ensures r.0 == (if a.0 <= b.0 { a.0 } else { b.0 }) { if a.0 <= b.0 { a } else { b } }
pub fn greater(a: Pos, b: Pos) -> (r: Pos) ensures r.0 == (if a.0 >= b.0 { a.0 } else { b.0 }) { if a.0 >= b.0 { a } else { b } }
// ------------------------------------------------------------------ where shown text goes; it may refuse
pub struct IoError;
pub struct Sink { _p: () }
impl View for Sink { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub uninterp spec fn decimal(n: int) -> Seq<char>;
pub trait Show { spec fn text(&self) -> Seq<char>; }
impl Show for usize { open spec fn text(&self) -> Seq<char> { decimal(*self as int) } }
impl Show for PathBuf { open spec fn text(&self) -> Seq<char> { self@ } }
impl Show for FilePos { open spec fn text(&self) -> Seq<char> { shown(*self) } }
impl<T: Show + ?Sized> Show for &T { open spec fn text(&self) -> Seq<char> { (**self).text() } }
impl Sink {
    #[verifier::external_body]
    pub fn put(&mut self, s: &str) -> (r: Result<(), IoError>) ensures r is Ok ==> final(self)@ == old(self)@ + s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn show<T: Show>(&mut self, x: T) -> (r: Result<(), IoError>) ensures r is Ok ==> final(self)@ == old(self)@ + x.text() { unimplemented!() }
}
// lines and columns are counted from one where a person reads them
pub open spec fn shown(p: FilePos) -> Seq<char> { decimal(p.line + 1) + ":"@ + decimal(p.col + 1) }
"""

FMT = [("&mut fmt::Formatter<'_>", "&mut Sink"), ("fmt::Result", "Result<(), IoError>")]


DISPLAY = [('loc.enclosing_line().trim_end().replace(\'\\t\', " ")', "replaced(trimmed(loc.enclosing_line()), '\\t', ' ')"),
           ('" ".repeat($n)', 'repeated(\' \', $n)'), ('"^".repeat($n)', "repeated('^', $n)"), ("($a - $b).max(1)", "at_least($a - $b, 1)")]
MESSAGES = """
// ------------------------------------------------------------------ what is reported about a source
#[verifier::external_body]
#[verifier::accept_recursive_types(A)]
pub struct PoolIndex<A> { _p: core::marker::PhantomData<A> }
pub struct Function;
#[verifier::external_body]
pub struct ExpectedSet { _p: () }
#[verifier::external_body]
pub struct Cause { _p: () }
pub uninterp spec fn code_of(c: Cause) -> Seq<char>;
impl Cause {
    #[verifier::external_body]
    pub fn code(&self) -> (r: &'static str) ensures r@ == code_of(*self) { unimplemented!() }
}
// the words of a message: the text of its #[error] attribute
pub uninterp spec fn message(d: Diagnostic) -> Seq<char>;
impl Show for Diagnostic { open spec fn text(&self) -> Seq<char> { message(*self) } }
impl Show for String { open spec fn text(&self) -> Seq<char> { self@ } }
impl Show for str { open spec fn text(&self) -> Seq<char> { self@ } }
impl<'a> Show for SourceLoc<'a> { open spec fn text(&self) -> Seq<char> { spot(*self) } }
pub open spec fn spot(l: SourceLoc) -> Seq<char> { l.file.path@ + ":"@ + shown(l.start) }
pub open spec fn blank(c: char) -> bool { c == ' ' || c == '\\n' || c == '\\t' || c == '\\r' || white(c) }
pub uninterp spec fn white(c: char) -> bool;
pub open spec fn trimmed_of(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() > 0 && blank(s.last()) { trimmed_of(s.drop_last()) } else { s } }
pub open spec fn swapped(s: Seq<char>, a: char, b: char) -> Seq<char> { s.map_values(|c: char| if c == a { b } else { c }) }
pub open spec fn times(c: char, n: int) -> Seq<char> { Seq::new(n as nat, |i: int| c) }
#[verifier::external_body]
pub fn trimmed(s: &str) -> (r: &str) ensures r@ == trimmed_of(s@) { unimplemented!() }
#[verifier::external_body]
pub fn replaced(s: &str, a: char, b: char) -> (r: String) ensures r@ == swapped(s@, a, b) { unimplemented!() }
#[verifier::external_body]
pub fn repeated(c: char, n: usize) -> (r: String) ensures r@ == times(c, n as int) { unimplemented!() }
pub fn at_least(n: usize, m: usize) -> (r: usize) ensures r == (if n < m { m } else { n }) { if n < m { m } else { n } }
// where a report points
pub open spec fn span_of(d: Diagnostic) -> Span {
    match d {
        Diagnostic::ReplaceMethodConflict(_, s) => s, Diagnostic::FieldConflict(s) => s, Diagnostic::Deprecation(_, s) => s, Diagnostic::UnusedLocal(s) => s,
        Diagnostic::MissingReturn(s) => s, Diagnostic::StatementFallthrough(s) => s, Diagnostic::InvalidUseOfTemporary(s) => s, Diagnostic::SyntaxError(_, s) => s,
        Diagnostic::CompileError(_, s) => s, Diagnostic::CteError(_, s) => s, Diagnostic::AddMethodConflict(s) => s,
    }
}
// ... and which reports are no more than warnings
pub open spec fn warning(d: Diagnostic) -> bool {
    d is ReplaceMethodConflict || d is FieldConflict || d is Deprecation || d is UnusedLocal || d is MissingReturn || d is AddMethodConflict
}
pub open spec fn marks(l: SourceLoc) -> int { if l.start.line != l.end.line { 3 } else if l.end.col == l.start.col { 1 } else { l.end.col - l.start.col } }
// the report: where, the line itself, a mark under what is meant, and what is wrong
pub open spec fn report(d: Diagnostic, l: SourceLoc) -> Seq<char> {
    (match d { Diagnostic::CompileError(c, _) => "["@ + code_of(c) + "] "@, _ => Seq::empty() })
    + ("At "@ + spot(l) + ":\\n"@)
    + (swapped(trimmed_of(line_of(*l.file, l.start.line as int)), '\\t', ' ') + "\\n"@)
    + (times(' ', l.start.col as int) + times('^', marks(l)) + "\\n"@)
    + (message(d) + "\\n"@)
}
pub open spec fn line_of(f: File, k: int) -> Seq<char> { f.source@.subrange(line_start(f.source@, k), line_end(f.source@, k)) }
pub open spec fn located(s: Seq<File>, span: Span, l: SourceLoc) -> bool {
    exists|i: int| 0 <= i < s.len() && *l.file == #[trigger] s[i] && holds(*l.file, span.low)
        && l.start == place(l.file.source@, char_of(*l.file, span.low)) && l.end == place(l.file.source@, char_of(*l.file, span.high))
}
// THEOREM: the end of a span in one line is not in front of its start
pub proof fn forward(f: File, a: Pos, b: Pos)
    requires file_ok(f), inside(f, a), inside(f, b), a.0 <= b.0,
    ensures
        char_of(f, a) <= char_of(f, b) <= f.source@.len(),
        place(f.source@, char_of(f, a)).line == line_at(f.source@, char_of(f, a)),
        place(f.source@, char_of(f, a)).line == place(f.source@, char_of(f, b)).line ==> place(f.source@, char_of(f, a)).col <= place(f.source@, char_of(f, b)).col,
        line_at(f.source@, char_of(f, a)) <= newlines(f.source@).len(),
{
    let (n, m) = (char_of(f, a), char_of(f, b));
    let s = f.source@;
    lines_up_to(f, a);
    lines_up_to(f, b);
    if m < n { at_order(s, m, n); }
    newlines_before(s, n);
    newlines_before(s, m);
    newlines_of(s);
    on_line(s, n);
    on_line(s, m);
    at_ends(s);
    chars_fit(s);
}
// a text in memory has no more characters than bytes, and its bytes can be counted
pub proof fn chars_fit(s: Seq<char>)
    ensures newlines(s).len() <= s.len() <= wide(s),
    decreases s.len(),
{ if s.len() > 0 { chars_fit(s.drop_last()); } }
"""


def build(repo):
    u = Unit("sourcemap", repo)
    u.raw("use core::cmp::Ordering;\n" + SPEC)
    u.global_rw = RW
    u.struct(A, "Pos", attrs="#[derive(Clone, Copy)]")
    u.struct(A, "Span", attrs="#[derive(Clone, Copy)]")
    u.struct(M, "NonEmptyVec")
    u.struct(M, "File")
    u.struct(M, "Files")
    u.struct(M, "FilePos", attrs="#[derive(Clone, Copy)]")
    u.struct(M, "SourceLoc")
    u.impl(A, "Pos", {"new": F("requires n <= u32::MAX, ensures r.0 == n,")})
    u.impl(A, "Add<usize> for Pos", {"add": F("requires self.0 + rhs <= u32::MAX, ensures r.0 == self.0 + rhs,")}, hdr="impl Pos")
    u.impl(A, "Sub<usize> for Pos", {"sub": F("requires self.0 >= rhs, ensures r.0 == self.0 - rhs,")}, hdr="impl Pos")
    u.impl(A, "From<Pos> for usize", {"from": F("ensures r == pos.0,", sig_rw=[("Self", "usize")])}, hdr="impl Pos")
    u.impl(A, "Span", {
        "new": F("ensures r.low == low, r.high == high,"),
        "merge": F("ensures r.low.0 == (if self.low.0 <= other.low.0 { self.low.0 } else { other.low.0 }), r.high.0 == (if self.high.0 >= other.high.0 { self.high.0 } else { other.high.0 }),"),
        "contains": F("ensures r == (self.low.0 <= pos.0 < self.high.0),"),
        "compare_pos": F("ensures r == (if self.low.0 > pos.0 { Ordering::Greater } else if self.high.0 < pos.0 { Ordering::Less } else { Ordering::Equal }),"),
    })
    u.impl(M, "File", {
        "span": F("ensures r.low == self.lines.0, r.high == self.high,"),
        "byte_offset": F("ensures r == self.lines.0,"),
        "source": F("ensures r@ == self.source@,"),
        "lookup": F("""requires file_ok(*self), pos.0 >= self.lines.0.0 ==> inside(*self, pos),
            ensures match r { Some(p) => pos.0 >= self.lines.0.0 && p == place(self.source@, char_of(*self, pos)), None => pos.0 < self.lines.0.0 },""",
            pre="proof { line_table(*self); if pos.0 >= self.lines.0.0 { lines_up_to(*self, pos); let n = char_of(*self, pos); on_line(self.source@, n); newlines_before(self.source@, n); newlines_of(self.source@); at_ends(self.source@); } }",
            after=[("^let index", "proof { if pos.0 >= self.lines.0.0 { counted(*self, pos, index as int); } }"),
                   ("^let line_span", "proof { let k = line_at(self.source@, char_of(*self, pos)); let b = low.0 - self.lines.0.0; only(self.source@, 0, 0); if k > 0 { let i = k - 1; assert(self.lines.1@[i].0 - self.lines.0.0 == b); } assert(starts(self.source@, line_start(self.source@, k), b)); only(self.source@, line_start(self.source@, k), b); only(self.source@, char_of(*self, pos), pos.0 - self.lines.0.0); }")]),
        "enclosing_line": F("""requires file_ok(*self), line <= newlines(self.source@).len(),
            ensures r@ == self.source@.subrange(line_start(self.source@, line as int), line_end(self.source@, line as int)),""",
            pre="proof { line_table(*self); newlines_of(self.source@); at_ends(self.source@); only(self.source@, 0, 0); only(self.source@, self.source@.len() as int, wide(self.source@) as int); let s = self.source@; let k = line as int; if k > 0 { only(s, newlines(s)[k - 1] + 1, self.lines.1@[k - 1].0 - self.lines.0.0); } if k < newlines(s).len() { only(s, newlines(s)[k] + 1, self.lines.1@[k].0 - self.lines.0.0); } if line_start(s, k) < line_end(s, k) { at_order(s, line_start(s, k), line_end(s, k)); } }"),
        "source_slice": F("""requires file_ok(*self), inside(*self, span.low), inside(*self, span.high), span.low.0 <= span.high.0,
            ensures r@ == self.source@.subrange(char_of(*self, span.low), char_of(*self, span.high)),"""),
        "path": F("ensures *r == self.path,"),
    })
    u.raw("""
pub proof fn counted(f: File, p: Pos, k: int)
    requires file_ok(f), inside(f, p), 0 <= k <= f.lines.1@.len(),
        forall|i: int| 0 <= i < k ==> (#[trigger] f.lines.1@[i]).0 <= p.0,
        forall|i: int| k <= i < f.lines.1@.len() ==> (#[trigger] f.lines.1@[i]).0 > p.0,
    ensures k == line_at(f.source@, char_of(f, p)),
{
    lines_up_to(f, p);
    let m = line_at(f.source@, char_of(f, p));
    newlines_before(f.source@, char_of(f, p));
    if k < m { assert(f.lines.1@[k].0 <= p.0); }
    if m < k { assert(f.lines.1@[m].0 <= p.0); }
}
""")
    u.impl(M, "Files", {
        "new": F("ensures r.entries@.len() == 0, tiled(r.entries@),"),
        "add": F("""requires tiled(old(self).entries@), end_of(old(self).entries@) + wide(source@) <= u32::MAX,
            ensures tiled(final(self).entries@), final(self).entries@.len() == old(self).entries@.len() + 1, final(self).entries@.drop_last() == old(self).entries@,
                final(self).entries@.last().path == path, final(self).entries@.last().source@ == source@, final(self).entries@.last().lines.0.0 == end_of(old(self).entries@),""",
            pre="let ghost e0 = self.entries@; let ghost s = source@; proof { newlines_of(s); at_ends(s); }",
            loops=[L("for", "stop == hits@.len(), hits@.len() == newlines(s).len(), forall|k: int| 0 <= k < hits@.len() ==> #[trigger] hits@[k] == at(s, newlines(s)[k]), lines@.len() == step, forall|k: int| 0 <= k < step ==> (#[trigger] lines@[k]).0 == low.0 + at(s, newlines(s)[k] + 1), low.0 + wide(s) <= u32::MAX, forall|i: int| 0 <= i < newlines(s).len() ==> 0 <= #[trigger] newlines(s)[i] < s.len() && s[newlines(s)[i]] == '\\n', wide(s) == at(s, s.len() as int),",
                     start="proof { let n = newlines(s)[step as int]; at_next(s, n); if n + 1 < s.len() { at_order(s, n + 1, s.len() as int); } }")],
            post="proof { assert(self.entries@.drop_last() =~= e0); assert forall|i: int| 0 <= i < self.entries@.len() implies file_ok(#[trigger] self.entries@[i]) by { if i < e0.len() { assert(self.entries@[i] == e0[i]); } } assert forall|i: int| 0 < i < self.entries@.len() implies (#[trigger] self.entries@[i]).lines.0.0 == self.entries@[i - 1].high.0 + 1 by { if i < e0.len() { assert(self.entries@[i] == e0[i]); assert(self.entries@[i - 1] == e0[i - 1]); } } }"),
        "lookup_file": F("""requires tiled(self.entries@),
            ensures match r { Some(f) => exists|i: int| 0 <= i < self.entries@.len() && *f == #[trigger] self.entries@[i] && holds(*f, pos), None => forall|i: int| 0 <= i < self.entries@.len() ==> !holds(#[trigger] self.entries@[i], pos) },""",
            pre="proof { assert forall|i: int, j: int| 0 <= i < j < self.entries@.len() implies (#[trigger] self.entries@[i]).high.0 < (#[trigger] self.entries@[j]).lines.0.0 by { apart(self.entries@, i, j); } }"),
        "lookup": F("""requires tiled(self.entries@),
                forall|i: int| 0 <= i < self.entries@.len() && holds(#[trigger] self.entries@[i], span.low) ==> inside(self.entries@[i], span.low) && inside(self.entries@[i], span.high),
            ensures match r {
                Some(l) => exists|i: int| 0 <= i < self.entries@.len() && *l.file == #[trigger] self.entries@[i] && holds(*l.file, span.low)
                    && l.start == place(l.file.source@, char_of(*l.file, span.low)) && l.end == place(l.file.source@, char_of(*l.file, span.high)),
                None => forall|i: int| 0 <= i < self.entries@.len() ==> !holds(#[trigger] self.entries@[i], span.low),
            },"""),
        "is_empty": F("ensures r == (self.entries@.len() == 0),"),
    })
    u.impl(M, "SourceLoc<'a>", {
        "enclosing_line": F("requires file_ok(*self.file), self.start.line <= newlines(self.file.source@).len(), ensures r@ == self.file.source@.subrange(line_start(self.file.source@, self.start.line as int), line_end(self.file.source@, self.start.line as int)),"),
    })
    u.impl(M, "fmt::Display for FilePos", {"fmt": F("requires self.line < usize::MAX, self.col < usize::MAX, ensures r is Ok ==> final(f)@ == old(f)@ + shown(*self),", sig_rw=FMT, pieces=True)}, hdr="impl FilePos")
    u.impl(M, "fmt::Display for SourceLoc<'a>", {"fmt": F("ensures r is Ok ==> final(f)@ == old(f)@ + (self.file.path@ + \":\"@ + shown(self.start)),", sig_rw=FMT, pieces=True)}, hdr="impl<'a> SourceLoc<'a>")
    u.raw(MESSAGES)
    u.enum(D, "Deprecation")
    u.enum(D, "Diagnostic")
    u.impl(D, "Diagnostic", {
        "display": F("""requires tiled(files.entries@), span_of(*self).low.0 <= span_of(*self).high.0,
                exists|i: int| 0 <= i < files.entries@.len() && holds(#[trigger] files.entries@[i], span_of(*self).low),
                forall|i: int| 0 <= i < files.entries@.len() && holds(#[trigger] files.entries@[i], span_of(*self).low) ==> inside(files.entries@[i], span_of(*self).low) && inside(files.entries@[i], span_of(*self).high),
            ensures r is Ok ==> exists|l: SourceLoc| #[trigger] located(files.entries@, span_of(*self), l) && final(out)@ == old(out)@ + report(*self, l),""",
            sig_rw=[("<W: fmt::Write>", ""), ("&mut W", "&mut Sink"), ("fmt::Result", "Result<(), IoError>")], rw=DISPLAY, pieces=True,
            pre="let ghost o = out@; let ghost d = *self;", after=[("^let loc", "proof { forward(*loc.file, span_of(d).low, span_of(d).high); assert(loc.end.col >= loc.start.col || loc.start.line != loc.end.line); }")]),
        "is_fatal": F("ensures r == !warning(*self),"),
        "span": F("ensures r == span_of(*self),"),
        "code": F("ensures self is CompileError ==> r@ == code_of(self->CompileError_0), !(self is CompileError) ==> r@ == \"OTHER\"@,"),
    })
    return u
