"""contracts for the repair of the game's command line (scc/cli/src/opts.rs fix_args)"""
from vgen import Unit, F, L

O = "scc/cli/src/opts.rs"

RW = [("for arg in args {", "let mut rest = args; while rest.len() > 0 { let arg = take_first(&mut rest);"),
      ("for part in parts {", "let mut todo = parts; while todo.len() > 0 { let part = take_first(&mut todo);"),
      ("for p in $x:id.split(' ') {", "let mut cuts = split_str($x, ' '); while cuts.len() > 0 { let p = take_first(&mut cuts);"),
      ("arg.replace($c, $s).replace($a, $b)", "swap_text(&swap_char(&arg, $c, $s), $a, $b)"),
      ("arg.replace($c, $s)", "swap_char(&arg, $c, $s)"),
      ("$x:id.split($c).collect::<VecDeque<&str>>()", "split_string(&$x, $c)"),
      ("$x:id.pop_front().unwrap().to_string()", "owned(take_first(&mut $x))"),
      ("format!(\"{} {}\", $a:id, &$x:id.pop_front().unwrap())", "blank_between(&*$a, take_first(&mut $x))"),
      ("format!(\"{} {}\", $a:id, $x:id)", "blank_between_strings(&*$a, &$x)"),
      ("$x:id.contains($c)", "has_char(&$x, $c)"),
      ("$x:id.matches($c).count()", "count_char(&$x, $c)"),
      ("$x:id.to_string()", "owned($x)"),
      ("fixed_args.retain(|$s:id| !$t:id.is_empty())", "retain_by(&mut fixed_args, |$s: &String| -> (b: bool) ensures b == ($s@.len() > 0) { !no_text_of($t) })"),
      ("part.is_empty()", "no_text(part)"),
      ("let $x:id = $v:id.last_mut().unwrap();", "let end = $v.len() - 1; let $x = &mut $v[end];"),
      ("let mut $x:id: Vec<String> = vec![];", "let mut $x: Vec<String> = Vec::new();")]

SPEC = r"""
// ------------------------------------------------------------------ texts
pub open spec fn free(s: Seq<char>, c: char) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != c }
// every c replaced by r
pub open spec fn subst(s: Seq<char>, c: char, r: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { subst(s.drop_last(), c, r) + (if s.last() == c { r } else { seq![s.last()] }) } }
// every a followed by b replaced by a, from the front
pub open spec fn unpair(s: Seq<char>, a: char, b: char) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if s.len() >= 2 && s[0] == a && s[1] == b { seq![a] + unpair(s.skip(2), a, b) }
    else { seq![s[0]] + unpair(s.skip(1), a, b) }
}
// the texts between the c
pub open spec fn cut(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { seq![Seq::empty()] }
    else { let p = cut(s.drop_last(), c); if s.last() == c { p.push(Seq::empty()) } else { p.drop_last().push(p.last().push(s.last())) } }
}
pub proof fn subst_free(s: Seq<char>, c: char, r: Seq<char>)
    requires free(s, c),
    ensures subst(s, c, r) == s,
    decreases s.len(),
{ if s.len() > 0 { subst_free(s.drop_last(), c, r); assert(s.drop_last() + seq![s.last()] =~= s); } else { assert(s =~= Seq::empty()); } }
pub proof fn subst_cat(s: Seq<char>, t: Seq<char>, c: char, r: Seq<char>)
    ensures subst(s + t, c, r) == subst(s, c, r) + subst(t, c, r),
    decreases t.len(),
{
    if t.len() > 0 {
        subst_cat(s, t.drop_last(), c, r);
        assert((s + t).drop_last() =~= s + t.drop_last());
        let e = if t.last() == c { r } else { seq![t.last()] };
        assert(subst(s, c, r) + subst(t.drop_last(), c, r) + e =~= subst(s, c, r) + (subst(t.drop_last(), c, r) + e));
    } else { assert(s + t =~= s); assert(subst(s, c, r) + subst(t, c, r) =~= subst(s, c, r)); }
}
pub proof fn subst_one(c: char, r: Seq<char>)
    ensures subst(seq![c], c, r) == r,
{ assert(seq![c].drop_last() =~= Seq::<char>::empty()); assert(Seq::<char>::empty() + r =~= r); reveal_with_fuel(subst, 3); }
pub proof fn cut_some(s: Seq<char>, c: char)
    ensures cut(s, c).len() > 0,
    decreases s.len(),
{ if s.len() > 0 { cut_some(s.drop_last(), c); } }
pub proof fn cut_free(s: Seq<char>, c: char)
    requires free(s, c),
    ensures cut(s, c) == seq![s],
    decreases s.len(),
{ if s.len() > 0 { cut_free(s.drop_last(), c); assert(s.drop_last().push(s.last()) =~= s); assert(cut(s, c) =~= seq![s]); } else { assert(s =~= Seq::empty()); } }
pub proof fn cut_cat(s: Seq<char>, t: Seq<char>, c: char)
    ensures cut(s + seq![c] + t, c) == cut(s, c) + cut(t, c),
    decreases t.len(),
{
    let w = s + seq![c] + t;
    cut_some(t, c);
    if t.len() > 0 {
        cut_cat(s, t.drop_last(), c);
        cut_some(t.drop_last(), c);
        assert(w.drop_last() =~= s + seq![c] + t.drop_last());
        assert(cut(w, c) =~= cut(s, c) + cut(t, c));
    } else {
        assert(w =~= s.push(c));
        assert(w.drop_last() =~= s);
        assert(cut(w, c) =~= cut(s, c) + cut(t, c));
    }
}
pub proof fn unpair_free(s: Seq<char>, a: char, b: char)
    requires forall|i: int| 0 <= i && i + 1 < s.len() ==> s[i] != a || #[trigger] s[i + 1] != b,
    ensures unpair(s, a, b) == s,
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i && i + 1 < s.skip(1).len() implies s.skip(1)[i] != a || #[trigger] s.skip(1)[i + 1] != b by { assert(s[i + 1] != a || s[i + 1 + 1] != b); }
        if s.len() >= 2 { let k = 0int; assert(s[k] != a || s[k + 1] != b); }
        unpair_free(s.skip(1), a, b);
        assert(seq![s[0]] + s.skip(1) =~= s);
    } else { assert(s =~= Seq::empty()); }
}
pub proof fn unpair_cat(s: Seq<char>, t: Seq<char>, a: char, b: char)
    requires free(s, a),
    ensures unpair(s + t, a, b) == s + unpair(t, a, b),
    decreases s.len(),
{
    if s.len() > 0 {
        assert((s + t).skip(1) =~= s.skip(1) + t);
        unpair_cat(s.skip(1), t, a, b);
        assert(seq![s[0]] + (s.skip(1) + unpair(t, a, b)) =~= s + unpair(t, a, b));
    } else { assert(s + t =~= t); assert(s + unpair(t, a, b) =~= unpair(t, a, b)); }
}
// ------------------------------------------------------------------ what the repair makes of each argument
pub open spec fn slash_quote() -> Seq<char> { seq!['\\', '"'] }
pub open spec fn slash() -> Seq<char> { seq!['\\'] }
pub open spec fn blank() -> Seq<char> { seq![' '] }
pub open spec fn quoted(s: Seq<char>) -> bool { !free(s, '"') }
// quotes in it: odd or not
pub open spec fn odd(s: Seq<char>) -> bool
    decreases s.len()
{ if s.len() == 0 { false } else { odd(s.drop_last()) != (s.last() == '"') } }
pub open spec fn all_words(p: Seq<Seq<char>>) -> Seq<Seq<char>>
    decreases p.len()
{ if p.len() == 0 { Seq::empty() } else { all_words(p.drop_last()) + (if p.last().len() == 0 { Seq::empty() } else { cut(p.last(), ' ') }) } }
pub open spec fn taken_apart(s: Seq<char>) -> Seq<Seq<char>> {
    let parts = cut(unpair(subst(s, '"', slash_quote()), '"', ' '), '"');
    seq![parts[0]] + all_words(parts.skip(1))
}
pub open spec fn joined_on(out: Seq<Seq<char>>, s: Seq<char>) -> Seq<Seq<char>> {
    let parts = cut(subst(s, '"', slash()), ' ');
    out.drop_last().push(out.last() + blank() + parts[0]) + parts.skip(1)
}
pub open spec fn turn(out: Seq<Seq<char>>, broken: bool, s: Seq<char>) -> Seq<Seq<char>> {
    if broken { joined_on(out, s) } else if quoted(s) { out + taken_apart(s) } else { out.push(s) }
}
pub open spec fn run(out: Seq<Seq<char>>, broken: bool, args: Seq<Seq<char>>) -> Seq<Seq<char>>
    decreases args.len()
{ if args.len() == 0 { out } else { run(turn(out, broken, args[0]), broken != odd(args[0]), args.skip(1)) } }
// ------------------------------------------------------------------ what the game was told, and what arrives
// an argument: its words, and whether it ends in a backslash within its quotes
pub struct Item { pub words: Seq<Seq<char>>, pub slash: bool }
pub open spec fn word(s: Seq<char>) -> bool { s.len() > 0 && free(s, ' ') && free(s, '"') }
pub open spec fn item_ok(a: Item) -> bool { a.words.len() > 0 && forall|i: int| 0 <= i < a.words.len() ==> word(#[trigger] a.words[i]) }
pub open spec fn items_ok(a: Seq<Item>) -> bool { forall|i: int| 0 <= i < a.len() ==> item_ok(#[trigger] a[i]) }
pub open spec fn tied(w: Seq<Seq<char>>) -> Seq<char>
    decreases w.len()
{ if w.len() == 0 { Seq::empty() } else if w.len() == 1 { w[0] } else { tied(w.drop_last()) + blank() + w.last() } }
pub open spec fn text(a: Item) -> Seq<char> { if a.slash { tied(a.words) + slash() } else { tied(a.words) } }
pub open spec fn texts(a: Seq<Item>) -> Seq<Seq<char>> { a.map_values(|x: Item| text(x)) }
pub open spec fn quote() -> Seq<char> { seq!['"'] }
// outside of quotes: an argument arrives as it is, until a backslash hides a closing quote
pub open spec fn outside(a: Seq<Item>) -> Seq<Seq<char>>
    decreases a.len()
{
    if a.len() == 0 { Seq::empty() }
    else if a[0].slash { inside(a.skip(1), tied(a[0].words) + quote()) }
    else { seq![tied(a[0].words)] + outside(a.skip(1)) }
}
// inside of quotes that were not closed: the blanks between arguments are part of one, those within end one
pub open spec fn inside(a: Seq<Item>, cur: Seq<char>) -> Seq<Seq<char>>
    decreases a.len()
{
    if a.len() == 0 { seq![cur] }
    else {
        let w = a[0].words;
        let rest = a.skip(1);
        let n = w.len() as int;
        let last = if n == 1 { cur + blank() + w[0] } else { w[n - 1] };
        let before = if n == 1 { Seq::empty() } else { seq![cur + blank() + w[0]] + w.subrange(1, n - 1) };
        before + (if a[0].slash { seq![last + quote()] + outside(rest) } else { inside(rest, last) })
    }
}

pub open spec fn words_ok(w: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < w.len() ==> word(#[trigger] w[i]) }
pub open spec fn plain(w: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < w.len() ==> free(#[trigger] w[i], ' ') && w[i].len() > 0 }
pub proof fn cut_tied(w: Seq<Seq<char>>)
    requires w.len() > 0, plain(w),
    ensures cut(tied(w), ' ') == w, tied(w).len() > 0,
    decreases w.len(),
{
    assert(free(w.last(), ' '));
    cut_free(w.last(), ' ');
    if w.len() == 1 { assert(w =~= seq![w[0]]); }
    else {
        assert forall|i: int| 0 <= i < w.drop_last().len() implies free(#[trigger] w.drop_last()[i], ' ') && w.drop_last()[i].len() > 0 by { assert(free(w[i], ' ')); }
        cut_tied(w.drop_last());
        cut_cat(tied(w.drop_last()), w.last(), ' ');
        assert(w.drop_last() + seq![w.last()] =~= w);
    }
}
pub proof fn tied_free(w: Seq<Seq<char>>)
    requires words_ok(w),
    ensures free(tied(w), '"'),
    decreases w.len(),
{
    if w.len() > 1 {
        assert forall|i: int| 0 <= i < w.drop_last().len() implies word(#[trigger] w.drop_last()[i]) by { assert(word(w[i])); }
        tied_free(w.drop_last());
        assert(word(w.last()));
    } else if w.len() == 1 { assert(word(w[0])); }
}
pub proof fn odd_cat(s: Seq<char>, t: Seq<char>)
    ensures odd(s + t) == (odd(s) != odd(t)),
    decreases t.len(),
{ if t.len() > 0 { odd_cat(s, t.drop_last()); assert((s + t).drop_last() =~= s + t.drop_last()); } else { assert(s + t =~= s); } }
pub proof fn odd_free(s: Seq<char>)
    requires free(s, '"'),
    ensures !odd(s),
    decreases s.len(),
{ if s.len() > 0 { odd_free(s.drop_last()); } }
pub proof fn odd_one() ensures odd(quote()) { assert(quote().drop_last() =~= Seq::<char>::empty()); reveal_with_fuel(odd, 2); }
pub open spec fn spaced(w: Seq<Seq<char>>) -> Seq<char> { if w.len() == 0 { Seq::empty() } else { blank() + tied(w) } }
// the last word ends in the backslash
pub open spec fn slashed(w: Seq<Seq<char>>) -> Seq<Seq<char>> { w.drop_last().push(w.last() + slash()) }
pub proof fn tied_slashed(w: Seq<Seq<char>>)
    requires w.len() > 0,
    ensures tied(slashed(w)) == tied(w) + slash(),
{
    assert(slashed(w).drop_last() =~= w.drop_last());
    assert(slashed(w).last() == w.last() + slash());
    if w.len() > 1 { assert(tied(w.drop_last()) + blank() + (w.last() + slash()) =~= tied(w) + slash()); }
}
pub proof fn slashed_plain(w: Seq<Seq<char>>)
    requires w.len() > 0, words_ok(w),
    ensures plain(slashed(w)), plain(w),
{
    assert forall|i: int| 0 <= i < w.len() implies free(#[trigger] w[i], ' ') && w[i].len() > 0 by { assert(word(w[i])); }
    assert forall|i: int| 0 <= i < slashed(w).len() implies free(#[trigger] slashed(w)[i], ' ') && slashed(w)[i].len() > 0 by { assert(word(w[i])); }
}
pub proof fn words_two(p: Seq<Seq<char>>, x: Seq<char>)
    requires p =~= seq![x] || p =~= seq![x, Seq::empty()],
    ensures all_words(p) == (if x.len() == 0 { Seq::empty() } else { cut(x, ' ') }),
{
    let e = if x.len() == 0 { Seq::<Seq<char>>::empty() } else { cut(x, ' ') };
    assert(seq![x].drop_last() =~= Seq::<Seq<char>>::empty());
    reveal_with_fuel(all_words, 3);
    assert(all_words(seq![x]) =~= e);
    if p.len() == 2 { assert(p.drop_last() =~= seq![x]); assert(all_words(p) =~= e); } else { assert(p =~= seq![x]); }
}
// ---- the first argument of a broken part
pub proof fn apart(stem: Seq<char>, w: Seq<Seq<char>>, closed: bool)
    requires free(stem, '"'), words_ok(w), closed ==> w.len() > 0,
    ensures taken_apart(stem + quote() + spaced(w) + (if closed { quote() } else { Seq::empty() })) == seq![stem + slash()] + (if closed { slashed(w) } else { w }),
{
    let tail = if closed { quote() } else { Seq::<char>::empty() };
    let tail2 = if closed { slash_quote() } else { Seq::<char>::empty() };
    let s = stem + quote() + spaced(w) + tail;
    tied_free(w);
    assert(free(spaced(w), '"'));
    subst_cat(stem + quote() + spaced(w), tail, '"', slash_quote());
    subst_cat(stem + quote(), spaced(w), '"', slash_quote());
    subst_cat(stem, quote(), '"', slash_quote());
    subst_free(stem, '"', slash_quote());
    subst_free(spaced(w), '"', slash_quote());
    subst_one('"', slash_quote());
    if !closed { subst_free(tail, '"', slash_quote()); }
    let t = subst(s, '"', slash_quote());
    assert(t == stem + slash_quote() + spaced(w) + tail2);
    let head = stem + slash();
    assert(t =~= head + (quote() + spaced(w) + tail2));
    let body = quote() + spaced(w) + tail2;
    unpair_cat(head, body, '"', ' ');
    let inner = tied(w) + (if closed { slash() } else { Seq::empty() });
    let x = if w.len() == 0 { Seq::<char>::empty() } else { inner };
    let end = if closed { quote() } else { Seq::<char>::empty() };
    if w.len() == 0 {
        assert(body =~= quote());
        unpair_free(body, '"', ' ');
        assert(unpair(body, '"', ' ') =~= quote() + x + end);
    } else {
        assert(body.skip(2) =~= x + end);
        assert(body[0] == '"' && body[1] == ' ');
        unpair_free(x + end, '"', ' ');
        assert(unpair(body, '"', ' ') =~= quote() + x + end);
    }
    let u = unpair(t, '"', ' ');
    assert(u =~= head + seq!['"'] + (x + end));
    cut_cat(head, x + end, '"');
    cut_free(head, '"');
    assert(free(x, '"'));
    cut_free(x, '"');
    if closed {
        assert(x + end =~= x + seq!['"'] + Seq::<char>::empty());
        cut_cat(x, Seq::empty(), '"');
        cut_free(Seq::empty(), '"');
    } else { assert(x + end =~= x); }
    let parts = cut(u, '"');
    assert(parts[0] == head);
    words_two(parts.skip(1), x);
    if w.len() > 0 {
        slashed_plain(w);
        if closed { tied_slashed(w); cut_tied(slashed(w)); } else { assert(x =~= tied(w)); cut_tied(w); }
    } else { assert(w =~= Seq::<Seq<char>>::empty()); }
}
pub open spec fn cur_of(first: bool, stem: Seq<char>, w: Seq<Seq<char>>) -> Seq<char> { if first { stem + quote() + spaced(w) } else { tied(w) } }
pub open spec fn before(out: Seq<Seq<char>>, first: bool, stem: Seq<char>) -> Seq<Seq<char>> { if first { out } else { out.push(stem) } }
pub open spec fn after(out: Seq<Seq<char>>, first: bool, stem: Seq<char>, w: Seq<Seq<char>>) -> Seq<Seq<char>> {
    if first { out.push(stem + slash()) + w } else { out.push(stem + blank() + w[0]) + w.skip(1) }
}
pub proof fn cur_more(first: bool, stem: Seq<char>, w: Seq<Seq<char>>, x: Seq<char>)
    requires first || w.len() > 0,
    ensures cur_of(first, stem, w) + blank() + x == cur_of(first, stem, w.push(x)),
{
    assert(w.push(x).drop_last() =~= w);
    if w.len() == 0 { assert(stem + quote() + Seq::<char>::empty() + blank() + x =~= stem + quote() + (blank() + x)); }
    else { assert(stem + quote() + (blank() + tied(w)) + blank() + x =~= stem + quote() + (blank() + (tied(w) + blank() + x))); }
}
pub proof fn step(out: Seq<Seq<char>>, first: bool, stem: Seq<char>, w: Seq<Seq<char>>, closed: bool)
    requires first ==> free(stem, '"'), words_ok(w), !first || closed ==> w.len() > 0,
    ensures ({
        let cur = cur_of(first, stem, w) + (if closed { quote() } else { Seq::empty() });
        &&& turn(before(out, first, stem), !first, cur) == after(out, first, stem, if closed { slashed(w) } else { w })
        &&& odd(cur) == (first != closed)
    }),
{
    let tail = if closed { quote() } else { Seq::<char>::empty() };
    let cur = cur_of(first, stem, w) + tail;
    tied_free(w);
    odd_one();
    odd_free(tied(w));
    odd_cat(cur_of(first, stem, w), tail);
    if first {
        apart(stem, w, closed);
        assert(free(spaced(w), '"'));
        odd_cat(stem + quote(), spaced(w));
        odd_cat(stem, quote());
        odd_free(stem);
        odd_free(spaced(w));
        assert(cur[stem.len() as int] == '"');
        assert(quoted(cur));
        let p = if closed { slashed(w) } else { w };
        assert(out + (seq![stem + slash()] + p) =~= out.push(stem + slash()) + p);
    } else {
        slashed_plain(w);
        subst_cat(tied(w), tail, '"', slash());
        subst_free(tied(w), '"', slash());
        if closed { subst_one('"', slash()); tied_slashed(w); cut_tied(slashed(w)); } else { subst_free(tail, '"', slash()); assert(tied(w) + tail =~= tied(w)); cut_tied(w); }
        assert(out.push(stem).drop_last() =~= out);
    }
}
// words arriving one by one are put back together
pub proof fn rejoined(out: Seq<Seq<char>>, w: Seq<Seq<char>>, more: Seq<Seq<char>>, tail: Seq<Seq<char>>)
    requires w.len() > 0, words_ok(more),
    ensures run(out.push(tied(w)), true, more + tail) == run(out.push(tied(w + more)), true, tail),
    decreases more.len(),
{
    if more.len() > 0 {
        let x = more[0];
        assert(word(x));
        step(out, false, tied(w), seq![x], false);
        assert(tied(seq![x]) == x);
        assert(cur_of(false, tied(w), seq![x]) + Seq::<char>::empty() =~= x);
        assert(w.push(x).drop_last() =~= w);
        assert(tied(w.push(x)) == tied(w) + blank() + x);
        assert(after(out, false, tied(w), seq![x]) =~= out.push(tied(w.push(x))));
        let all = more + tail;
        assert(all.skip(1) =~= more.skip(1) + tail);
        assert forall|i: int| 0 <= i < more.skip(1).len() implies word(#[trigger] more.skip(1)[i]) by { assert(word(more[i + 1])); }
        rejoined(out, w.push(x), more.skip(1), tail);
        assert(w.push(x) + more.skip(1) =~= w + more);
    } else { assert(more + tail =~= tail); assert(w + more =~= w); }
}
pub proof fn texts_more(a: Seq<Item>)
    requires a.len() > 0,
    ensures texts(a) == seq![text(a[0])] + texts(a.skip(1)),
{ assert(texts(a) =~= seq![text(a[0])] + texts(a.skip(1))); }
pub proof fn rest_ok(a: Seq<Item>) requires a.len() > 0, items_ok(a) ensures items_ok(a.skip(1)), item_ok(a[0]) {
    assert forall|i: int| 0 <= i < a.skip(1).len() implies item_ok(#[trigger] a.skip(1)[i]) by { assert(item_ok(a[i + 1])); }
}
pub proof fn one(out: Seq<Seq<char>>, b: bool, x: Seq<char>, more: Seq<Seq<char>>)
    ensures run(out, b, seq![x] + more) == run(turn(out, b, x), b != odd(x), more),
{ assert((seq![x] + more).skip(1) =~= more); }
// THEOREM: what was told arrives, although closing quotes were hidden by a backslash
pub proof fn arrives(a: Seq<Item>, out: Seq<Seq<char>>)
    requires items_ok(a),
    ensures run(out, false, outside(a)) == out + texts(a),
    decreases a.len(), 0nat,
{
    if a.len() > 0 {
        rest_ok(a);
        texts_more(a);
        let p = tied(a[0].words);
        tied_free(a[0].words);
        if a[0].slash {
            assert(p + quote() =~= cur_of(true, p, Seq::empty()));
            arrives_inside(a.skip(1), out, true, p, Seq::empty());
            assert(after(out, true, p, Seq::empty()) + texts(a.skip(1)) =~= out + texts(a));
        } else {
            odd_free(p);
            one(out, false, p, outside(a.skip(1)));
            arrives(a.skip(1), out.push(p));
            assert(out.push(p) + texts(a.skip(1)) =~= out + texts(a));
        }
    } else { assert(out + texts(a) =~= out); }
}
pub proof fn arrives_inside(a: Seq<Item>, out: Seq<Seq<char>>, first: bool, stem: Seq<char>, ws: Seq<Seq<char>>)
    requires items_ok(a), first ==> free(stem, '"'), words_ok(ws), first || ws.len() > 0,
    ensures run(before(out, first, stem), !first, inside(a, cur_of(first, stem, ws))) == after(out, first, stem, ws) + texts(a),
    decreases a.len(), 1nat,
{
    let b = before(out, first, stem);
    let cur = cur_of(first, stem, ws);
    if a.len() == 0 {
        step(out, first, stem, ws, false);
        assert(cur + Seq::<char>::empty() =~= cur);
        assert(seq![cur] =~= seq![cur] + Seq::<Seq<char>>::empty());
        one(b, !first, cur, Seq::empty());
        assert(after(out, first, stem, ws) + texts(a) =~= after(out, first, stem, ws));
    } else {
        rest_ok(a);
        texts_more(a);
        let rest = a.skip(1);
        let w = a[0].words;
        let n = w.len() as int;
        let w0 = w[0];
        assert(word(w0));
        let ws1 = ws.push(w0);
        assert(words_ok(ws1)) by { assert forall|i: int| 0 <= i < ws1.len() implies word(#[trigger] ws1[i]) by { if i < ws.len() { assert(word(ws[i])); } } }
        cur_more(first, stem, ws, w0);
        let cur1 = cur_of(first, stem, ws1);
        assert(cur1 + Seq::<char>::empty() =~= cur1);
        if n == 1 {
            assert(w =~= seq![w0]);
            if a[0].slash {
                step(out, first, stem, ws1, true);
                let done = after(out, first, stem, slashed(ws1));
                assert(inside(a, cur) =~= seq![cur1 + quote()] + outside(rest));
                one(b, !first, cur1 + quote(), outside(rest));
                arrives(rest, done);
                assert(done + texts(rest) =~= after(out, first, stem, ws) + texts(a));
            } else {
                assert(inside(a, cur) =~= inside(rest, cur1));
                arrives_inside(rest, out, first, stem, ws1);
                assert(after(out, first, stem, ws1) + texts(rest) =~= after(out, first, stem, ws) + texts(a));
            }
        } else {
            let mid = w.subrange(1, n - 1);
            let z = w[n - 1];
            assert(word(z));
            assert(words_ok(mid)) by { assert forall|i: int| 0 <= i < mid.len() implies word(#[trigger] mid[i]) by { assert(word(w[i + 1])); } }
            let tail = if a[0].slash { seq![z + quote()] + outside(rest) } else { inside(rest, z) };
            assert(inside(a, cur) =~= seq![cur1] + (mid + tail));
            step(out, first, stem, ws1, false);
            one(b, !first, cur1, mid + tail);
            // the argument's first word is the last entry; its other words follow one by one
            let done = after(out, first, stem, ws1);
            assert(done.len() > 0);
            let front = after(out, first, stem, ws);
            assert(done =~= front.push(w0));
            assert(tied(seq![w0]) == w0);
            rejoined(front, seq![w0], mid, tail);
            let so_far = seq![w0] + mid;
            let l = tied(so_far);
            assert(so_far =~= w.drop_last());
            let zz = seq![z];
            assert(tied(zz) == z);
            assert(words_ok(zz));
            if a[0].slash {
                step(front, false, l, zz, true);
                assert(cur_of(false, l, zz) + quote() =~= z + quote());
                one(front.push(l), true, z + quote(), outside(rest));
                let end = after(front, false, l, slashed(zz));
                assert(slashed(zz) =~= seq![z + slash()]);
                assert(l + blank() + (z + slash()) =~= tied(w) + slash());
                assert(end =~= front.push(text(a[0])));
                arrives(rest, end);
                assert(end + texts(rest) =~= front + texts(a));
            } else {
                assert(cur_of(false, l, zz) =~= z);
                arrives_inside(rest, front, false, l, zz);
                assert(after(front, false, l, zz) =~= front.push(text(a[0])));
                assert(front.push(text(a[0])) + texts(rest) =~= front + texts(a));
            }
        }
    }
}
// THEOREM: whatever was told, the options see
pub open spec fn filled(s: Seq<Seq<char>>) -> Seq<Seq<char>> { s.filter(|x: Seq<char>| x.len() > 0) }
pub proof fn all_filled(s: Seq<Seq<char>>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len() > 0,
    ensures filled(s) == s,
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i]).len() > 0 by { assert(s[i].len() > 0); }
        all_filled(s.drop_last());
        assert(s.drop_last().push(s.last()) =~= s);
    } else { assert(filled(s) =~= s); }
}
pub proof fn told(a: Seq<Item>)
    requires items_ok(a),
    ensures filled(run(Seq::empty(), false, outside(a))) == texts(a),
{
    arrives(a, Seq::empty());
    assert(Seq::<Seq<char>>::empty() + texts(a) =~= texts(a));
    assert forall|i: int| 0 <= i < texts(a).len() implies (#[trigger] texts(a)[i]).len() > 0 by {
        assert(item_ok(a[i]));
        let w = a[i].words;
        assert(plain(w)) by { assert forall|k: int| 0 <= k < w.len() implies free(#[trigger] w[k], ' ') && w[k].len() > 0 by { assert(word(w[k])); } }
        cut_tied(w);
    }
    all_filled(texts(a));
}
// ... and arguments without quotes and blanks at all are only freed of empty ones
pub proof fn untouched(out: Seq<Seq<char>>, s: Seq<Seq<char>>)
    requires forall|i: int| 0 <= i < s.len() ==> free(#[trigger] s[i], '"'),
    ensures run(out, false, s) == out + s,
    decreases s.len(),
{
    if s.len() > 0 {
        assert(free(s[0], '"'));
        odd_free(s[0]);
        assert forall|i: int| 0 <= i < s.skip(1).len() implies free(#[trigger] s.skip(1)[i], '"') by { assert(free(s[i + 1], '"')); }
        untouched(out.push(s[0]), s.skip(1));
        assert(out.push(s[0]) + s.skip(1) =~= out + s);
    } else { assert(out + s =~= out); }
}
// ------------------------------------------------------------------ lists of texts
pub open spec fn strs(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|x: String| x@) }
pub open spec fn refs(s: Seq<&str>) -> Seq<Seq<char>> { s.map_values(|x: &str| x@) }
pub open spec fn number(s: Seq<char>, c: char) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { number(s.drop_last(), c) + (if s.last() == c { 1nat } else { 0 }) } }
pub proof fn number_odd(s: Seq<char>)
    ensures odd(s) == (number(s, '"') % 2 == 1), (number(s, '"') == 0) == free(s, '"'),
    decreases s.len(),
{
    if s.len() > 0 {
        number_odd(s.drop_last());
        if free(s, '"') { assert(free(s.drop_last(), '"')); }
        if free(s.drop_last(), '"') && s.last() != '"' { assert forall|i: int| 0 <= i < s.len() implies s[i] != '"' by { if i < s.len() - 1 { assert(s.drop_last()[i] != '"'); } } }
    }
}
// every f replaced by t, from the front
pub open spec fn exchanged(s: Seq<char>, f: Seq<char>, t: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if 0 < f.len() <= s.len() && s.take(f.len() as int) == f { t + exchanged(s.skip(f.len() as int), f, t) }
    else { seq![s[0]] + exchanged(s.skip(1), f, t) }
}
pub proof fn exchanged_pair(s: Seq<char>)
    ensures exchanged(s, seq!['"', ' '], seq!['"']) == unpair(s, '"', ' '),
    decreases s.len(),
{
    let f = seq!['"', ' '];
    if s.len() > 0 {
        exchanged_pair(s.skip(1));
        if s.len() >= 2 {
            exchanged_pair(s.skip(2));
            if s[0] == '"' && s[1] == ' ' { assert(s.take(2) =~= f); } else { assert(s.take(2)[0] == s[0] && s.take(2)[1] == s[1]); }
        }
    }
}
pub proof fn literals()
    ensures "\\\""@ == slash_quote(), "\\"@ == slash(), "\" "@ == seq!['"', ' '], "\""@ == seq!['"'],
{
    reveal_strlit("\\\""); reveal_strlit("\\"); reveal_strlit("\" "); reveal_strlit("\"");
    assert("\\\""@ =~= slash_quote()); assert("\\"@ =~= slash()); assert("\" "@ =~= seq!['"', ' ']); assert("\""@ =~= seq!['"']);
}
// ------------------------------------------------------------------ std: assumed
#[verifier::external_body]
pub fn has_char(s: &String, c: char) -> (r: bool) ensures r == !free(s@, c) { unimplemented!() }
#[verifier::external_body]
pub fn count_char(s: &String, c: char) -> (r: usize) ensures r == number(s@, c) { unimplemented!() }
#[verifier::external_body]
pub fn swap_char(s: &String, c: char, t: &str) -> (r: String) ensures r@ == subst(s@, c, t@) { unimplemented!() }
#[verifier::external_body]
pub fn swap_text(s: &String, f: &str, t: &str) -> (r: String) ensures r@ == exchanged(s@, f@, t@) { unimplemented!() }
#[verifier::external_body]
pub fn split_string(s: &String, c: char) -> (r: Vec<&str>) ensures refs(r@) == cut(s@, c), r@.len() > 0 { unimplemented!() }
#[verifier::external_body]
pub fn split_str<'a>(s: &'a str, c: char) -> (r: Vec<&'a str>) ensures refs(r@) == cut(s@, c), r@.len() > 0 { unimplemented!() }
#[verifier::external_body]
pub fn owned(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn no_text(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
#[verifier::external_body]
pub fn no_text_of(s: &String) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
#[verifier::external_body]
pub fn blank_between(a: &String, b: &str) -> (r: String) ensures r@ == a@ + blank() + b@ { unimplemented!() }
#[verifier::external_body]
pub fn blank_between_strings(a: &String, b: &String) -> (r: String) ensures r@ == a@ + blank() + b@ { unimplemented!() }
#[verifier::external_body]
pub fn retain_by<G: Fn(&String) -> bool>(v: &mut Vec<String>, f: G)
    requires forall|i: int| 0 <= i < old(v)@.len() ==> f.requires((&#[trigger] old(v)@[i],)), forall|x: &String, b: bool| #[trigger] f.ensures((x,), b) ==> b == (x@.len() > 0),
    ensures strs(final(v)@) == filled(strs(old(v)@))
{ unimplemented!() }
pub fn take_first<T>(v: &mut Vec<T>) -> (r: T)
    requires old(v)@.len() > 0
    ensures r == old(v)@[0], final(v)@ == old(v)@.skip(1)
{ let r = v.remove(0); assert(v@ =~= old(v)@.skip(1)); r }
"""

# texts put at the end, one after the other
MORE = "strs(fixed_args@) == f{n} + gone{n}, gone{n} + refs({v}@) == all{n}, fixed_args@.len() > 0,"


def build(repo):
    u = Unit("options", repo)
    u.raw(SPEC)
    u.global_rw = RW
    u.fn(O, "fix_args", F("ensures strs(r@) == filled(run(Seq::empty(), false, strs(args@))),",
        attrs="#[verifier::loop_isolation(false)]",
        pre="hide(cut); hide(subst); hide(unpair); hide(exchanged); hide(number); hide(odd); hide(tied); hide(outside); hide(inside); let ghost told = strs(args@); proof { literals(); }",
        loops=[L("while", "run(Seq::empty(), false, told) == run(strs(fixed_args@), broken, strs(rest@)), broken ==> fixed_args@.len() > 0,", dec="rest@.len()",
                 pre="proof { assert(strs(fixed_args@) =~= Seq::empty()); assert(strs(rest@) =~= told); }",
                 start="let ghost r0 = strs(rest@); let ghost o0 = strs(fixed_args@); let ghost b0 = broken; let ghost s0 = r0[0]; proof { number_odd(s0); let q0 = subst(s0, '\"', slash()); if free(s0, '\"') { subst_free(s0, '\"', slash()); } cut_some(q0, ' '); if free(q0, ' ') { cut_free(q0, ' '); } }",
                 post="proof { assert(strs(rest@) =~= r0.skip(1)); assert(strs(fixed_args@) =~= turn(o0, b0, s0)); }"),
               L("while", "strs(fixed_args@) == f2 + all_words(gone2), gone2 + refs(todo@) == all2, fixed_args@.len() > 0,", dec="todo@.len()",
                 pre="let ghost f2 = strs(fixed_args@); let ghost all2 = refs(todo@); let ghost mut gone2: Seq<Seq<char>> = Seq::empty(); proof { assert(gone2 + all2 =~= all2); assert(f2 + all_words(gone2) =~= f2); let t0 = subst(s0, '\"', slash_quote()); exchanged_pair(t0); let parts0 = cut(unpair(t0, '\"', ' '), '\"'); assert(f2 =~= o0.push(parts0[0])); assert(all2 =~= parts0.skip(1)); }",
                 start="let ghost t2 = refs(todo@); let ghost g2 = gone2; proof { gone2 = gone2.push(t2[0]); assert(gone2.drop_last() =~= g2); assert(gone2 + t2.skip(1) =~= g2 + t2); assert(all_words(g2) + Seq::<Seq<char>>::empty() =~= all_words(g2)); assert(f2 + (all_words(g2) + Seq::<Seq<char>>::empty()) =~= f2 + all_words(g2)); assert(refs(todo@.skip(1)) =~= t2.skip(1)); }",
                 post="proof { assert(strs(fixed_args@) =~= f2 + all_words(gone2)); }",
                 done="proof { assert(gone2 =~= all2); assert(strs(fixed_args@) =~= turn(o0, b0, s0)); }"),
               L("while", MORE.format(n=3, v="cuts"), dec="cuts@.len()",
                 pre="let ghost f3 = strs(fixed_args@); let ghost all3 = refs(cuts@); let ghost mut gone3: Seq<Seq<char>> = Seq::empty(); proof { assert(gone3 + all3 =~= all3); assert(f3 + gone3 =~= f3); }",
                 start="let ghost o3 = strs(fixed_args@); let ghost c3 = refs(cuts@); proof { let g = gone3; gone3 = gone3.push(c3[0]); assert(gone3 + c3.skip(1) =~= g + c3); assert(refs(cuts@.skip(1)) =~= c3.skip(1)); }",
                 post="proof { assert(strs(fixed_args@) =~= o3.push(c3[0])); assert(strs(fixed_args@) =~= f3 + gone3); }",
                 done="proof { assert(gone3 =~= all3); }"),
               L("while", MORE.format(n=4, v="todo"), dec="todo@.len()",
                 pre="let ghost f4 = strs(fixed_args@); let ghost all4 = refs(todo@); let ghost mut gone4: Seq<Seq<char>> = Seq::empty(); proof { assert(gone4 + all4 =~= all4); assert(f4 + gone4 =~= f4); let cut0 = cut(subst(s0, '\"', slash()), ' '); assert(all4 =~= cut0.skip(1)); assert(f4 =~= o0.drop_last().push(o0.last() + blank() + cut0[0])); }",
                 start="let ghost o4 = strs(fixed_args@); let ghost c4 = refs(todo@); proof { let g = gone4; gone4 = gone4.push(c4[0]); assert(gone4 + c4.skip(1) =~= g + c4); assert(refs(todo@.skip(1)) =~= c4.skip(1)); }",
                 post="proof { assert(strs(fixed_args@) =~= o4.push(c4[0])); assert(strs(fixed_args@) =~= f4 + gone4); }",
                 done="proof { assert(gone4 =~= all4); assert(strs(fixed_args@) =~= turn(o0, b0, s0)); }")]))
    return u
