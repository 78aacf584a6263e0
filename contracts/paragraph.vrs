// src/paragraph.rs: the text of paragraphs
//@include prelude.vrs
//@include pulldown.vrs
//@use utils.vrs
//@use escape.vrs
//@use html.vrs
pub mod paragraph {
use vstd::prelude::*;
use crate::prelude::*;
use crate::pulldown::*;
use crate::utils::*;
use crate::escape::*;
verus! {
broadcast use group_prelude;

//@type writer.rs MarkdownContext
/// Verified in the unit links; its result doesn't matter here
#[verifier::external_body]
pub fn is_balanced(s: &str, opener: char, closer: char) -> bool { unimplemented!() }
/// A regular expression decides; its result doesn't matter here
#[verifier::external_body]
pub fn could_be_table(text: &str) -> bool { unimplemented!() }

// ------------------------------------------------------------------------------------------------ words
pub open spec fn sep(c: char) -> bool { c == ' ' || c == '\n' }
/// The words before the last separator, and what follows it
pub open spec fn toks(s: Seq<char>) -> (Seq<Seq<char>>, Seq<char>)
    decreases s.len()
{
    if s.len() == 0 { (seq![], seq![]) }
    else {
        let (d, c) = toks(s.drop_last());
        if !sep(s.last()) { (d, c.push(s.last())) } else if c.len() == 0 { (d, c) } else { (d.push(c), seq![]) }
    }
}
/// The words of a text, which spaces and line feeds separate
pub open spec fn words(s: Seq<char>) -> Seq<Seq<char>> {
    let (d, c) = toks(s);
    if c.len() == 0 { d } else { d.push(c) }
}
proof fn lemma_toks_add(a: Seq<char>, b: Seq<char>)
    requires toks(a).1.len() == 0,
    ensures toks(a + b).0 == toks(a).0 + toks(b).0, toks(a + b).1 == toks(b).1,
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(toks(a).0 + toks(b).0 =~= toks(a).0);
        assert(toks(a).1 =~= toks(b).1);
    } else {
        lemma_toks_add(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        let (d, c) = toks(b.drop_last());
        assert((toks(a).0 + d).push(c) =~= toks(a).0 + d.push(c));
    }
}
pub open spec fn hb() -> Seq<char> { seq![' ', ' ', '\n'] }
proof fn lemma_words_break(a: Seq<char>, b: Seq<char>)
    ensures words(a + hb() + b) == words(a) + words(b),
{
    let x = a + hb();
    assert(x.drop_last() =~= a.push(' ').push(' '));
    assert(a.push(' ').push(' ').drop_last() =~= a.push(' '));
    assert(a.push(' ').drop_last() =~= a);
    reveal_with_fuel(toks, 5);
    assert(toks(x).0 == words(a) && toks(x).1.len() == 0);
    lemma_toks_add(x, b);
    let (d, c) = toks(b);
    assert((words(a) + d).push(c) =~= words(a) + d.push(c));
}
/// Only separators differ
pub open spec fn same_but_sep(a: Seq<char>, b: Seq<char>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == b[i] || (sep(a[i]) && sep(b[i]))
}
proof fn lemma_same_words(a: Seq<char>, b: Seq<char>)
    requires same_but_sep(a, b),
    ensures toks(a) == toks(b), words(a) == words(b),
    decreases a.len(),
{
    if a.len() > 0 {
        assert(a[a.len() - 1] == b[b.len() - 1] || (sep(a[a.len() - 1]) && sep(b[b.len() - 1])));
        assert forall|i: int| 0 <= i < a.len() - 1 implies #[trigger] a.drop_last()[i] == b.drop_last()[i] || (sep(a.drop_last()[i]) && sep(b.drop_last()[i])) by {
            assert(a[i] == b[i] || (sep(a[i]) && sep(b[i])));
        }
        lemma_same_words(a.drop_last(), b.drop_last());
    }
}

// ------------------------------------------------------------------------------------------------ textwrap
pub enum WordSeparator { AsciiSpace, UnicodeBreakProperties }
pub enum WordSplitter { NoHyphenation, HyphenSplitter }
pub enum WrapAlgorithm { FirstFit, OptimalFit }
/// textwrap::Options
pub struct TextWrapOptions { pub width: usize, pub break_words: bool, pub word_separator: WordSeparator, pub word_splitter: WordSplitter, pub wrap_algorithm: WrapAlgorithm }
impl TextWrapOptions {
    #[verifier::external_body]
    pub fn new(width: usize) -> (r: Self) ensures r.width == width { unimplemented!() }
    pub fn break_words(self, x: bool) -> (r: Self) ensures r == (TextWrapOptions { break_words: x, ..self }) { TextWrapOptions { break_words: x, ..self } }
    pub fn word_separator(self, x: WordSeparator) -> (r: Self) ensures r == (TextWrapOptions { word_separator: x, ..self }) { TextWrapOptions { word_separator: x, ..self } }
    pub fn word_splitter(self, x: WordSplitter) -> (r: Self) ensures r == (TextWrapOptions { word_splitter: x, ..self }) { TextWrapOptions { word_splitter: x, ..self } }
    pub fn wrap_algorithm(self, x: WrapAlgorithm) -> (r: Self) ensures r == (TextWrapOptions { wrap_algorithm: x, ..self }) { TextWrapOptions { wrap_algorithm: x, ..self } }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// textwrap::fill
pub uninterp spec fn filled(o: TextWrapOptions, text: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn vx_textwrap_fill(text: &str, o: TextWrapOptions) -> (r: String) ensures r@ == filled(o, text@) { unimplemented!() }
/// It breaks lines at spaces only
pub open spec fn at_spaces(o: TextWrapOptions) -> bool {
    !o.break_words && o.word_separator is AsciiSpace && o.word_splitter is NoHyphenation && o.wrap_algorithm is FirstFit
}
/// Trusted: with these options textwrap keeps all words (compared with textwrap itself by `vp-harness model`)
#[verifier::external_body]
pub proof fn ax_fill_words(o: TextWrapOptions, text: Seq<char>)
    requires at_spaces(o),
    ensures words(filled(o, text)) == words(text),
{}

/// The width textwrap counts
pub uninterp spec fn tw_width(line: Seq<char>) -> nat;
/// A line that is wider than this has nothing but one word
pub open spec fn fits(text: Seq<char>, w: usize) -> bool {
    forall|i: int| 0 <= i < split_p(text, pat('\n')).len() ==> tw_width(#[trigger] split_p(text, pat('\n'))[i]) <= w || !split_p(text, pat('\n'))[i].contains(' ')
}
/// Trusted (compared as above): the lines fit
#[verifier::external_body]
pub proof fn ax_fill_fits(o: TextWrapOptions, text: Seq<char>)
    requires at_spaces(o),
    ensures fits(filled(o, text), o.width),
{}
/// Trusted (compared as above): each line is wrapped by itself
#[verifier::external_body]
pub proof fn ax_fill_lines(o: TextWrapOptions, a: Seq<char>, b: Seq<char>)
    requires at_spaces(o),
    ensures filled(o, a + seq!['\n'] + b) == filled(o, a) + seq!['\n'] + filled(o, b),
{}

// ------------------------------------------------------------------------------------------------ reflowing
/// str::split_inclusive('\n')
pub open spec fn lines_incl(s: Seq<char>) -> Seq<Seq<char>>
    decreases s.len()
{
    let n = line_len(s) as int;
    if s.len() == 0 { seq![] } else if n >= s.len() { seq![s] } else { seq![s.take(n + 1)] + lines_incl(s.skip(n + 1)) }
}
pub trait VxMore {
    spec fn ms(&self) -> Seq<char>;
    fn vx_split_inclusive(&self, c: char) -> (r: VxIter<&str>)
        requires c == '\n',
        ensures r@.len() == lines_incl(self.ms()).len(), forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> r@[i]@ == lines_incl(self.ms())[i];
    fn vx_match_indices(&self, c: char) -> (r: VxIter<(usize, &str)>)
        ensures forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> bdy(self.ms(), r@[i].0 as int) && bdy(self.ms(), r@[i].0 + ulen(c)) && self.ms()[cix(self.ms(), r@[i].0 as int)] == c;
}
impl VxMore for str {
    open spec fn ms(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_split_inclusive(&self, c: char) -> (r: VxIter<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_match_indices(&self, c: char) -> (r: VxIter<(usize, &str)>) { unimplemented!() }
}
pub trait VxCapacity { fn vx_capacity(&self) -> usize; }
impl VxCapacity for String { #[verifier::external_body] fn vx_capacity(&self) -> usize { self.capacity() } }
proof fn lemma_line_len(s: Seq<char>)
    ensures
        line_len(s) <= s.len(),
        forall|i: int| 0 <= i < line_len(s) ==> #[trigger] s[i] != '\n',
        line_len(s) < s.len() ==> s[line_len(s) as int] == '\n',
    decreases s.len(),
{
    if s.len() > 0 && s[0] != '\n' {
        lemma_line_len(s.skip(1));
        assert forall|i: int| 0 <= i < line_len(s) implies #[trigger] s[i] != '\n' by {
            if i > 0 { assert(s[i] == s.skip(1)[i - 1]); }
        }
    }
}
proof fn lemma_lines_incl(s: Seq<char>)
    requires s.len() > 0,
    ensures ({
        let l = lines_incl(s);
        &&& l.len() > 0 && l[0].len() > 0
        &&& l[0] == s.take(l[0].len() as int) && l[0].len() <= s.len()
        &&& l.skip(1) == lines_incl(s.skip(l[0].len() as int))
        &&& forall|i: int| 0 <= i < l[0].len() - 1 ==> #[trigger] l[0][i] != '\n'
        &&& l[0].last() != '\n' ==> l[0].len() == s.len()
    }),
{
    lemma_line_len(s);
    let n = line_len(s) as int;
    let l = lines_incl(s);
    if n >= s.len() {
        assert(l[0] =~= s.take(s.len() as int));
        assert(s.skip(s.len() as int).len() == 0);
        assert(l.skip(1) =~= lines_incl(s.skip(s.len() as int)));
    } else {
        assert(l[0] == s.take(n + 1));
        assert(l.skip(1) =~= lines_incl(s.skip(n + 1)));
        assert(l[0].last() == s[n]);
    }
}
/// A line feed becomes a space, unless it is a hard break
pub open spec fn unfilled(s: Seq<char>) -> Seq<char> {
    Seq::new(s.len(), |i: int| if s[i] == '\n' && !(i > 0 && s[i - 1] == '\\') { ' ' } else { s[i] })
}
proof fn lemma_views(a: Seq<&str>, b: Seq<Seq<char>>)
    requires a.len() == b.len(), forall|i: int| #![trigger a[i]] 0 <= i < a.len() ==> a[i]@ == b[i], a.len() > 0,
    ensures forall|i: int| #![trigger a.skip(1)[i]] 0 <= i < a.len() - 1 ==> a.skip(1)[i]@ == b.skip(1)[i],
{
    assert forall|i: int| #![trigger a.skip(1)[i]] 0 <= i < a.len() - 1 implies a.skip(1)[i]@ == b.skip(1)[i] by { assert(a[i + 1]@ == b[i + 1]); }
}
//@fn paragraph.rs unfill
//@ret r
//@spec
    ensures r@ == unfilled(text@),
//@proof start
    proof { assert(text@.skip(0) =~= text@); assert(crate::paragraph::unfilled(text@).take(0) =~= Seq::<char>::empty()); }
//@loop 0
    invariant
        unfilled@.len() <= text@.len(),
        unfilled@ == crate::paragraph::unfilled(text@).take(unfilled@.len() as int),
        unfilled@.len() == 0 || unfilled@.len() == text@.len() || text@[unfilled@.len() - 1] == '\n',
        vx_it0@.len() == lines_incl(text@.skip(unfilled@.len() as int)).len(),
        forall|i: int| #![trigger vx_it0@[i]] 0 <= i < vx_it0@.len() ==> vx_it0@[i]@ == lines_incl(text@.skip(unfilled@.len() as int))[i],
    decreases vx_it0@.len(),
//@proof loop 0 begin
    let ghost vx_k = unfilled@.len() as int;
    let ghost vx_full = line@;
    proof {
        let rest = text@.skip(vx_k);
        assert(rest.len() > 0);
        lemma_lines_incl(rest);
        assert(line@ == lines_incl(rest)[0]);
        assert(rest.skip(line@.len() as int) =~= text@.skip(vx_k + line@.len()));
        assert forall|i: int| 0 <= i < line@.len() implies #[trigger] line@[i] == text@[vx_k + i] by {}
        assert(rest.take(line@.len() as int) =~= text@.subrange(vx_k, vx_k + line@.len()));
        assert(text_at(seq!['\\', '\n'], line@, line@.len() - 2) <==> line@.len() >= 2 && line@[line@.len() - 2] == '\\' && line@.last() == '\n') by {
            if line@.len() >= 2 {
                let x = line@.subrange(line@.len() - 2, line@.len() - 2 + 2);
                assert(x[0] == line@[line@.len() - 2] && x[1] == line@.last());
                if x[0] == '\\' && x[1] == '\n' { assert(x =~= seq!['\\', '\n']); }
            }
        }
    }
//@proof loop 0 end
    proof {
        let n = vx_full.len() as int;
        let u = crate::paragraph::unfilled(text@);
        assert(unfilled@.len() == vx_k + n);
        assert forall|i: int| 0 <= i < vx_k + n implies #[trigger] unfilled@[i] == u[i] by {
            if i >= vx_k {
                assert(vx_full[i - vx_k] == text@[i]);
                if i > vx_k { assert(vx_full[i - 1 - vx_k] == text@[i - 1]); }
            } else {
                assert(u.take(vx_k)[i] == u[i]);
            }
        }
        assert(unfilled@ =~= u.take(vx_k + n));
    }
//@proof tail
    proof {
        assert(vx_ret@ =~= crate::paragraph::unfilled(text@)) by {
            if vx_ret@.len() < text@.len() { lemma_lines_incl(text@.skip(vx_ret@.len() as int)); }
        }
    }
//@end
/// C11: reflowing changes no word, and no hard break that a backslash marks
pub proof fn theorem_unfill(s: Seq<char>)
    ensures
        words(unfilled(s)) == words(s),
        unfilled(s).len() == s.len(),
        forall|i: int| 0 < i < s.len() && s[i] == '\n' && s[i - 1] == '\\' ==> #[trigger] unfilled(s)[i] == '\n',
        forall|i: int| 0 < i < s.len() && #[trigger] unfilled(s)[i] == '\n' ==> s[i] == '\n' && s[i - 1] == '\\',
{
    lemma_same_words(unfilled(s), s);
}

// ------------------------------------------------------------------------------------------------ wrapping
pub open spec fn join(parts: Seq<Seq<char>>) -> Seq<char>
    decreases parts.len()
{
    if parts.len() == 0 { seq![] } else if parts.len() == 1 { parts[0] } else { parts[0] + hb() + join(parts.skip(1)) }
}
proof fn lemma_first_at(t: Seq<char>, s: Seq<char>, k: int)
    requires 0 <= k,
    ensures ({ let f = first_at(t, s, k); f == -1 || (f >= k && text_at(t, s, f)) }),
    decreases s.len() - k,
{
    if !text_at(t, s, k) && k < s.len() { lemma_first_at(t, s, k + 1); }
}
/// The parts between hard breaks make up the text
proof fn lemma_join_split(s: Seq<char>)
    ensures join(split_str(s, hb())) == s, split_str(s, hb()).len() > 0,
    decreases s.len(),
{
    let k = first_at(hb(), s, 0);
    lemma_first_at(hb(), s, 0);
    if !(k < 0 || k + 3 > s.len()) {
        let rest = split_str(s.skip(k + 3), hb());
        lemma_join_split(s.skip(k + 3));
        assert(split_str(s, hb()) == seq![s.take(k)] + rest);
        assert(split_str(s, hb()).skip(1) =~= rest);
        assert(s =~= s.take(k) + s.subrange(k, k + 3) + s.skip(k + 3));
    }
}
pub open spec fn wrap_part(o: TextWrapOptions, reflow: bool, p: Seq<char>) -> Seq<char> { filled(o, if reflow { unfilled(p) } else { p }) }
pub open spec fn wrap_parts(o: TextWrapOptions, reflow: bool, parts: Seq<Seq<char>>) -> Seq<Seq<char>> {
    Seq::new(parts.len(), |i: int| wrap_part(o, reflow, parts[i]))
}
/// Every part between two hard breaks is wrapped by itself
pub open spec fn wrapped(o: TextWrapOptions, reflow: bool, s: Seq<char>) -> Seq<char> { join(wrap_parts(o, reflow, split_str(s, hb()))) }
pub open spec fn all_short(s: Seq<char>, w: usize) -> bool { forall|i: int| 0 <= i < str_lines(s).len() ==> blen(#[trigger] str_lines(s)[i]) <= w }
proof fn lemma_words_parts(o: TextWrapOptions, reflow: bool, parts: Seq<Seq<char>>)
    requires at_spaces(o),
    ensures words(join(wrap_parts(o, reflow, parts))) == words(join(parts)),
    decreases parts.len(),
{
    let w = wrap_parts(o, reflow, parts);
    if parts.len() > 0 {
        let p = parts[0];
        ax_fill_words(o, if reflow { unfilled(p) } else { p });
        theorem_unfill(p);
        assert(w[0] == wrap_part(o, reflow, p));
        if parts.len() > 1 {
            assert(w.skip(1) =~= wrap_parts(o, reflow, parts.skip(1)));
            lemma_words_parts(o, reflow, parts.skip(1));
            lemma_words_break(w[0], join(w.skip(1)));
            lemma_words_break(p, join(parts.skip(1)));
        }
    } else {
        assert(w =~= parts);
    }
}
/// C11: wrapping changes no word and no order of words, and keeps the hard breaks (there are as many parts between them)
pub proof fn theorem_wrap(o: TextWrapOptions, reflow: bool, s: Seq<char>)
    requires at_spaces(o),
    ensures
        words(wrapped(o, reflow, s)) == words(s),
        wrap_parts(o, reflow, split_str(s, hb())).len() == split_str(s, hb()).len(),
{
    lemma_join_split(s);
    lemma_words_parts(o, reflow, split_str(s, hb()));
}

/// C11: between two hard breaks no line that holds more than one word is too wide, and unless text is reflowed each line is wrapped by itself
pub proof fn theorem_wrap_lines(o: TextWrapOptions, reflow: bool, p: Seq<char>, a: Seq<char>, b: Seq<char>)
    requires at_spaces(o),
    ensures
        fits(wrap_part(o, reflow, p), o.width),
        wrap_part(o, false, a + seq!['\n'] + b) == wrap_part(o, false, a) + seq!['\n'] + wrap_part(o, false, b),
{
    ax_fill_fits(o, if reflow { unfilled(p) } else { p });
    ax_fill_lines(o, a, b);
}

//@type paragraph.rs Paragraph
pub open spec fn views(s: Seq<&str>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
impl Paragraph {
/// What into_buffer returns
pub open spec fn result(&self, r: Seq<char>) -> bool {
    match self.max_width {
        None => r == self.buffer@,
        Some(w) => if all_short(self.buffer@, w) { r == self.buffer@ } else {
            exists|o: TextWrapOptions| at_spaces(o) && o.width == w && r == #[trigger] wrapped(o, self.should_reflow_text, self.buffer@)
        },
    }
}
//@fn paragraph.rs Paragraph::new
//@ret r
//@spec
    ensures r.buffer@ == Seq::<char>::empty(), r.max_width == max_width, r.should_reflow_text == should_reflow_text,
//@end
//@fn paragraph.rs Paragraph::is_empty
//@name vx_is_empty
//@ret r
//@spec
    ensures r == (self.buffer@.len() == 0),
//@end
//@fn paragraph.rs Paragraph::into_buffer
//@ret r
//@spec
    ensures self.result(r@),
//@closure 0
    -> (vx_r: bool) ensures vx_r == (blen(l@) <= max_width),
//@proof chain all
    proof { assert(forall|i: int| #![trigger str_lines(self.buffer@)[i]] 0 <= i < str_lines(self.buffer@).len() ==> vx_chain@[i]@ == str_lines(self.buffer@)[i]); }
//@proof loop 0 before
    let ghost vx_o = wrap_options;
    let ghost vx_all = split_on_hard_breaks@;
    let ghost vx_w = wrap_parts(vx_o, self.should_reflow_text, split_str(self.buffer@, hb()));
    proof {
        assert(views(vx_all) =~= split_str(self.buffer@, hb()));
        lemma_join_split(self.buffer@);
        assert(vx_w.skip(0) =~= vx_w);
        assert(output_buffer@ + join(vx_w) =~= join(vx_w));
        assert(vx_all.skip(0) =~= vx_all);
    }
//@loop 0
    invariant
        at_spaces(vx_o), wrap_options == vx_o,
        vx_self.should_reflow_text == self.should_reflow_text,
        vx_all.len() == vx_w.len(), split_on_hard_breaks@.len() <= vx_all.len(),
        forall|i: int| #![trigger vx_all[i]] 0 <= i < vx_all.len() ==> vx_w[i] == wrap_part(vx_o, self.should_reflow_text, vx_all[i]@),
        split_on_hard_breaks@ == vx_all.skip(vx_all.len() - split_on_hard_breaks@.len()),
        split_on_hard_breaks@.len() > 0 ==> output_buffer@ + join(vx_w.skip(vx_w.len() - split_on_hard_breaks@.len())) == join(vx_w),
        split_on_hard_breaks@.len() == 0 ==> output_buffer@ == join(vx_w),
    decreases split_on_hard_breaks@.len(),
//@proof loop 0 begin
    let ghost vx_out = output_buffer@;
    proof {
        let n = vx_w.len() - split_on_hard_breaks@.len() - 1;
        assert(text == vx_all[n]);
        let w = vx_w.skip(n);
        assert(w[0] == vx_w[n]);
        assert(w.skip(1) =~= vx_w.skip(n + 1));
        if split_on_hard_breaks@.len() > 0 {
            assert(vx_out + (w[0] + hb() + join(w.skip(1))) =~= (vx_out + w[0] + hb()) + join(w.skip(1)));
        }
    }
//@proof loop 0 after
    proof {
        assert(split_on_hard_breaks@.len() == 0);
        assert(output_buffer@ == wrapped(vx_o, self.should_reflow_text, self.buffer@));
    }
//@end

// ------------------------------------------------------------------------------------------------ writing
/// What is written for a text
pub open spec fn txt(&self, s: Seq<char>) -> Seq<char> {
    if self.max_width is Some && self.should_reflow_text && trim_end_p(trim_start_p(s, ws()), ws()).len() == 0 { seq![' '] } else { s }
}
//@fn paragraph.rs Write@Paragraph::write_str
//@name vx_write_str
//@ret r
//@spec
    ensures r is Ok, *final(self) == (Paragraph { buffer: final(self).buffer, ..*old(self) }), final(self).buffer@ == old(self).buffer@ + old(self).txt(s@),
//@end
//@fn paragraph.rs WriteContext@Paragraph::write_context_str
//@ret r
//@spec
    ensures
        r is Ok, *final(self) == (Paragraph { buffer: final(self).buffer, ..*old(self) }),
        ({
            let (a, b, t) = (old(self).buffer@, final(self).buffer@, old(self).txt(s@));
            let esc = a.push('\\') + t;
            match ctx {
                MarkdownContext::Event(e) => match e {
                    // a hard break isn't reflowed
                    Event::HardBreak => b == a + s@,
                    // a backslash would be a part of it; before a line that looks like the delimiter row of a table there is one
                    Event::Code(_) | Event::InlineHtml(_) => b == a + t || (b == esc && a.len() > 0 && a.last() == '\n'),
                    Event::Text(_) => {
                        &&& b == a + t || (b == esc && (a.len() == 0 || a.last() == '\n'))
                        &&& s@.len() > 0 && must_escape(a, s@) ==> b == esc
                    },
                    _ => b == a + t,
                },
                MarkdownContext::Tag(Tag::Link { .. }) => b == a + t || (a.len() > 0 && a.last() == ']' && b == a.drop_last() + seq!['\\', ']'] + t),
                _ => b == a + t,
            }
        }),
//@closure 0
    -> (vx_r: bool) ensures vx_r ==> self.buffer@.len() > 0 && self.buffer@.last() == ']',
//@closure 1
    -> (vx_r: bool) ensures vx_r == within('|', l@),
//@closure 2
    -> (vx_r: bool) ensures vx_r == same(input@, marker),
//@closure 4
    -> (vx_r: bool) ensures vx_r == rule_like(input@, marker),
//@closure 7
    -> (vx_r: bool) ensures vx_r == rule_like(s@, *c),
//@loop 0
    invariant forall|i: int| #![trigger vx_it0@[i]] 0 <= i < vx_it0@.len() ==> bdy(last_line@, vx_it0@[i].0 as int),
    decreases vx_it0@.len(),
//@end
}
/// C12: a text that would be something else at the start of this line
pub open spec fn must_escape(a: Seq<char>, s: Seq<char>) -> bool {
    let nl = a.len() > 0 && a.last() == '\n';
    ||| text_at(hb(), a, a.len() - 3) && kind_of(s) is Some
    ||| nl && s[0] == '#' && kind_of(s) is Some
    ||| nl && (same(s, '-') || same(s, '='))
    ||| (nl || a.len() == 0) && (rule_like(s, '-') || rule_like(s, '_') || rule_like(s, '*'))
}
pub open spec fn same(s: Seq<char>, m: char) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == m }
/// Three or more of this char, with spaces and tabs between them
pub open spec fn rule_like(s: Seq<char>, m: char) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == ' ' || s[i] == '\t' || s[i] == m) && s.filter(|c: char| c == m).len() >= 3
}
}
}
