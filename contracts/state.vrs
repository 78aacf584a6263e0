// src/formatter.rs: the state of the formatter
//@include prelude.vrs
//@include pulldown.vrs
//@use utils.vrs
//@use escape.vrs
pub mod state {
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use core::ops::Range;
use crate::prelude::*;
use crate::pulldown::*;
use crate::utils::*;
use crate::escape::*;
verus! {
broadcast use group_prelude;


// ------------------------------------------------------------------------------------------------ the state
//@type config.rs Config
impl Config {
//@fn config.rs Config::max_width
//@ret r
//@spec
    ensures r == self.max_width,
//@end
//@fn config.rs Config::set_max_width
//@spec
    ensures *final(self) == (Config { max_width: value, ..*old(self) }),
//@end
//@fn config.rs Config::reflow_text
//@ret r
//@spec
    ensures r == self.reflow_text,
//@end
//@fn config.rs Config::set_reflow_text
//@spec
    ensures *final(self) == (Config { reflow_text: value, ..*old(self) }),
//@end
}
//@type builder.rs CodeBlockContext

/// One call of the code formatter: its context, info string and code
pub struct Call { pub ctx: CodeBlockContext, pub info: Seq<char>, pub code: Seq<char> }
/// The code formatter: any function, with any effects of its own. Its view is the calls so far.
#[verifier::external_body]
pub struct CodeBlockFormatter { f: () }
impl View for CodeBlockFormatter { type V = Seq<Call>; uninterp spec fn view(&self) -> Seq<Call>; }
/// What it returns for the last of these calls
pub uninterp spec fn reply(calls: Seq<Call>) -> Seq<char>;
impl CodeBlockFormatter {
    #[verifier::external_body]
    pub fn vx_call(&mut self, ctx: &CodeBlockContext, info: &str, code: String) -> (r: String)
        ensures
            final(self)@ == old(self)@.push(Call { ctx: *ctx, info: info@, code: code@ }),
            r@ == reply(final(self)@),
    { unimplemented!() }
}
//@struct formatter.rs MarkdownFormatter - config=Config code_block_formatter
/// The result of formatting a document, if it's not an error
pub uninterp spec fn formatted(f: MarkdownFormatter, input: Seq<char>) -> Option<Seq<char>>;
/// The formatter after that
pub uninterp spec fn formatted_state(f: MarkdownFormatter, input: Seq<char>) -> MarkdownFormatter;
impl MarkdownFormatter {
    /// The recursive call. That the configuration is the same afterwards is the induction hypothesis (on the nesting
    /// of the documents); format_code_buffer below is the only function that changes it, and it proves the step.
    #[verifier::external_body]
    pub fn format(&mut self, input: &str) -> (r: Result<String, FmtError>)
        ensures
            final(self).config == old(self).config,
            *final(self) == formatted_state(*old(self), input@),
            match formatted(*old(self), input@) { Some(t) => r is Ok && r->Ok_0@ == t, None => r is Err },
    { unimplemented!() }
}

// ------------------------------------------------------------------------------------------------ the writers
// What they hold, and what they do with a text. The contracts of the functions of Paragraph, Header and LinkWriter are those
// that paragraph.vrs, header.vrs and links.vrs prove, as far as they are needed here.
#[verifier::external_body]
pub struct Paragraph { p: () }
#[verifier::external_body]
pub struct Header<'i> { p: &'i () }
#[verifier::external_body]
pub struct TableState<'i> { p: &'i () }
#[verifier::external_body]
pub struct LinkWriter { p: () }
//@type footnote.rs FootnoteDefinition
pub open spec fn is_blank(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> sp_is_whitespace(#[trigger] s[i]) }
impl Paragraph {
    pub uninterp spec fn text(&self) -> Seq<char>;
    /// White space is reflowed: max_width is set, and reflow_text
    pub uninterp spec fn reflows(&self) -> bool;
    #[verifier::external_body]
    pub fn vx_is_empty(&self) -> (r: bool) ensures r == (self.text().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_write_str(&mut self, s: &str) -> (r: FmtResult)
        ensures r is Ok, final(self).reflows() == old(self).reflows(), !old(self).reflows() || !is_blank(s@) ==> final(self).text() == old(self).text() + s@,
    { unimplemented!() }
}
impl<'i> Header<'i> {
    pub uninterp spec fn text(&self) -> Seq<char>;
    pub uninterp spec fn held(&self) -> Seq<Cow<'static>>;
    #[verifier::external_body]
    pub fn indentation(&self) -> (r: &[Cow<'static>]) ensures r@ == self.held() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_is_empty(&self) -> (r: bool) ensures r == (self.text().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_write_str(&mut self, s: &str) -> (r: FmtResult)
        ensures r is Ok, final(self).held() == old(self).held(), final(self).text() == old(self).text() + s@,
    { unimplemented!() }
}
impl LinkWriter {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn vx_is_empty(&self) -> (r: bool) ensures r == (self.text().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_write_str(&mut self, s: &str) -> (r: FmtResult) ensures r is Ok { unimplemented!() }
}
impl<'i> TableState<'i> {
    pub uninterp spec fn nothing(&self) -> bool;
    #[verifier::external_body]
    pub fn vx_is_empty(&self) -> (r: bool) ensures r == self.nothing() { unimplemented!() }
    /// The parser writes to the cells of the rows that it announced
    #[verifier::external_body]
    pub fn vx_write_str(&mut self, s: &str) -> (r: FmtResult) { unimplemented!() }
}
impl FootnoteDefinition {
//@fn footnote.rs FootnoteDefinition::new
//@ret r
//@spec
    ensures r.buffer@.len() == 0, r.indentation == indentation,
//@end
//@fn footnote.rs FootnoteDefinition::indentation
//@ret r
//@spec
    ensures r@ == self.indentation@,
//@end
//@fn footnote.rs FootnoteDefinition::is_empty
//@name vx_is_empty
//@ret r
//@spec
    ensures r == (self.buffer@.len() == 0),
//@end
//@fn footnote.rs FootnoteDefinition::into_parts
//@ret r
//@spec
    ensures r.0 == self.buffer, r.1 == self.indentation, r.2@ == fill_seq(' ', 4),
//@end
//@fn footnote.rs Write@FootnoteDefinition::write_str
//@name vx_write_str
//@nopub
//@ret r
//@spec
    ensures r is Ok, final(self).indentation == old(self).indentation, final(self).buffer@ == old(self).buffer@ + s@,
//@end
}
//@type writer.rs MarkdownWriter
impl<'i> MarkdownWriter<'i> {
    pub open spec fn held(&self) -> Seq<Cow<'static>> {
        match self { MarkdownWriter::Header(h) => h.held(), MarkdownWriter::FootnoteDefinition(f) => f.indentation@, _ => Seq::empty() }
    }
    /// The text that has been written to it
    pub open spec fn text(&self) -> Seq<char> {
        match self {
            MarkdownWriter::CodeBlock((c, _)) => c@,
            MarkdownWriter::FootnoteDefinition(f) => f.buffer@,
            MarkdownWriter::Header(h) => h.text(),
            MarkdownWriter::Paragraph(p) => p.text(),
            MarkdownWriter::Link(l) => l.text(),
            MarkdownWriter::Table(_) => Seq::empty(),
        }
    }
    pub open spec fn nothing(&self) -> bool { match self { MarkdownWriter::Table(t) => t.nothing(), _ => self.text().len() == 0 } }
    /// It adds every text as it is
    pub open spec fn plain(&self) -> bool {
        match self {
            MarkdownWriter::CodeBlock(_) | MarkdownWriter::FootnoteDefinition(_) | MarkdownWriter::Header(_) => true,
            MarkdownWriter::Paragraph(p) => !p.reflows(),
            _ => false,
        }
    }
    /// The same writer, perhaps with more text
    pub open spec fn same(&self, o: &MarkdownWriter<'i>) -> bool {
        match (self, o) {
            (MarkdownWriter::CodeBlock((_, k)), MarkdownWriter::CodeBlock((_, l))) => k == l,
            (MarkdownWriter::FootnoteDefinition(a), MarkdownWriter::FootnoteDefinition(b)) => a.indentation == b.indentation,
            (MarkdownWriter::Header(a), MarkdownWriter::Header(b)) => a.held() == b.held(),
            (MarkdownWriter::Paragraph(a), MarkdownWriter::Paragraph(b)) => a.reflows() == b.reflows(),
            (MarkdownWriter::Table(_), MarkdownWriter::Table(_)) => true,
            (MarkdownWriter::Link(_), MarkdownWriter::Link(_)) => true,
            _ => false,
        }
    }
    /// This text is added as it is
    pub open spec fn takes(&self, s: Seq<char>) -> bool { self.plain() || (self is Paragraph && !is_blank(s)) }
//@fn writer.rs MarkdownWriter::is_empty
//@name vx_is_empty
//@ret r
//@spec
    ensures r == self.nothing(),
//@end
//@fn writer.rs std::fmt::Write@MarkdownWriter::write_str
//@name vx_write_str
//@nopub
//@ret r
//@spec
    ensures final(self).same(old(self)), r is Ok && old(self).takes(s@) ==> final(self).text() == old(self).text() + s@,
//@end
}
//@struct formatter.rs FormatState <'i> input events=VxIter<(Event<'i>,Range<usize>)> rewrite_buffer indentation nested_context writers needs_indent last_position last_event=Option<(Event<'i>,Range<usize>)> formatter=MarkdownFormatter

pub open spec fn texts(ind: Seq<Cow<'static>>) -> Seq<Seq<char>> { Seq::new(ind.len(), |i: int| ind[i]@) }
pub open spec fn cat(s: Seq<Seq<char>>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { seq![] } else { cat(s.drop_last()) + s.last() }
}
pub open spec fn trim(s: Seq<char>) -> Seq<char> { trim_end_p(trim_start_p(s, ws()), ws()) }
/// The indentation of a blank line: up to the last part that isn't white space
pub open spec fn blank_indent(s: Seq<Seq<char>>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { seq![] } else if is_blank(s.last()) { blank_indent(s.drop_last()) } else { cat(s.drop_last()) + trim(s.last()) }
}
proof fn lemma_sum_len(s: Seq<Cow<'static>>, n: Seq<usize>)
    requires n.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> n[i] == blen(#[trigger] s[i]@),
    ensures sum(n) == blen(cat(texts(s))),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_sum_len(s.drop_last(), n.drop_last());
        assert(texts(s).drop_last() =~= texts(s.drop_last()));
        lemma_blen_add(cat(texts(s).drop_last()), texts(s).last());
    }
}
/// p is the last part that isn't white space
proof fn lemma_blank_indent(s: Seq<Seq<char>>, p: int)
    requires 0 <= p < s.len(), !is_blank(s[p]), forall|i: int| p < i < s.len() ==> is_blank(#[trigger] s[i]),
    ensures blank_indent(s) == cat(s.take(p)) + trim(s[p]),
    decreases s.len(),
{
    if p == s.len() - 1 {
        assert(s.take(p) =~= s.drop_last());
    } else {
        lemma_blank_indent(s.drop_last(), p);
        assert(s.drop_last().take(p) =~= s.take(p));
    }
}
proof fn lemma_blank_all(s: Seq<Seq<char>>)
    requires forall|i: int| 0 <= i < s.len() ==> is_blank(#[trigger] s[i]),
    ensures blank_indent(s) == Seq::<char>::empty(),
    decreases s.len(),
{
    if s.len() > 0 { lemma_blank_all(s.drop_last()); }
}
/// The line breaks at the end
pub open spec fn end_breaks(s: Seq<char>) -> nat { take_while(rev(s), |c: char| c == '\n' || c == '\r').len() }
pub open spec fn indent_of(ind: Seq<Seq<char>>, trimmed: bool) -> Seq<char> { if trimmed { blank_indent(ind) } else { cat(ind) } }
/// Lines of code, each with the indentation
pub open spec fn joined(l: Seq<Seq<char>>, ind: Seq<Seq<char>>, start: bool) -> Seq<char>
    decreases l.len()
{
    if l.len() == 0 { seq![] } else {
        (if start { indent_of(ind, blank_line(l[0])) } else { seq![] })
        + (if blank_line(l[0]) { seq![] } else { l[0] })
        + (if l.len() > 1 { seq!['\n'] + (if start { seq![] } else { indent_of(ind, blank_line(l[1])) }) } else { seq![] })
        + joined(l.skip(1), ind, start)
    }
}
/// Its first line and the others
proof fn lemma_joined(l: Seq<Seq<char>>, ind: Seq<Seq<char>>, start: bool)
    ensures
        l.len() == 0 ==> joined(l, ind, start).len() == 0,
        l.len() > 0 ==> joined(l, ind, start) == joined_first(l, ind, start) + joined(l.skip(1), ind, start),
{}
pub open spec fn joined_first(l: Seq<Seq<char>>, ind: Seq<Seq<char>>, start: bool) -> Seq<char> {
    (if start { indent_of(ind, blank_line(l[0])) } else { seq![] })
    + (if blank_line(l[0]) { seq![] } else { l[0] })
    + (if l.len() > 1 { seq!['\n'] + (if start { seq![] } else { indent_of(ind, blank_line(l[1])) }) } else { seq![] })
}
pub proof fn lemma_same<'i>()
    ensures
        forall|a: MarkdownWriter<'i>| #[trigger] a.same(&a),
        forall|a: MarkdownWriter<'i>, b: MarkdownWriter<'i>, c: MarkdownWriter<'i>| #[trigger] a.same(&b) && #[trigger] b.same(&c) ==> a.same(&c),
        forall|a: MarkdownWriter<'i>, b: MarkdownWriter<'i>| #[trigger] a.same(&b) ==> a.plain() == b.plain(),
{}
pub proof fn lemma_blank_trim(s: Seq<char>)
    ensures (trim(s).len() == 0) == is_blank(s),
{
    lemma_trim_empty(s);
    lemma_take_while(s, ws());
    let x = skip_while(s, ws());
    if x.len() == 0 {
        assert forall|i: int| 0 <= i < s.len() implies sp_is_whitespace(#[trigger] s[i]) by { assert(ws()(s[i])); }
    } else {
        assert(x[0] == s[s.len() - x.len()]);
    }
}
pub open spec fn spt(c: char) -> bool { c == ' ' || c == '\t' }
pub open spec fn spts() -> spec_fn(char) -> bool { |c: char| spt(c) }
pub open spec fn skip_one(s: Seq<char>) -> Seq<char> { if s.len() > 0 && spt(s[0]) { s.skip(1) } else { s } }
pub open spec fn skip_up_to(n: nat, s: Seq<char>) -> Seq<char>
    decreases n
{
    if n == 0 { s } else { skip_up_to((n - 1) as nat, skip_one(s)) }
}
/// A line without one part of its indentation
pub open spec fn unindent(i: Seq<char>, s: Seq<char>) -> Seq<char> {
    if i.len() > 0 && i[0] == '>' {
        let t = skip_while(s, spts());
        if t.len() > 0 && t[0] == '>' { skip_one(t.skip(1)) } else { t }
    } else { skip_up_to(blen(i), s) }
}
/// A line without its indentation
pub open spec fn unindents(i: Seq<Seq<char>>, s: Seq<char>) -> Seq<char>
    decreases i.len()
{
    if i.len() == 0 { s } else { unindents(i.skip(1), unindent(i[0], s)) }
}
/// b is a without some chars at its start, which are spaces, tabs or `>`
pub open spec fn unindented(a: Seq<char>, b: Seq<char>) -> bool {
    exists|k: int| 0 <= k <= a.len() && b == #[trigger] a.skip(k) && forall|i: int| 0 <= i < k ==> spt(#[trigger] a[i]) || a[i] == '>'
}
proof fn lemma_unindented(a: Seq<char>, b: Seq<char>, c: Seq<char>, n: int)
    requires unindented(a, b), 0 <= n <= b.len(), c == b.skip(n), forall|i: int| 0 <= i < n ==> spt(#[trigger] b[i]) || b[i] == '>',
    ensures unindented(a, c),
{
    let k = choose|k: int| 0 <= k <= a.len() && b == #[trigger] a.skip(k) && forall|i: int| 0 <= i < k ==> spt(#[trigger] a[i]) || a[i] == '>';
    assert(c =~= a.skip(k + n));
    assert forall|i: int| 0 <= i < k + n implies spt(#[trigger] a[i]) || a[i] == '>' by { if i >= k { assert(a[i] == b[i - k]); } }
}
proof fn lemma_skip_one(a: Seq<char>, b: Seq<char>)
    requires unindented(a, b),
    ensures unindented(a, skip_one(b)),
{
    if b.len() > 0 && spt(b[0]) { lemma_unindented(a, b, b.skip(1), 1); }
}
proof fn lemma_skip_up_to(a: Seq<char>, b: Seq<char>, n: nat)
    requires unindented(a, b),
    ensures unindented(a, skip_up_to(n, b)),
    decreases n,
{
    if n > 0 {
        lemma_skip_one(a, b);
        lemma_skip_up_to(a, skip_one(b), (n - 1) as nat);
    }
}
proof fn lemma_unindent(a: Seq<char>, b: Seq<char>, i: Seq<char>)
    requires unindented(a, b),
    ensures unindented(a, unindent(i, b)),
{
    if i.len() > 0 && i[0] == '>' {
        let t = skip_while(b, spts());
        lemma_take_while(b, spts());
        let n = b.len() - t.len();
        assert forall|j: int| 0 <= j < n implies spt(#[trigger] b[j]) by { assert(spts()(b[j])); }
        lemma_unindented(a, b, t, n);
        if t.len() > 0 && t[0] == '>' {
            lemma_unindented(a, t, t.skip(1), 1);
            lemma_skip_one(a, t.skip(1));
        }
    } else {
        lemma_skip_up_to(a, b, blen(i));
    }
}
proof fn lemma_unindents(a: Seq<char>, b: Seq<char>, i: Seq<Seq<char>>)
    requires unindented(a, b),
    ensures unindented(a, unindents(i, b)),
    decreases i.len(),
{
    if i.len() > 0 {
        lemma_unindent(a, b, i[0]);
        lemma_unindents(a, unindent(i[0], b), i.skip(1));
    }
}
/// C14: nothing but indentation is removed, in particular no other white space
pub proof fn theorem_unindent(s: Seq<char>, i: Seq<Seq<char>>)
    ensures unindented(s, unindents(i, s)),
{
    assert(s =~= s.skip(0));
    assert(unindented(s, s));
    lemma_unindents(s, s, i);
}
pub open spec fn derefs<U>(r: Seq<&U>) -> Seq<U> { Seq::new(r.len(), |i: int| *r[i]) }
/// The indentation that the writers hold on to
pub open spec fn helds(w: Seq<MarkdownWriter<'_>>) -> Seq<Seq<Cow<'static>>> { Seq::new(w.len(), |i: int| w[i].held()) }
impl<'i> FormatState<'i> {
    pub open spec fn the_call(&self, info: Seq<char>, code: Seq<char>) -> Call {
        Call { ctx: CodeBlockContext { indentation: blen(cat(self.ind())) as usize, max_width: self.formatter.config.max_width }, info, code }
    }
    pub open spec fn inner(&self) -> MarkdownFormatter { MarkdownFormatter { config: self.inner_config(), ..self.formatter } }
    /// The code that is written for a code block
    pub open spec fn code_result(&self, info: Option<&str>, code: Seq<char>) -> Seq<char> {
        match info { None => code, Some(i) => self.code_of(i@, code) }
    }
    pub open spec fn code_of(&self, info: Seq<char>, code: Seq<char>) -> Seq<char> {
        if within("markdown", info) {
            match formatted(self.inner(), code) { Some(t) => t, None => code }
        } else {
            reply(self.formatter.code_block_formatter@.push(self.the_call(info, code)))
        }
    }
    pub open spec fn inner_config(&self) -> Config {
        Config { max_width: match self.formatter.config.max_width { Some(w) => Some(if w < blen(cat(self.ind())) { 0 } else { (w - blen(cat(self.ind()))) as usize }), None => None }, ..self.formatter.config }
    }
    /// What has been written to the current buffer
    pub open spec fn out(&self) -> Seq<char> { if self.writers@.len() == 0 { self.rewrite_buffer@ } else { self.writers@.last().text() } }
    pub open spec fn ind(&self) -> Seq<Seq<char>> { texts(self.indentation@) }
    /// All of the indentation of a line
    pub open spec fn all_ind(&self) -> Seq<Seq<char>> { texts(flat(helds(self.writers@)) + self.indentation@) }
    pub open spec fn indent(&self, trimmed: bool) -> Seq<char> { indent_of(self.ind(), trimmed) }
    /// Nothing but the output is different
    pub open spec fn only_out(&self, o: FormatState<'i>) -> bool {
        &&& self.input == o.input && self.events == o.events && self.nested_context == o.nested_context && self.needs_indent == o.needs_indent
        &&& self.last_position == o.last_position && self.last_event == o.last_event && self.formatter == o.formatter
        &&& self.writers@.len() == o.writers@.len()
        &&& self.writers@.len() > 0 ==> {
            &&& self.rewrite_buffer == o.rewrite_buffer && self.writers@.drop_last() == o.writers@.drop_last()
            &&& self.writers@.last().same(&o.writers@.last())
        }
    }
    /// The current buffer adds every text as it is
    pub open spec fn plain(&self) -> bool { self.writers@.len() == 0 || self.writers@.last().plain() }
    /// ... this text
    pub open spec fn takes(&self, s: Seq<char>) -> bool { self.writers@.len() == 0 || self.writers@.last().takes(s) }
    /// s was written to the current buffer and nothing else is different
    pub open spec fn wrote(&self, o: FormatState<'i>, s: Seq<char>) -> bool {
        self.only_out(o) && self.indentation == o.indentation && (o.plain() ==> self.out() == o.out() + s)
    }
    pub open spec fn put(&self, o: FormatState<'i>, s: Seq<char>) -> bool {
        self.only_out(o) && self.indentation == o.indentation && (o.takes(s) ==> self.out() == o.out() + s)
    }
    /// Dynamic dispatch (current_buffer) to the last writer, or to rewrite_buffer if there's none
    #[verifier::external_body]
    pub fn vx_write_str(&mut self, s: &str) -> (r: FmtResult)
        ensures
            final(self).only_out(*old(self)), final(self).indentation == old(self).indentation,
            r is Ok ==> final(self).wrote(*old(self), s@) && final(self).put(*old(self), s@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_peek(&mut self) -> (r: Option<&Event<'i>>)
        ensures
            *final(self) == *old(self),
            match r { Some(e) => old(self).next_event() == Some(*e), None => old(self).next_event() is None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peek_with_range(&mut self) -> (r: Option<(&Event<'i>, &Range<usize>)>)
        ensures
            *final(self) == *old(self),
            match r { Some((e, p)) => old(self).events@.len() > 0 && old(self).events@[0] == (*e, *p), None => old(self).events@.len() == 0 },
    { unimplemented!() }
    pub open spec fn next_event(&self) -> Option<Event<'i>> { if self.events@.len() > 0 { Some(self.events@[0].0) } else { None } }
    /// Nothing has been written to the current buffer
    pub open spec fn out_empty(&self) -> bool { if self.writers@.len() == 0 { self.rewrite_buffer@.len() == 0 } else { self.writers@.last().nothing() } }
    /// k of n line breaks in a nested block, each with the indentation of the new line
    pub open spec fn nested_breaks(&self, k: nat, n: nat, trimmed: bool) -> Seq<char>
        decreases k
    {
        if k == 0 { seq![] } else { self.nested_breaks((k - 1) as nat, n, trimmed) + seq!['\n'] + self.indent(k != n || trimmed) }
    }
    /// What write_newlines writes for n line breaks
    pub open spec fn breaks(&self, max: nat, trimmed: bool) -> Seq<char> {
        let done = end_breaks(self.rewrite_buffer@);
        let n = if max < done { 0 } else { (max - done) as nat };
        if self.out_empty() { seq![] }
        else if self.nested_context@.len() > 0 { self.nested_breaks(n, n, trimmed) }
        else { fill_seq('\n', n as int) + self.indent(trimmed || self.next_event() matches Some(Event::End(_))) }
    }
    pub open spec fn after_break(&self) -> bool { self.last_event is Some && (self.last_event->Some_0.0 is SoftBreak || self.last_event->Some_0.0 is HardBreak) }
    pub open spec fn in_bounds(&self, r: Range<usize>) -> bool {
        &&& bdy(self.input@, self.last_position as int) && bdy(self.input@, r.start as int) && bdy(self.input@, r.end as int)
        &&& self.last_position <= r.end && r.start <= r.end
    }

//@fn formatter.rs FormatState::indentation_len
//@ret r
//@closure 0
    -> (vx_r: usize) ensures vx_r == blen(i@),
//@proof start
    proof {
        assert forall|n: Seq<usize>| n.len() == self.indentation@.len() && (forall|i: int| 0 <= i < n.len() ==> n[i] == blen(#[trigger] self.indentation@[i]@)) implies #[trigger] sum(n) == blen(cat(self.ind())) by {
            lemma_sum_len(self.indentation@, n);
        }
    }
//@spec
    requires blen(cat(self.ind())) <= usize::MAX,
    ensures r == blen(cat(self.ind())),
//@end

//@fn formatter.rs FormatState::write_indentation
//@ret r
//@spec
    ensures final(self).only_out(*old(self)), r is Ok ==> final(self).wrote(*old(self), old(self).indent(trim_trailing_whiltespace)),
//@closure 0
    -> (vx_r: bool) ensures vx_r == !is_blank(indent@),
//@proof let position
    proof {
        let t = self.ind();
        if trim_trailing_whiltespace {
            assert forall|i: int| position < i < t.len() implies is_blank(#[trigger] t[i]) by { assert(t[i] == self.indentation@[i]@); }
            lemma_blank_indent(t, position as int);
        }
    }
//@proof before let Some(position)
    proof {
        if last_non_complete_whitespace_indent is None {
            assert forall|i: int| 0 <= i < self.ind().len() implies is_blank(#[trigger] self.ind()[i]) by { assert(self.ind()[i] == self.indentation@[i]@); }
            lemma_blank_all(self.ind());
        }
    }
//@proof loop 0 before
    let ghost g = vx_it0@;
    let ghost t = texts(indentation@);
    assert(t.take(0) =~= seq![]);
//@loop 0
    invariant
        vx_it0@.len() <= g.len(), vx_it0@ == g.skip(g.len() - vx_it0@.len()),
        self.only_out(*old(self)),
        old(self).plain() ==> self.out() == old(self).out() + (if trim_trailing_whiltespace && g.len() - vx_it0@.len() == position + 1 {
            cat(t.take(position as int)) + trim(t[position as int])
        } else { cat(t.take(g.len() - vx_it0@.len())) }),
    decreases vx_it0@.len(),
//@proof loop 0 end
    proof {
        let k = g.len() - vx_it0@.len();
        assert(t.take(k).drop_last() =~= t.take(k - 1));
        assert(t.take(k).last() == t[k - 1]);
    }
//@proof loop 0 after
    assert(t.take(t.len() as int) =~= t);
//@end
//@fn formatter.rs FormatState::is_nested
//@ret r
//@spec
    ensures r == (self.nested_context@.len() > 0),
//@end
//@fn formatter.rs FormatState::is_next_end_event
//@ret r
//@spec
    ensures *final(self) == *old(self), r == (old(self).next_event() matches Some(Event::End(_))),
//@end
//@fn formatter.rs FormatState::is_current_buffer_empty
//@ret r
//@spec
    ensures r == self.out_empty(),
//@end
//@fn formatter.rs FormatState::in_html_block
//@ret r
//@spec
    ensures r == (self.nested_context@.len() > 0 && self.nested_context@.last() is HtmlBlock),
//@end
//@fn formatter.rs FormatState::in_link_or_image
//@ret r
//@spec
    ensures r == (self.nested_context@.len() > 0 && (self.nested_context@.last() is Link || self.nested_context@.last() is Image)),
//@end
//@fn formatter.rs FormatState::in_paragraph
//@ret r
//@closure 0
    -> (vx_r: bool) ensures vx_r == (*w is Paragraph),
//@spec
    ensures r == (self.writers@.len() > 0 && self.writers@.last() is Paragraph),
//@end
//@fn formatter.rs FormatState::in_table
//@ret r
//@closure 0
    -> (vx_r: bool) ensures vx_r == (*w is Table),
//@spec
    ensures r == (self.writers@.len() > 0 && self.writers@.last() is Table),
//@end
//@fn formatter.rs FormatState::in_blockquote
//@ret r
//@closure 0
    -> (vx_r: bool) ensures vx_r == (*t is BlockQuote),
//@spec
    ensures r == exists|i: int| 0 <= i < self.nested_context@.len() && #[trigger] self.nested_context@[i] is BlockQuote,
//@end
//@fn formatter.rs FormatState::check_needs_indent
//@spec
    ensures
        *final(self) == (FormatState { needs_indent: final(self).needs_indent, ..*old(self) }),
        // the next block starts on a line of its own
        match old(self).next_event() {
            Some(Event::Start(_)) | Some(Event::Rule) | Some(Event::Html(_)) | Some(Event::End(TagEnd::Item)) => final(self).needs_indent,
            _ => true,
        },
//@end
//@fn formatter.rs FormatState::count_newlines_in_range
//@ret r
//@spec
    requires self.in_bounds(*range),
//@end
//@fn formatter.rs FormatState::count_newlines
//@ret r
//@spec
    requires self.in_bounds(*range),
    ensures
        self.last_position == range.start ==> r == 0,
        self.last_position < range.start ==> r == nl(self.input@.subrange(cix(self.input@, self.last_position as int), cix(self.input@, range.start as int))),
//@end
//@fn formatter.rs FormatState::write_newlines_inner
//@ret r
//@spec
    ensures final(self).only_out(*old(self)), r is Ok ==> final(self).wrote(*old(self), old(self).breaks(max_newlines as nat, always_trim_trailing_whitespace)),
//@proof loop 0 before
    let ghost n = newlines_to_write as nat;
//@loop 0
    invariant
        0 <= vx_i0 <= vx_end0 == newlines_to_write,
        self.only_out(*old(self)), self.indentation == old(self).indentation,
        old(self).plain() ==> self.out() == old(self).out() + (if nested { old(self).nested_breaks(vx_i0 as nat, n, always_trim_trailing_whitespace) } else { fill_seq('\n', vx_i0 as int) }),
    decreases vx_end0 - vx_i0,
//@proof tail
    assert(old(self).plain() ==> self.out() =~= old(self).out() + old(self).breaks(max_newlines as nat, always_trim_trailing_whitespace));
//@proof head
    hide(indent_of);
    hide(texts);
//@proof let newlines
    assert(newlines == end_breaks(self.rewrite_buffer@));
//@proof loop 0 begin
    let ghost before = self.out();
//@proof loop 0 end
    proof {
        if nested {
            assert(old(self).plain() ==> self.out() =~= before + seq!['\n'] + old(self).indent(vx_i0 != n || always_trim_trailing_whitespace));
        } else {
            assert(old(self).plain() ==> self.out() =~= before + seq!['\n']);
        }
        assert(fill_seq('\n', vx_i0 as int) =~= fill_seq('\n', vx_i0 - 1) + seq!['\n']);
        assert(seq!['\n'] =~= fill_seq('\n', 1));
    }
//@end
//@fn formatter.rs FormatState::write_newlines
//@ret r
//@spec
    ensures
        final(self).only_out(*old(self)),
        r is Ok ==> final(self).wrote(*old(self), if max_newlines == 0 { seq![] } else { old(self).breaks(max_newlines as nat, false) }),
//@end
//@fn formatter.rs FormatState::write_newlines_no_trailing_whitespace
//@ret r
//@spec
    ensures final(self).only_out(*old(self)), r is Ok ==> final(self).wrote(*old(self), old(self).breaks(max_newlines as nat, true)),
//@end

}
/// There's a line break after the last non-whitespace char
pub open spec fn ends_with_break(s: Seq<char>) -> bool {
    exists|k: int, j: int| 0 <= k < j < s.len() && !sp_is_whitespace(#[trigger] s[k]) && is_nl(#[trigger] s[j]) && forall|i: int| k < i < s.len() ==> sp_is_whitespace(#[trigger] s[i])
}
/// C01
pub open spec fn final_break(input: Seq<char>, output: Seq<char>) -> bool {
    if ends_with_break(input) { output.len() > 0 && output.last() == '\n' && (output.len() > 1 ==> !is_nl(output[output.len() - 2])) }
    else { output.len() > 0 ==> !is_nl(output.last()) }
}

// ------------------------------------------------------------------------------------------------ what follows
/// A line of code in its block
pub open spec fn code_line(l: Seq<char>, ind: Seq<Seq<char>>) -> Seq<char> { indent_of(ind, blank_line(l)) + (if blank_line(l) { seq![] } else { l }) }
pub open spec fn code_lines(l: Seq<Seq<char>>, ind: Seq<Seq<char>>) -> Seq<char>
    decreases l.len()
{
    if l.len() == 0 { seq![] } else { code_line(l[0], ind) + (if l.len() > 1 { seq!['\n'] + code_lines(l.skip(1), ind) } else { seq![] }) }
}
/// C04: the block's lines are the code's lines, each after the indentation of the block; without an info string the
/// first one has its indentation already
#[verifier::rlimit(100)]
pub proof fn theorem_code_lines(l: Seq<Seq<char>>, ind: Seq<Seq<char>>)
    ensures
        joined(l, ind, true) == code_lines(l, ind),
        l.len() > 0 ==> indent_of(ind, blank_line(l[0])) + joined(l, ind, false) == code_lines(l, ind),
    decreases l.len(),
{
    if l.len() > 0 {
        theorem_code_lines(l.skip(1), ind);
        let t = l.skip(1);
        if l.len() == 1 {
            assert(joined(t, ind, true) =~= seq![] && joined(t, ind, false) =~= seq![]);
            assert(joined(l, ind, true) =~= code_lines(l, ind));
            assert(indent_of(ind, blank_line(l[0])) + joined(l, ind, false) =~= code_lines(l, ind));
        } else {
            assert(t[0] == l[1]);
            assert(joined(l, ind, true) =~= code_lines(l, ind));
            let b = if blank_line(l[0]) { seq![] } else { l[0] };
            let i1 = indent_of(ind, blank_line(l[1]));
            assert(joined(l, ind, false) =~= b + (seq!['\n'] + i1) + joined(t, ind, false));
            assert(joined(l, ind, false) =~= b + seq!['\n'] + (i1 + joined(t, ind, false)));
            assert(indent_of(ind, blank_line(l[0])) + joined(l, ind, false) =~= code_lines(l, ind));
        }
    }
}
proof fn lemma_end_breaks_step(s: Seq<char>)
    ensures end_breaks(s.push('\n')) == end_breaks(s) + 1,
{
    let p = |c: char| c == '\n' || c == '\r';
    assert(rev(s.push('\n')).skip(1) =~= rev(s));
    assert(rev(s.push('\n'))[0] == '\n');
}
proof fn lemma_end_breaks_fill(s: Seq<char>, n: nat)
    ensures end_breaks(s + fill_seq('\n', n as int)) == end_breaks(s) + n,
    decreases n,
{
    if n == 0 { assert(s + fill_seq('\n', 0) =~= s); } else {
        lemma_end_breaks_fill(s, (n - 1) as nat);
        lemma_end_breaks_step(s + fill_seq('\n', n - 1));
        assert(s + fill_seq('\n', n as int) =~= (s + fill_seq('\n', n - 1)).push('\n'));
    }
}
/// C17: outside of all containers, what precedes the next block ends with the given number of line breaks (and not
/// with fewer than it had)
pub proof fn theorem_breaks(st: FormatState<'_>, max: nat, trimmed: bool)
    requires st.writers@.len() == 0, st.nested_context@.len() == 0, st.indentation@.len() == 0, st.rewrite_buffer@.len() > 0,
    ensures ({
        let out = st.out() + st.breaks(max, trimmed);
        let had = end_breaks(st.out());
        end_breaks(out) == if had < max { max } else { had }
    }),
{
    let had = end_breaks(st.out());
    let n: nat = if max < had { 0 } else { (max - had) as nat };
    assert(st.ind() =~= seq![]);
    assert(st.indent(true) =~= seq![] && st.indent(false) =~= seq![]);
    assert(st.breaks(max, trimmed) =~= fill_seq('\n', n as int));
    lemma_end_breaks_fill(st.out(), n);
}

impl<'i> FormatState<'i> {
#[verifier::external_body]
pub fn rewrite_final_reference_links(self) -> Result<String, FmtError> { unimplemented!() }

//@fn formatter.rs FormatState::format
//@from let trailing_newline
//@name format_end
//@inputs self
//@ret r
//@rettype Result<String, FmtError>
//@closure 0
    -> (vx_r: bool) ensures vx_r == !sp_is_whitespace(c),
//@closure 1
    -> (vx_r: bool) requires bdy(self.input@, start as int), ensures vx_r == (exists|j: int| cix(self.input@, start as int) <= j < self.input@.len() && is_nl(#[trigger] self.input@[j])),
//@closure 2
    -> (vx_r: String) ensures
        trailing_newline ==> vx_r@.len() > 0 && vx_r@.last() == '\n' && (vx_r@.len() > 1 ==> !is_nl(vx_r@[vx_r@.len() - 2])),
        !trailing_newline ==> vx_r@.len() > 0 ==> !is_nl(vx_r@.last()),
//@proof closure 1 end
    proof {
        let a = VxAny2('\r', '\n');
        lemma_cix_inv(self.input@, start as int);
        let t = self.input@.skip(cix(self.input@, start as int));
        assert forall|j: int| cix(self.input@, start as int) <= j < self.input@.len() && is_nl(#[trigger] self.input@[j]) implies vx_ret by {
            let k = j - cix(self.input@, start as int);
            assert(t[k] == self.input@[j]);
            assert(a.at(t, k));
        }
        if vx_ret {
            let k = choose|k: int| #[trigger] a.at(t, k);
            let j = k + cix(self.input@, start as int);
            assert(t[k] == self.input@[j]);
            assert(is_nl(self.input@[j]));
        }
    }
//@loop 0
    invariant true,
    decreases output@.len(),
//@proof loop 0 after
    proof {
        let a = VxAny2('\r', '\n');
        if output@.len() > 0 && is_nl(output@.last()) {
            assert(a.at(output@, output@.len() - 1));
            assert(false);
        }
    }
//@proof let trailing_newline
    proof {
        assert forall|c: char| is_nl(c) implies sp_is_whitespace(c) by {}
        let s = self.input@;
        if ends_with_break(s) {
            let (k, j) = choose|k: int, j: int| 0 <= k < j < s.len() && !sp_is_whitespace(#[trigger] s[k]) && is_nl(#[trigger] s[j]) && forall|i: int| k < i < s.len() ==> sp_is_whitespace(#[trigger] s[i]);
            assert(trailing_newline);
        }
        if trailing_newline {
            assert(ends_with_break(s));
        }
    }
//@spec
    ensures r matches Ok(output) ==> final_break(self.input@, output@),
//@end

//@fn formatter.rs FormatState::last_was_line_break
//@ret r
//@keep as_ref
//@closure 0
    -> (vx_r: bool) ensures vx_r == (arg_0.0 is SoftBreak || arg_0.0 is HardBreak),
//@spec
    ensures r == self.after_break(),
//@end
//@fn formatter.rs FormatState::trim_leading_indentation
//@ret r
//@keep indentation
//@spec
    ensures r@ == unindents(self.all_ind(), s@), unindented(s@, r@),
//@closure 0
    -> (vx_r: &[Cow<'static>]) ensures vx_r@ == writer.held(),
//@closure 1
    -> (vx_r: &'a str) ensures vx_r@ == skip_one(o@),
//@proof let held_indentation
    proof {
        let p = choose|p: Seq<&[Cow<'static>]>| #![trigger flat(slices(p))] p.len() == self.writers@.len() && (forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i])@ == self.writers@[i].held()) && refers(held_indentation@, flat(slices(p)));
        assert(slices(p) =~= helds(self.writers@));
        assert(derefs(held_indentation@) =~= flat(helds(self.writers@)));
    }
//@proof loop 0 before
    assert(derefs(vx_it0@) =~= flat(helds(self.writers@)) + self.indentation@);
    assert(texts(derefs(vx_it0@)) =~= self.all_ind());
    let ghost g = texts(derefs(vx_it0@));
    assert(g.skip(0) =~= g);
//@proof loop 0 begin
    let ghost b0 = output@;
    proof {
        let k = g.len() - vx_it0@.len();
        assert(texts(derefs(vx_it0@)) =~= g.skip(k));
        assert(g.skip(k - 1).skip(1) =~= g.skip(k));
        assert(g.skip(k - 1)[0] == indent@);
    }
//@proof loop 0 end
    proof {
        assert(pat(VxAny2(' ', '\t')) =~= spts());
        if indent@.len() > 0 && indent@[0] == '>' {
            assert(trim_start_p(b0, pat(VxAny2(' ', '\t'))) == skip_while(b0, spts()));
        }
        assert(output@ == unindent(indent@, b0));
    }
//@proof loop 1 begin
    let ghost b1 = output@;
//@proof loop 1 end
    assert(output@ == skip_one(b1));
//@loop 0
    invariant
        vx_it0@.len() <= g.len(), texts(derefs(vx_it0@)) == g.skip(g.len() - vx_it0@.len()), forall|i: int| 0 <= i < vx_it0@.len() ==> (#[trigger] vx_it0@[i])@ == g[g.len() - vx_it0@.len() + i],
        unindents(g.skip(g.len() - vx_it0@.len()), output@) == unindents(self.all_ind(), s@),
    decreases vx_it0@.len(),
//@loop 1
    invariant vx_i1 <= vx_end1, skip_up_to((vx_end1 - vx_i1) as nat, output@) == skip_up_to(blen(indent@), b0),
    decreases vx_end1 - vx_i1,
//@proof tail
    proof { theorem_unindent(s@, self.all_ind()); }
//@end
// ------------------------------------------------------------------------------------------------ escapes
//@fn escape.rs FormatState::needs_escape
//@ret r
//@spec
    ensures
        *final(self) == *old(self),
        r == if input@.len() == 0 { None }
        else if is_inline_element { kind_of(input@) }
        else if !old(self).after_break() { None }
        else if input@[0] == '>' { Some(EscapeKind::SingleLine(SingleLineEscape::BlockQuote)) }
        else if blen(input@) <= 2 { None }
        else { kind_of(input@) },
//@end
// ------------------------------------------------------------------------------------------------ code blocks
// nothing else changes the configuration, or calls the code formatter
//@calls set_config format_code_buffer
//@calls format_code_buffer write_code_block_buffer
//@fn formatter.rs FormatState::format_code_buffer
//@ret r
//@closure 0
    -> (vx_r: usize) ensures vx_r == if width < indentation { 0 } else { width - indentation },
//@spec
    requires blen(cat(old(self).ind())) <= usize::MAX,
    ensures
        *final(self) == (FormatState { formatter: final(self).formatter, ..*old(self) }),
        // C06: the configuration is the same again
        final(self).formatter.config == old(self).formatter.config,
        match info_string {
            None => r == unformatted_code && final(self).formatter == old(self).formatter,
            Some(info) => if within("markdown", info@) {
                // C05: a nested document, in the width that is left
                let inner = old(self).inner();
                &&& r@ == (match formatted(inner, unformatted_code@) { Some(t) => t, None => unformatted_code@ })
                &&& final(self).formatter.code_block_formatter == formatted_state(inner, unformatted_code@).code_block_formatter
            } else {
                // C05: one call of the code formatter, with these arguments; its result is used
                &&& final(self).formatter.code_block_formatter@ == old(self).formatter.code_block_formatter@.push(old(self).the_call(info@, unformatted_code@))
                &&& r@ == reply(final(self).formatter.code_block_formatter@)
            },
        },
//@end
//@fn formatter.rs FormatState::join_with_indentation
//@ret r
//@rename is_blank_line_char => |vx_c: char| -> (vx_r: bool) ensures vx_r == blc(vx_c), { is_blank_line_char(vx_c) }
//@spec
    ensures
        final(self).only_out(*old(self)),
        r is Ok ==> final(self).wrote(*old(self), joined(str_lines(trim_end_p(buffer@, blw())), old(self).ind(), start_with_indentation)),
//@proof head
    hide(indent_of);
    hide(texts);
    hide(joined);
    hide(str_lines);
    hide(blank_line);
    hide(MarkdownWriter::same);
    hide(MarkdownWriter::plain);
    hide(trim_end_p);
    proof { lemma_same(); }
//@closure 0
    -> (vx_r: bool) ensures vx_r == blank_line(l@),
//@proof loop 0 before
    let ghost g = str_lines(trim_end_p(buffer@, blw()));
    assert(g.skip(0) =~= g);
//@proof loop 0 begin
    let ghost before = self.out();
    let ghost k = g.len() - lines@.len();
    proof {
        assert(g.skip(k - 1).skip(1) =~= g.skip(k));
        lemma_joined(g.skip(k - 1), old(self).ind(), start_with_indentation);
        assert(line@ == g[k - 1]);
    }
//@proof loop 0 end
    proof {
        let l = g.skip(k - 1);
        let ind = old(self).ind();
        let a = if start_with_indentation { indent_of(ind, blank_line(l[0])) } else { seq![] };
        let b = if blank_line(l[0]) { seq![] } else { l[0] };
        let c = if l.len() > 1 { seq!['\n'] + (if start_with_indentation { seq![] } else { indent_of(ind, blank_line(l[1])) }) } else { seq![] };
        assert(old(self).plain() ==> self.out() =~= before + a + b + c);
        assert(joined_first(l, ind, start_with_indentation) =~= a + b + c);
        if old(self).plain() {
            assert(self.out() =~= before + joined_first(l, ind, start_with_indentation));
            assert(self.out() + joined(g.skip(k), ind, start_with_indentation) =~= before + joined(l, ind, start_with_indentation));
        }
    }
//@proof loop 0 after
    proof { lemma_joined(g.skip(g.len() as int), old(self).ind(), start_with_indentation); assert(old(self).plain() ==> self.out() =~= old(self).out() + joined(g, old(self).ind(), start_with_indentation)); }
//@loop 0
    invariant
        lines@.len() <= g.len(), forall|i: int| 0 <= i < lines@.len() ==> (#[trigger] lines@[i])@ == g[g.len() - lines@.len() + i],
        self.only_out(*old(self)), self.indentation == old(self).indentation,
        old(self).plain() ==> self.out() + joined(g.skip(g.len() - lines@.len()), old(self).ind(), start_with_indentation) == old(self).out() + joined(g, old(self).ind(), start_with_indentation),
    decreases lines@.len(),
//@end
//@fn formatter.rs FormatState::write_code_block_buffer
//@ret r
//@spec
    requires blen(cat(old(self).ind())) <= usize::MAX,
    ensures
        // C06
        final(self).formatter.config == old(self).formatter.config,
        final(self).only_out(FormatState { formatter: final(self).formatter, ..*old(self) }),
        r is Ok ==> {
            let code = old(self).code_result(info_string, unformatted_code@);
            let empty = info_string is Some && blank_line(code);
            &&& final(self).indentation == old(self).indentation
            &&& old(self).plain() ==> final(self).out() == old(self).out() + (if empty { seq![] } else {
                    joined(str_lines(trim_end_p(code, blw())), old(self).ind(), info_string is Some) + (if info_string is Some { seq!['\n'] } else { seq![] })
                })
            // C05
            &&& info_string is Some && !within("markdown", info_string->Some_0@) ==> final(self).formatter.code_block_formatter@ == old(self).formatter.code_block_formatter@.push(old(self).the_call(info_string->Some_0@, unformatted_code@))
            &&& info_string is None ==> final(self).formatter.code_block_formatter == old(self).formatter.code_block_formatter
        },
//@proof head
    hide(indent_of);
    hide(texts);
    hide(joined);
//@proof let code
    proof {
        assert(code@ == old(self).code_result(info_string, unformatted_code@));
        assert(self.out() == old(self).out());
        assert(seq!['\n'] =~= fill_seq('\n', 1));
    }
//@proof tail
    assert(old(self).plain() ==> self.out() =~= old(self).out() + (joined(str_lines(trim_end_p(code@, blw())), old(self).ind(), info_string is Some) + (if info_string is Some { seq!['\n'] } else { seq![] })));
//@end
}
}
}
