// src/formatter.rs: what is written for the parts of a line, and for the blocks without a start and an end
//@include prelude.vrs
//@include pulldown.vrs
//@use utils.vrs
//@use list.vrs
//@use escape.vrs
//@use state.vrs
//@use events.vrs
//@use starts.vrs
pub mod inline {
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use core::ops::Range;
use crate::prelude::*;
use crate::pulldown::*;
use crate::utils::*;
use crate::utils::texts;
use crate::escape::*;
use crate::html::{html_like, starts_with_html_block_identifier};
use crate::state::*;
use crate::state::trim;
use crate::events::*;
use crate::events::{marker_ok, marker_of};
use crate::starts::*;
verus! {
broadcast use group_prelude;

//@type writer.rs MarkdownContext
/// These texts might be escaped by the writers of paragraphs and headers
pub open spec fn text_like(ctx: MarkdownContext<'_, '_>) -> bool {
    ctx matches MarkdownContext::Event(Event::Text(_)) || ctx matches MarkdownContext::Event(Event::InlineHtml(_)) || ctx matches MarkdownContext::Event(Event::Code(_))
}
impl<'i> FormatState<'i> {
    /// The current buffer adds this text as it is in this context (paragraph.vrs, header.vrs and links.vrs say what happens otherwise)
    pub open spec fn takes_in(&self, ctx: MarkdownContext<'_, '_>, s: Seq<char>) -> bool {
        self.writers@.len() == 0 || match self.writers@.last() {
            MarkdownWriter::CodeBlock(_) | MarkdownWriter::FootnoteDefinition(_) => true,
            MarkdownWriter::Header(_) => !text_like(ctx),
            MarkdownWriter::Paragraph(_) => self.takes(s) && !text_like(ctx) && !(ctx is Tag),
            _ => false,
        }
    }
    /// s was written to the current buffer in a context and nothing else is different
    pub open spec fn put_in(&self, o: FormatState<'i>, ctx: MarkdownContext<'_, '_>, s: Seq<char>) -> bool {
        self.only_out(o) && self.indentation == o.indentation && (o.takes_in(ctx, s) ==> self.out() == o.out() + s)
    }
    /// Dynamic dispatch (current_buffer) to the last writer, or to rewrite_buffer if there's none
    #[verifier::external_body]
    pub fn vx_write_context_str(&mut self, ctx: MarkdownContext<'_, 'i>, s: &str) -> (r: FmtResult)
        ensures
            final(self).only_out(*old(self)), final(self).indentation == old(self).indentation,
            r is Ok ==> final(self).put_in(*old(self), ctx, s@),
    { unimplemented!() }

    /// (the default of the trait WriteContext)
    pub fn vx_write_event_str(&mut self, e: &Event<'i>, s: &str) -> (r: FmtResult)
        ensures
            final(self).only_out(*old(self)), final(self).indentation == old(self).indentation,
            r is Ok ==> final(self).put_in(*old(self), MarkdownContext::Event(e), s@),
    { self.vx_write_context_str(MarkdownContext::Event(e), s) }

    /// (the default of std::fmt::Write: the char as a str)
    #[verifier::external_body]
    pub fn vx_write_char(&mut self, c: char) -> (r: FmtResult)
        ensures
            final(self).only_out(*old(self)), final(self).indentation == old(self).indentation,
            r is Ok ==> final(self).wrote(*old(self), seq![c]) && final(self).put(*old(self), seq![c]),
    { unimplemented!() }

//@fn formatter.rs FormatState::in_metadata_block
//@ret r
//@spec
    ensures r == (self.nested_context@.len() > 0 && self.nested_context@.last() is MetadataBlock),
//@end
//@fn formatter.rs FormatState::last_was_paragraph_start
//@ret r
//@keep as_ref
//@closure 0
    -> (vx_r: bool) ensures vx_r == (arg_0.0 matches Event::Start(Tag::Paragraph)),
//@spec
    ensures r == (self.last_event matches Some((Event::Start(Tag::Paragraph), _))),
//@end
//@fn formatter.rs FormatState::would_start_metadata_block
//@ret r
//@closure 0
    -> (vx_r: &str) ensures vx_r@ == trim(line@),
//@closure 1
    -> (vx_r: bool) ensures vx_r == (line@.len() > 0 && !one_of(line@, end_markers@)),
//@closure 2
    -> (vx_r: bool) ensures vx_r == one_of(line@, end_markers@),
//@spec
    requires self.in_bounds(*range),
    ensures r == metadata_start(self.input@, *range, marker@, end_markers@),
//@proof let lines
    let ghost g = lines@;
    let ghost l = crate::utils::lines(self.input@.skip(cix(self.input@, range.start as int)));
    proof {
        assert(g.len() == if l.len() > 0 { l.len() - 1 } else { 0 });
        assert forall|i: int| 0 <= i < g.len() implies (#[trigger] g[i])@ == trim(l[i + 1]) by {}
    }
//@proof tail
    proof {
        if vx_ret {
            let h = g.skip(1);
            let k = choose|k: int| 0 <= k < h.len() && one_of((#[trigger] h[k])@, end_markers@);
            assert(h[k] == g[k + 1]);
            assert(one_of(trim(l[k + 2]), end_markers@));
        } else if metadata_start(self.input@, *range, marker@, end_markers@) {
            let k = choose|k: int| 1 < k < l.len() && one_of(trim(#[trigger] l[k]), end_markers@);
            assert(g[0]@ == trim(l[1]));
            let h = g.skip(1);
            assert(h[k - 2] == g[k - 1]);
            assert(false);
        }
    }
//@end

/// Rule: C13, three hyphens aren't written where they would start a metadata block
//@fn formatter.rs FormatState::format
//@arm Event::Rule
//@name rule
//@inputs &mut self, event: Event<'i>, range: Range<usize>
//@rename &mut self => self
//@ret r
//@rettype FmtResult
//@tail Ok(())
//@spec
    requires
        old(self).in_bounds(range), old(self).in_bounds(old(self).last_position..range.start), blen(old(self).input@) <= usize::MAX,
    ensures r is Ok ==> exists|d: FormatState<'i>, m: FormatState<'i>, gap: Seq<char>| #[trigger] final(self).rule_written(*old(self), d, m, gap, event, range),
//@proof let newlines
    let ghost d = *self;
//@proof before if self.would_start_metadata_block
    let ghost m = *self;
    let ghost gap = if newlines == 0 { Seq::empty() } else { d.breaks(newlines as nat, false) };
    proof {
        assert(line_breaks(gap, d.ind()));
        assert(d.plain() ==> m.out() =~= d.out() + gap);
    }
//@proof tail
    proof { assert(self.rule_written(*old(self), d, m, gap, event, range)); }
//@end
    /// The definitions before it (d), line breaks (m) and the rule
    pub open spec fn rule_written(&self, o: FormatState<'i>, d: FormatState<'i>, m: FormatState<'i>, gap: Seq<char>, event: Event<'i>, range: Range<usize>) -> bool {
        &&& d.defs_before(o, range.start) && m.gap(d, gap)
        &&& (FormatState { needs_indent: m.needs_indent, ..*self }).put_in(m, MarkdownContext::Event(&event), rule_text(o.input@, range))
    }
    /// The link reference definitions between the last event and this place were written
    pub open spec fn defs_before(&self, o: FormatState<'i>, start: usize) -> bool {
        &&& self.defs_written(o, o.last_position..start) && self.indentation == o.indentation
        &&& o.plain() ==> defs_out(o.out(), self.out(), o.defs(o.last_position..start), o.ind())
    }

/// Footnote reference, marker of a task
//@fn formatter.rs FormatState::format
//@arm Event::FootnoteReference(reftext)
//@name footnote_reference
//@inputs &mut self, event: Event<'i>, text: &CowStr<'i>
//@ret r
//@rettype FmtResult
//@tail Ok(())
//@spec
    ensures r is Ok ==> final(self).put_in(*old(self), MarkdownContext::Event(&event), ("[^")@ + text@ + ("]")@),
//@end
//@fn formatter.rs FormatState::format
//@arm Event::TaskListMarker(done)
//@name task_list_marker
//@inputs &mut self, event: Event<'i>, done: bool
//@ret r
//@rettype FmtResult
//@tail Ok(())
//@spec
    ensures r is Ok ==> final(self).put_in(*old(self), MarkdownContext::Event(&event), if done { ("[x] ")@ } else { ("[ ] ")@ }),
//@end

/// HTML: C18, the text without the blank lines at its end
//@fn formatter.rs FormatState::format
//@arm Event::Html(_)
//@name html
//@inputs &mut self, event: Event<'i>, range: Range<usize>, mut last_position: usize
//@rename is_blank_line_char => |vx_c: char| -> (vx_r: bool) ensures vx_r == blc(vx_c), { is_blank_line_char(vx_c) }
//@ret r
//@rettype Result<usize, FmtError>
//@tail Ok(last_position)
//@spec
    requires old(self).in_bounds(range), blen(old(self).input@) <= usize::MAX,
    ensures
        r matches Ok(p) ==> {
            let s = trim_end_p(between(old(self).input@, range.start as int, range.end as int), blw());
            // blank lines are left for later
            if s.len() == 0 { p == old(self).last_position && *final(self) == (FormatState { needs_indent: final(self).needs_indent, ..*old(self) }) }
            else { p == last_position && exists|m: FormatState<'i>, gap: Seq<char>| #[trigger] final(self).html_written(*old(self), m, gap, event, s) }
        },
//@proof start
    let ghost t = between(self.input@, range.start as int, range.end as int);
    let ghost mut m = *self;
    let ghost mut gap = Seq::empty();
    proof {
        assert forall|p: spec_fn(char) -> bool| (forall|c: char| p(c) == blc(c)) implies #[trigger] trim_end_p(t, p) == trim_end_p(t, blw()) by { assert(p =~= blw()); }
        lemma_same();
    }
//@proof let newlines
    let ghost n = newlines as nat;
//@proof before self.write_event_str
    proof {
        m = *self;
        gap = if old(self).needs_indent && n > 0 { old(self).breaks(n, false) } else { Seq::empty() };
        assert(line_breaks(gap, old(self).ind()));
        assert(old(self).plain() ==> m.out() =~= old(self).out() + gap);
    }
//@proof after self.write_event_str
    let ghost w = *self;
    proof { assert(w.put_in(m, MarkdownContext::Event(&event), snippet@)); }
//@proof tail
    proof { if snippet@.len() > 0 && vx_ret is Ok { assert(self.html_written(*old(self), m, gap, event, trim_end_p(t, blw()))); } }
//@end
    pub open spec fn html_written(&self, o: FormatState<'i>, m: FormatState<'i>, gap: Seq<char>, event: Event<'i>, s: Seq<char>) -> bool {
        &&& m.gap_if(o, gap)
        &&& (FormatState { needs_indent: m.needs_indent, ..*self }).put_in(m, MarkdownContext::Event(&event), s)
    }

/// The end of a line
//@fn formatter.rs FormatState::next_inline_could_start_block
//@ret r
//@spec
    requires old(self).events@.len() > 0 ==> old(self).in_input(old(self).events@[0].1),
    ensures
        *final(self) == *old(self),
        r ==> old(self).next_event() matches Some(Event::Code(_)) || old(self).next_event() matches Some(Event::InlineHtml(_)),
        r == (!old(self).after_list_marker() && old(self).opens_next()),
//@proof start
    proof { assert(fill_seq(' ', 1) =~= seq![' ']); }
//@proof let before
    proof {
        let k = trim_end_p(before@, spts()).len() as int;
        assert(pat(VxAny2(' ', '\t')) =~= spts());
        lemma_trim_end(before@, spts());
        lemma_cix(before@, k);
    }
//@end
    pub open spec fn in_input(&self, r: Range<usize>) -> bool { bdy(self.input@, r.start as int) && bdy(self.input@, r.end as int) && r.start <= r.end }
    /// The last text and a space would start a list
    pub open spec fn after_list_marker(&self) -> bool {
        self.last_event matches Some((Event::Text(t), _)) && (t@.len() > 0 && (t@.last() == '.' || t@.last() == ')') && looks_like_ordered(t@ + seq![' ']))
    }
    /// Code or HTML comes next, at the start of an indented line, and it would start a block if it weren't indented
    pub open spec fn opens_next(&self) -> bool {
        &&& self.events@.len() > 0 && (self.events@[0].0 is Code || self.events@[0].0 is InlineHtml)
        &&& far(take_while_end(self.input@.take(cix(self.input@, self.events@[0].1.start as int)), spts()))
        &&& ({ let l = lines(between(self.input@, self.events@[0].1.start as int, self.events@[0].1.end as int)); l.len() > 0 && opens(l[0]) })
    }
//@fn formatter.rs FormatState::format
//@arm Event::SoftBreakif self.next_inline_could_start_block()
//@name soft_break_as_space
//@inputs &mut self, event: Event<'i>, range: Range<usize>, mut last_position: usize
//@ret r
//@rettype Result<usize, FmtError>
//@tail Ok(last_position)
//@proof start
    proof { assert(fill_seq(' ', 1) =~= seq![' ']); }
//@spec
    ensures r matches Ok(p) ==> p == range.end && final(self).put_in(*old(self), MarkdownContext::Event(&event), seq![' ']),
//@end
//@fn formatter.rs FormatState::format
//@arm Event::SoftBreak
//@name soft_break
//@inputs &mut self, event: Event<'i>, range: Range<usize>, mut last_position: usize
//@ret r
//@rettype Result<usize, FmtError>
//@tail Ok(last_position)
//@proof start
    proof { lemma_same(); assert(fill_seq('\n', 1) =~= seq!['\n']); }
//@spec
    ensures
        r matches Ok(p) ==> {
            let o = *old(self);
            &&& p == range.end && final(self).only_out(o) && final(self).indentation == o.indentation
            &&& o.in_par() || o.in_ref() ==> final(self).put_in(o, MarkdownContext::Event(&event), seq!['\n'])
            &&& !o.in_par() && !o.in_ref() && o.plain() && o.takes_in(MarkdownContext::Event(&event), seq!['\n']) ==> final(self).out() == o.out() + seq!['\n'] + o.indent(false)
        },
//@end
//@fn formatter.rs FormatState::format
//@arm Event::HardBreak
//@name hard_break
//@inputs &mut self, event: Event<'i>, range: Range<usize>
//@ret r
//@rettype FmtResult
//@tail Ok(())
//@spec
    requires old(self).in_input(range),
    ensures r is Ok ==> final(self).put_in(*old(self), MarkdownContext::Event(&event), unix(between(old(self).input@, range.start as int, range.end as int))),
//@proof start
    let ghost vx_r = range;
    proof {
        assert(("\n")@ =~= seq!['\n']); assert(("\r\n")@ =~= seq!['\r', '\n']);
        lemma_unix(between(self.input@, vx_r.start as int, vx_r.end as int), "\r\n");
    }
//@end
    pub open spec fn in_par(&self) -> bool { self.writers@.len() > 0 && self.writers@.last() is Paragraph }
    pub open spec fn in_ref(&self) -> bool { self.nested_context@.len() > 0 && (self.nested_context@.last() is Link || self.nested_context@.last() is Image) }

/// Code and HTML of several lines
//@fn formatter.rs FormatState::rewrite_multiline_event
//@ret r
//@spec
    ensures
        final(self).only_out(*old(self)), final(self).indentation == old(self).indentation,
        r is Ok && old(self).exact() ==> final(self).out() == old(self).out() + multiline(unindented_lines(lines(snippet@), old(self).all_ind()), event is Code, snippet@.len() > 0 && snippet@.last() == '\n'),
//@proof start
    proof { lemma_same(); assert(fill_seq('\n', 1) =~= seq!['\n']); assert(fill_seq(' ', 1) =~= seq![' ']); assert(fill_seq('`', 1) =~= seq!['`']); }
    let ghost l = lines(snippet@);
    let ghost u = unindented_lines(l, self.all_ind());
    let ghost code = *event is Code;
//@proof loop 0 before
    proof {
        assert(self.out() + multi_lines(u, code, 0) =~= self.out());
        assert forall|i: int| 0 <= i < iter@.len() implies (#[trigger] iter@[i]).0 == i && iter@[i].1@ == l[i] by {}
        assert(iter@ =~= iter@.skip(0));
    }
    let ghost g = iter@;
//@loop 0
    invariant
        g.len() == l.len(), forall|i: int| 0 <= i < g.len() ==> (#[trigger] g[i]).0 == i && g[i].1@ == l[i],
        u == unindented_lines(l, old(self).all_ind()), code == (*event is Code), l == lines(snippet@),
        iter@.len() <= g.len(), iter@ == g.skip(g.len() - iter@.len()),
        self.only_out(*old(self)), self.indentation == old(self).indentation,
        old(self).exact() ==> self.out() == old(self).out() + multi_lines(u, code, g.len() - iter@.len()),
    ensures iter@.len() == 0,
    decreases iter@.len(),
//@proof loop 0 begin
    let ghost k = g.len() - iter@.len() - 1;
    let ghost b = *self;
    proof { assert(g[k].0 == i && s@ == l[k]); lemma_only_out(b, *old(self)); lemma_same(); }
//@proof loop 0 end
    proof {
        assert(line@ == u[k]);
        assert(old(self).exact() ==> b.exact());
        if old(self).exact() { assert(self.out() =~= b.out() + multi_line(u, code, k)); }
        assert(iter@ =~= g.skip(k + 1));
        assert(old(self).exact() ==> self.out() =~= old(self).out() + multi_lines(u, code, k + 1));
    }
//@end
    /// The current buffer adds everything as it is, in every context
    pub open spec fn exact(&self) -> bool { self.writers@.len() == 0 || self.writers@.last() is CodeBlock || self.writers@.last() is FootnoteDefinition }

//@fn formatter.rs FormatState::format
//@arm Event::Code(_)
//@name code
//@inputs &mut self, event: Event<'i>, range: Range<usize>
//@rename &mut self => self
//@ret r
//@rettype FmtResult
//@tail Ok(())
//@spec
    requires marker_ok(old(self).input@, range), event is Code,
    ensures
        final(self).only_out(*old(self)), final(self).indentation == old(self).indentation,
        r is Ok && old(self).exact() ==> final(self).out() == old(self).out() + old(self).code_text(range),
//@proof start
    proof { lemma_same(); }
//@proof before self.rewrite_multiline_event
    let ghost a = *self;
    proof { lemma_only_out(a, *old(self)); assert(old(self).exact() ==> a.exact() && a.out() == old(self).out() + marker_of(old(self).input@, range)); }
//@proof after self.rewrite_multiline_event
    let ghost b = *self;
//@proof tail
    proof { if vx_ret is Ok && old(self).exact() { assert(self.out() =~= old(self).out() + old(self).code_text(range)); } }
//@end
    pub open spec fn code_text(&self, r: Range<usize>) -> Seq<char> {
        let t = between(self.input@, r.start as int, r.end as int);
        if nl(t) == 0 { t } else {
            let c = trim_end_p(trim_start_p(t, pat('`')), pat('`'));
            marker_of(self.input@, r) + multiline(unindented_lines(lines(c), self.all_ind()), true, c.len() > 0 && c.last() == '\n') + marker_of(self.input@, r)
        }
    }
//@fn formatter.rs FormatState::format
//@arm Event::InlineHtml(_)
//@name inline_html
//@inputs &mut self, event: Event<'i>, range: Range<usize>
//@ret r
//@rettype FmtResult
//@tail Ok(())
//@spec
    requires old(self).in_input(range), event is InlineHtml,
    ensures
        final(self).only_out(*old(self)), final(self).indentation == old(self).indentation,
        r is Ok && old(self).exact() ==> ({
            let t = between(old(self).input@, range.start as int, range.end as int);
            final(self).out() == old(self).out() + multiline(unindented_lines(lines(t), old(self).all_ind()), false, t.len() > 0 && t.last() == '\n')
        }),
//@end

/// Text
//@fn formatter.rs FormatState::format
//@lift could_be_interpreted_as_html
//@name html_start
//@generics
//@inputs t: &str, state: &mut FormatState<'i>
//@ret r
//@rettype bool
//@spec
    ensures *final(state) == *old(state), r == old(state).starts_html(t@),
//@proof start
    proof { assert(t@ =~= ("<")@ <==> t@ == ("<")@); }
//@end
    pub open spec fn starts_html(&self, t: Seq<char>) -> bool {
        ||| self.after_break() && t == ("<")@ && (self.next_event() matches Some(Event::Text(u)) && html_like(u@))
        // the `>` of a block quote might be written after it
        ||| self.quoted() && (self.last_event matches Some((Event::Text(u), _)) && u@.len() > 0 && u@.last() == '<') && t.len() > 0 && t[0] == '!'
    }
    pub open spec fn quoted(&self) -> bool { exists|i: int| 0 <= i < self.nested_context@.len() && #[trigger] self.nested_context@[i] is BlockQuote }
    /// The char before it escapes its first char
    pub open spec fn escaped_start(&self, start: usize) -> bool {
        let b = self.input@.take(cix(self.input@, start as int));
        !(b.len() > 0 && b.last() == '\n') && str_lines(b).len() > 0 && ends_on_escape(str_lines(b).last())
    }
    /// The kind of escape a text needs at the start of a line
    pub open spec fn line_escape(&self, s: Seq<char>) -> Option<EscapeKind> {
        if s.len() == 0 || !self.after_break() { None }
        else if s[0] == '>' { Some(EscapeKind::SingleLine(SingleLineEscape::BlockQuote)) }
        else if blen(s) <= 2 { None }
        else { kind_of(s) }
    }
    pub open spec fn shown_text(&self, parsed: Seq<char>, r: Range<usize>) -> Seq<char> {
        let t = between(self.input@, r.start as int, r.end as int);
        if t.len() == 0 || (self.nested_context@.len() > 0 && self.nested_context@.last() is HtmlBlock) { parsed } else { t }
    }
    pub open spec fn escapes_each(&self, s: Seq<char>, r: Range<usize>) -> bool { self.line_escape(s) is Some && multi(self.line_escape(s)->Some_0) && !self.escaped_start(r.start) }
    pub open spec fn escapes_first(&self, s: Seq<char>, r: Range<usize>) -> bool {
        ||| self.escaped_start(r.start)
        ||| self.line_escape(s) is Some
        ||| self.starts_html(s)
        ||| (self.last_event matches Some((Event::Start(Tag::Paragraph), _))) && metadata_start(self.input@, r, ("+++")@, ["+++"]@)
        ||| self.writers@.len() > 0 && self.writers@.last() is Table && s.len() > 0 && s[0] == '|'
    }
    pub open spec fn delimiters(&self, s: Seq<char>, r: Range<usize>) -> bool {
        let l = lines(self.input@.skip(cix(self.input@, r.start as int)));
        (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == '*' || s[i] == '_') && l.len() > 0 && kind_of(l[0]) is None
    }
    /// What is written for a text, if it isn't written as it is
    pub open spec fn escaped_text(&self, s: Seq<char>, r: Range<usize>) -> Option<Seq<char>> {
        if self.escapes_each(s, r) { Some(escape_each(s, kind_char(self.line_escape(s)->Some_0))) }
        else if self.escapes_first(s, r) { Some(seq!['\\'] + s) }
        else if self.after_break() && looks_like_ordered(s) { Some(escape_ordered(s)) }
        else if self.delimiters(s, r) { Some(s) }
        else { None }
    }
    /// A backslash at the end of a line whose other white space isn't written
    pub open spec fn backslash_end(&self, s: Seq<char>, end: usize) -> bool {
        let b = self.input@.take(cix(self.input@, end as int));
        s.len() > 0 && s.last() == '\\' && self.next_event() is Some && self.next_event()->Some_0 is SoftBreak && str_lines(b).len() > 0 && ends_on_escape(str_lines(b).last())
    }
    pub open spec fn more(&self, s: Seq<char>, end: usize) -> Seq<char> { if self.backslash_end(s, end) { seq!['\\'] } else { seq![] } }
    /// m: after line breaks, i: after the indentation of a metadata block
    pub open spec fn text_written(&self, o: FormatState<'i>, m: FormatState<'i>, gap: Seq<char>, i: FormatState<'i>, event: Event<'i>, parsed: Seq<char>, r: Range<usize>) -> bool {
        let s = o.shown_text(parsed, r);
        let w = FormatState { needs_indent: i.needs_indent, ..*self };
        &&& m.gap_if(o, gap) && !m.needs_indent
        &&& i == m || (i.wrote(m, m.indent(is_blank(s))) && o.nested_context@.len() > 0 && o.nested_context@.last() is MetadataBlock)
        &&& w.only_out(i) && w.indentation == i.indentation
        &&& exists|v: FormatState<'i>| #[trigger] v.text_put(o, i, event, s, r) && (i.plain() ==> self.out() == v.out() + o.more(s, r.end))
    }
    pub open spec fn text_put(&self, o: FormatState<'i>, i: FormatState<'i>, event: Event<'i>, s: Seq<char>, r: Range<usize>) -> bool {
        match o.escaped_text(s, r) {
            Some(t) => i.plain() ==> self.out() == i.out() + t,
            None => i.plain() && i.takes_in(MarkdownContext::Event(&event), s) ==> self.out() == i.out() + s,
        }
    }
//@fn formatter.rs FormatState::format
//@arm Event::Text(refparsed_text)
//@lifted could_be_interpreted_as_html
//@name text
//@inputs &mut self, event: Event<'i>, parsed_text: &CowStr<'i>, range: Range<usize>, mut last_position: usize
//@rename could_be_interpreted_as_html => Self::html_start
//@rename &mut self => self
//@rename escape::needs_escape => crate::escape::needs_escape
//@closure 1
    -> (vx_r: bool) ensures vx_r == (kind_of(line@) is None),
//@rename sequence_ends_on_escape => |vx_s: &str| -> (vx_r: bool) ensures vx_r == ends_on_escape(vx_s@), { sequence_ends_on_escape(vx_s) }
//@ret r
//@rettype Result<usize, FmtError>
//@tail Ok(last_position)
//@spec
    requires old(self).in_bounds(range), blen(old(self).input@) <= usize::MAX,
    ensures
        r matches Ok(p) ==> p == range.end && exists|m: FormatState<'i>, gap: Seq<char>, i: FormatState<'i>| #[trigger] final(self).text_written(*old(self), m, gap, i, event, parsed_text@, range),
//@attrs
#[verifier::rlimit(100)]
//@proof head
    hide(MarkdownWriter::same);
    hide(metadata_start);
    hide(kind_of);
    hide(trim_end_p);
//@proof start
    let ghost mut m = *self;
    let ghost mut gap = Seq::empty();
    proof { lemma_same(); assert(fill_seq('\\', 1) =~= seq!['\\']); }
//@proof before if self.in_metadata_block
    proof {
        m = *self;
        gap = if old(self).needs_indent && newlines > 0 { old(self).breaks(newlines as nat, false) } else { Seq::empty() };
        assert(line_breaks(gap, old(self).ind()));
        assert(old(self).plain() ==> m.out() =~= old(self).out() + gap);
        assert(text@ == old(self).shown_text(parsed_text@, range));
    }
//@proof let needs_escape
    let ghost i = *self;
    proof {
        lemma_same_kind();
        lemma_blank_trim(text@);
        assert(i == m || (i.wrote(m, m.indent(is_blank(text@))) && old(self).nested_context@.len() > 0 && old(self).nested_context@.last() is MetadataBlock));
        assert(needs_escape == old(self).line_escape(text@));
        assert(starts_with_escape == old(self).escaped_start(range.start));
        assert(i.starts_html(text@) == old(self).starts_html(text@));
        assert((i.writers@.len() > 0 && i.writers@.last() is Table) == (old(self).writers@.len() > 0 && old(self).writers@.last() is Table));
    }
//@proof let ends_with_backslash
    proof { assert(ends_with_backslash == old(self).backslash_end(text@, range.end)); }
//@loop 0
    invariant
        self.only_out(i), self.indentation == i.indentation, vx_it0@.len() <= text@.len(), vx_it0@ == text@.skip(text@.len() - vx_it0@.len()),
        i.plain() ==> self.out() == i.out() + escape_each(text@.take(text@.len() - vx_it0@.len()), marker),
    decreases vx_it0@.len(),
//@proof loop 0 begin
    let ghost b = self.out();
    let ghost k = text@.len() - vx_it0@.len() - 1;
    proof { assert(c == text@[k]); }
//@proof loop 0 end
    proof {
        assert(text@.take(k + 1).drop_last() =~= text@.take(k));
        assert(text@.take(k + 1).last() == c);
        assert(seq!['\\'] + seq![c] =~= seq!['\\', c]);
        let e = escape_each(text@.take(k), marker);
        if i.plain() {
            if c == marker { assert(self.out() =~= b + seq!['\\', c]); assert(self.out() =~= i.out() + (e + seq!['\\', c])); }
            else { assert(self.out() =~= b + seq![c]); assert(self.out() =~= i.out() + e.push(c)); }
        }
        assert(vx_it0@ =~= text@.skip(k + 1));
    }
//@proof loop 0 before
    proof { assert(text@.skip(0) =~= text@); assert(i.out() + escape_each(text@.take(0), marker) =~= i.out()); }
//@proof loop 0 after
    proof { assert(text@.take(text@.len() as int) =~= text@); assert(old(self).escapes_each(text@, range)); assert(self.text_put(*old(self), i, event, text@, range)); }
//@proof before write_context!(self, Escape, "\\{text}")
    proof { assert(old(self).escapes_first(text@, range)); assert(!old(self).escapes_each(text@, range)); }
//@proof after write_context!(self, Escape, "\\{text}")
    proof { assert(self.text_put(*old(self), i, event, text@, range)); }
//@proof before write_context!(self, Escape, "{number}
    proof { assert(!old(self).escapes_first(text@, range)); assert(!old(self).escapes_each(text@, range)); }
//@proof after write_context!(self, Escape, "{number}
    proof { assert(self.text_put(*old(self), i, event, text@, range)); }
//@proof before self.write_str(text)
    proof { assert(!old(self).escapes_first(text@, range)); assert(!old(self).escapes_each(text@, range)); assert(!looks_like_ordered(text@) || !old(self).after_break()); assert(old(self).delimiters(text@, range)); }
//@proof after self.write_str(text)
    proof { assert(self.text_put(*old(self), i, event, text@, range)); }
//@proof before write_context!(self, &event
    proof { assert(!old(self).escapes_first(text@, range)); assert(!old(self).escapes_each(text@, range)); assert(!looks_like_ordered(text@) || !old(self).after_break()); assert(!old(self).delimiters(text@, range)); }
//@proof after write_context!(self, &event
    proof { assert(self.text_put(*old(self), i, event, text@, range)); }
//@proof before if ends_with_backslash
    let ghost v = *self;
    proof {
        let s = text@;
        assert(v.text_put(*old(self), i, event, s, range));
    }
//@proof after if ends_with_backslash
    let ghost w = *self;
    proof {
        assert(w.only_out(i) && w.indentation == i.indentation);
        assert(i.plain() ==> v.plain());
        assert(i.plain() ==> w.out() =~= v.out() + old(self).more(text@, range.end));
    }
//@proof tail
    proof { if vx_ret is Ok {
        assert(*self == (FormatState { needs_indent: self.needs_indent, ..w }));
        assert(m.gap_if(*old(self), gap) && !m.needs_indent);
        assert(FormatState { needs_indent: i.needs_indent, ..*self } == w);
        assert(self.text_written(*old(self), m, gap, i, event, parsed_text@, range)); } }
//@end
}
/// C12: after a line break, a text that looks like the start of another block isn't written as that
pub proof fn theorem_text(st: FormatState<'_>, s: Seq<char>, r: Range<usize>)
    requires st.after_break(), s.len() > 0, s[0] == '>' || (blen(s) > 2 && kind_of(s) is Some) || looks_like_ordered(s),
    ensures
        st.escaped_text(s, r) matches Some(t) && t.len() > s.len() && kind_of(t) is None && t[0] != '>' && !looks_like_ordered(t),
{
    if st.escapes_each(s, r) {
        let c = kind_char(kind_of(s)->Some_0);
        lemma_escape_each(s, c);
        lemma_escape_each_len(s, c);
        let t = escape_each(s, c);
        if looks_like_ordered(t) { let j = choose|j: int| #[trigger] ordered_marker(t, j); assert(run(t, '0', j)); assert(false); }
    } else if st.escapes_first(s, r) {
        let t = seq!['\\'] + s;
        if looks_like_ordered(t) { let j = choose|j: int| #[trigger] ordered_marker(t, j); assert(run(t, '0', j)); assert(false); }
    } else {
        let k = choose|k: int| #[trigger] ordered_marker(s, k);
        let t = escape_ordered(s);
        assert(t == s.take(k + 1) + seq!['\\'] + s.skip(k + 1));
        if looks_like_ordered(t) {
            let j = choose|j: int| #[trigger] ordered_marker(t, j);
            assert forall|i: int| 0 <= i <= k implies t[i] == s[i] by {}
            assert(run(t, '0', k));
            lemma_run_unique(t, '0', j, k);
            assert(t[k + 1] == '\\');
        }
        assert(t[0] == '0' || t[0] == '1');
    }
}
proof fn lemma_escape_each_len(s: Seq<char>, c: char)
    ensures escape_each(s, c).len() >= s.len(), s.contains(c) ==> escape_each(s, c).len() > s.len(),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_escape_each_len(s.drop_last(), c);
        if s.contains(c) && s.last() != c {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == c;
            assert(s.drop_last()[i] == c);
        }
    }
}
proof fn lemma_same_kind()
    ensures forall|a: MarkdownWriter<'_>, b: MarkdownWriter<'_>| #[trigger] a.same(&b) ==> (a is Table == b is Table) && (a is Paragraph == b is Paragraph),
{}
pub open spec fn rule_text(input: Seq<char>, r: Range<usize>) -> Seq<char> {
    if metadata_start(input, r, ("---")@, seq!["---", "..."]) { ("----")@ } else { trim_end_p(between(input, r.start as int, r.end as int), ws()) }
}
/// A backslash before the `.` or `)` of a marker
pub open spec fn escape_ordered(s: Seq<char>) -> Seq<char> { let k = choose|k: int| #[trigger] ordered_marker(s, k); s.take(k + 1) + seq!['\\'] + s.skip(k + 1) }
/// Lines without their indentation; the first one has none
pub open spec fn unindented_lines(l: Seq<Seq<char>>, ind: Seq<Seq<char>>) -> Seq<Seq<char>> { Seq::new(l.len(), |i: int| if i == 0 { l[0] } else { unindents(ind, l[i]) }) }
/// The i-th of these lines: on a line of its own, but for one that would start a block there
pub open spec fn multi_line(l: Seq<Seq<char>>, code: bool, i: int) -> Seq<char> {
    let last = i + 1 == l.len();
    let line = if code && last { l[i] + seq!['`'] } else { l[i] };
    let open = opens(trim_end_p(line, ws())) || (!last && opens(l[i] + (" -")@));
    if i == 0 { l[i] } else if open { seq![' '] + l[i] } else { seq!['\n'] + l[i] }
}
pub open spec fn multi_lines(l: Seq<Seq<char>>, code: bool, n: int) -> Seq<char>
    decreases n
{
    if n <= 0 { seq![] } else { multi_lines(l, code, n - 1) + multi_line(l, code, n - 1) }
}
pub open spec fn multiline(l: Seq<Seq<char>>, code: bool, nl: bool) -> Seq<char> { multi_lines(l, code, l.len() as int) + (if nl { seq!['\n'] } else { seq![] }) }
proof fn lemma_only_out(a: FormatState<'_>, b: FormatState<'_>)
    requires a.only_out(b), a.indentation == b.indentation,
    ensures a.all_ind() == b.all_ind(),
{
    assert forall|i: int| 0 <= i < a.writers@.len() implies #[trigger] helds(a.writers@)[i] == helds(b.writers@)[i] by {
        if i < a.writers@.len() - 1 {
            assert(a.writers@.drop_last()[i] == a.writers@[i]);
            assert(b.writers@.drop_last()[i] == b.writers@[i]);
        }
    }
    assert(helds(a.writers@) =~= helds(b.writers@));
}
/// The white space at the end
pub open spec fn take_while_end(s: Seq<char>, p: spec_fn(char) -> bool) -> Seq<char> { s.skip(trim_end_p(s, p).len() as int) }
pub open spec fn far(s: Seq<char>) -> bool { blen(s) >= 4 || within('\t', s) }
/// A line that would start a block
pub open spec fn opens(l: Seq<char>) -> bool {
    l.len() > 0 && l[0] == '<' && html_like(html_name(l.skip(1))) || kind_of(l) is Some || looks_like_ordered(l)
}
/// The lines from here on would be a metadata block if they weren't indented
pub open spec fn metadata_start(input: Seq<char>, r: Range<usize>, marker: Seq<char>, ends: Seq<&str>) -> bool {
    let l = lines(input.skip(cix(input, r.start as int)));
    &&& trim_end_p(between(input, r.start as int, r.end as int), ws()) == marker
    &&& l.len() > 1 && trim(l[1]).len() > 0 && !one_of(trim(l[1]), ends)
    &&& exists|i: int| 1 < i < l.len() && one_of(trim(#[trigger] l[i]), ends)
}
}
}
