// src/formatter.rs: what is written for each event
//@include prelude.vrs
//@include pulldown.vrs
//@use utils.vrs
//@use escape.vrs
//@use state.vrs
pub mod events {
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use core::ops::Range;
use crate::prelude::*;
use crate::pulldown::*;
use crate::utils::*;
use crate::escape::*;
use crate::state::*;
use crate::state::texts;
verus! {
broadcast use group_prelude;

// ------------------------------------------------------------------------------------------------ markers
pub open spec fn isnt(c: char) -> spec_fn(char) -> bool { |d: char| d != c }
pub open spec fn at(input: Seq<char>, b: int) -> Seq<char> { input.skip(cix(input, b)) }
pub open spec fn between(input: Seq<char>, a: int, b: int) -> Seq<char> { input.subrange(cix(input, a), cix(input, b)) }
/// The chars at the start of the range that are the same as the first one
pub open spec fn marker_of(input: Seq<char>, range: Range<usize>) -> Seq<char> {
    let s = at(input, range.start as int);
    let m = take_while(s, pat(s[0]));
    if m.len() < s.len() { m } else { between(input, range.start as int, range.end as int) }
}
pub open spec fn marker_ok(input: Seq<char>, range: Range<usize>) -> bool {
    &&& range.start < range.end && bdy(input, range.start as int) && bdy(input, range.end as int) && blen(input) <= usize::MAX
    &&& at(input, range.start as int).len() > 0 && (at(input, range.start as int)[0] as u32) < 0x80
}
/// A position k chars after a position
pub proof fn lemma_after(s: Seq<char>, b: int, k: int)
    requires bdy(s, b), 0 <= k <= at(s, b).len(), ascii(at(s, b).take(k)),
    ensures bdy(s, b + k), cix(s, b + k) == cix(s, b) + k, between(s, b, b + k) == at(s, b).take(k),
{
    lemma_cix_inv(s, b);
    let i = cix(s, b);
    assert(s.take(i + k) =~= s.take(i) + at(s, b).take(k));
    lemma_blen_add(s.take(i), at(s, b).take(k));
    assert(blen(at(s, b).take(k)) == k);
    lemma_cix(s, i + k);
    assert(between(s, b, b + k) =~= at(s, b).take(k));
}
pub open spec fn only_not(c: char, x: char, b: bool) -> bool { b == (x != c) }
//@fn formatter.rs find_marker
//@generics <'i, P: Fn(char) -> bool>
//@ret r
//@spec
    requires
        marker_ok(input@, *range), forall|c: char| #[trigger] predicate.requires((c,)),
        forall|x: char, b: bool| #[trigger] predicate.ensures((x,), b) ==> only_not(at(input@, range.start as int)[0], x, b),
    ensures r@ == marker_of(input@, *range), r@.len() > 0 && r@[0] == at(input@, range.start as int)[0],
//@proof start
    let ghost s = at(input@, range.start as int);
    proof {
        let p = pat(s[0]);
        lemma_take_while(s, p);
        let m = take_while(s, p).len() as int;
        assert(forall|i: int| 0 <= i < m ==> p(#[trigger] s[i]));
        assert(ascii(s.take(m))) by { assert forall|i: int| 0 <= i < m implies (#[trigger] s.take(m)[i] as u32) < 0x80 by { assert(p(s[i])); } }
        lemma_after(input@, range.start as int, m);
        lemma_cix_inv(input@, range.start as int + m);
        lemma_cix_inv(input@, range.start as int);
        lemma_cix_inv(input@, range.end as int);
        if cix(input@, range.end as int) <= cix(input@, range.start as int) { lemma_blen_mono(input@, cix(input@, range.end as int), cix(input@, range.start as int)); }
        assert(p(s[0]));
    }
//@proof tail
    proof {
        let p = pat(s[0]);
        let m = take_while(s, p).len() as int;
        if m < s.len() { assert(!p(s[m])); assert(end == range.start + m); }
        else { assert(end == range.end) by { if end != range.end { assert(p(s[end - range.start])); } } }
    }
//@end
//@fn formatter.rs rewrite_marker_with_limit
//@generics <'i>
//@inputs input: &str, range: &Range<usize>, writer: &mut FormatState<'i>, size_limit: Option<usize>
//@ret r
//@spec
    requires
        marker_ok(input@, *range),
        size_limit matches Some(n) ==> n <= marker_of(input@, *range).len() && ascii(marker_of(input@, *range).take(n as int)),
    ensures
        final(writer).only_out(*old(writer)), final(writer).indentation == old(writer).indentation,
        r is Ok ==> ({
            let m = marker_of(input@, *range);
            let t = match size_limit { Some(n) => m.take(n as int), None => m };
            final(writer).wrote(*old(writer), t) && final(writer).put(*old(writer), t)
        }),
//@proof start
    proof {
        let m = marker_of(input@, *range);
        if let Some(n) = size_limit {
            assert(blen(m) >= 0); assert(m =~= m.skip(0)); assert(at(m, 0) =~= m); lemma_after(m, 0, n as int);
            assert(m.take(n as int) =~= at(m, 0).take(n as int));
        }
    }
//@end
//@fn formatter.rs rewrite_marker
//@generics <'i>
//@inputs input: &str, range: &Range<usize>, writer: &mut FormatState<'i>
//@ret r
//@spec
    requires marker_ok(input@, *range),
    ensures
        final(writer).only_out(*old(writer)), final(writer).indentation == old(writer).indentation,
        r is Ok ==> final(writer).wrote(*old(writer), marker_of(input@, *range)) && final(writer).put(*old(writer), marker_of(input@, *range)),
//@end

// ------------------------------------------------------------------------------------------------ what the writers return
// header.vrs, paragraph.vrs, links.vrs and table.vrs prove what it is
//@type header.rs HeaderKind Clone Copy
impl<'i> Header<'i> {
    pub uninterp spec fn kind_of(&self) -> HeaderKind<'i>;
    pub uninterp spec fn result(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn kind(&self) -> (r: HeaderKind<'i>) ensures r == self.kind_of() { unimplemented!() }
    #[verifier::external_body]
    pub fn into_parts(self) -> (r: Result<(String, Vec<Cow<'static>>), FmtError>) ensures r is Ok, r->Ok_0.0@ == self.result(), r->Ok_0.1@ == self.held() { unimplemented!() }
}
impl Paragraph {
    pub uninterp spec fn result(&self, r: Seq<char>) -> bool;
    #[verifier::external_body]
    pub fn into_buffer(self) -> (r: String) ensures self.result(r@) { unimplemented!() }
}
impl<'i> TableState<'i> {
    pub uninterp spec fn result(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn format(self) -> (r: Result<String, FmtError>) ensures r is Ok ==> r->Ok_0@ == self.result() { unimplemented!() }
}
/// A link reference definition; defs.vrs has what it is
#[verifier::external_body]
pub struct LinkReferenceDefinition<'i> { p: &'i () }
impl<'i> LinkReferenceDefinition<'i> {
    pub uninterp spec fn span(&self) -> Range<usize>;
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn range(&self) -> (r: Range<usize>) ensures r == self.span() { unimplemented!() }
    #[verifier::external_body]
    pub fn write<'j>(self, w: &mut FormatState<'j>) -> (r: FmtResult)
        ensures
            final(w).only_out(*old(w)), final(w).indentation == old(w).indentation,
            r is Ok ==> final(w).wrote(*old(w), self.text()),
    { unimplemented!() }
}
/// They are in this part of the input, one after the other
pub open spec fn defs_in(d: Seq<LinkReferenceDefinition<'_>>, input: Seq<char>, start: int, end: int) -> bool {
    &&& forall|i: int| 0 <= i < d.len() ==> {
        let r = (#[trigger] d[i]).span();
        start <= r.start <= r.end <= end && bdy(input, r.start as int) && bdy(input, r.end as int)
    }
    &&& forall|i: int, j: int| 0 <= i < j < d.len() ==> (#[trigger] d[i]).span().end <= (#[trigger] d[j]).span().end
}
/// What the parser for link reference definitions finds
pub uninterp spec fn parsed(snippet: Seq<char>, offset: usize) -> Seq<LinkReferenceDefinition<'static>>;
/// (the lifetimes aside)
pub uninterp spec fn shown<'i>(d: Seq<LinkReferenceDefinition<'static>>) -> Seq<LinkReferenceDefinition<'i>>;
#[verifier::external_body]
pub fn parse_link_reference_definitions<'i>(snippet: &'i str, offset: usize) -> (r: Vec<LinkReferenceDefinition<'i>>)
    ensures
        r@ == shown(parsed(snippet@, offset)),
        forall|input: Seq<char>| bdy(input, offset as int) && bdy(input, offset + blen(snippet@)) && between(input, offset as int, offset + blen(snippet@)) == snippet@ ==> #[trigger] defs_in(r@, input, offset as int, offset + blen(snippet@)),
{ unimplemented!() }

impl<'i> FormatState<'i> {
    /// Nothing is different but what has been written, and how far
    pub open spec fn only_defs(&self, o: FormatState<'i>) -> bool {
        &&& self.input == o.input && self.events == o.events && self.nested_context == o.nested_context
        &&& self.last_event == o.last_event && self.formatter == o.formatter
        &&& self.writers@.len() == o.writers@.len()
        &&& self.writers@.len() > 0 ==> {
            &&& self.rewrite_buffer == o.rewrite_buffer && self.writers@.drop_last() == o.writers@.drop_last()
            &&& self.writers@.last().same(&o.writers@.last())
        }
    }
}
/// b is a with the definitions d, each after some line breaks
pub open spec fn defs_out(a: Seq<char>, b: Seq<char>, d: Seq<LinkReferenceDefinition<'_>>, ind: Seq<Seq<char>>) -> bool
    decreases d.len()
{
    if d.len() == 0 { b == a } else {
        exists|m: Seq<char>, gap: Seq<char>| #[trigger] (m + gap + d.last().text()) == b && line_breaks(gap, ind) && defs_out(a, m, d.drop_last(), ind)
    }
}
/// Line breaks and the indentation of the lines
pub open spec fn line_breaks(gap: Seq<char>, ind: Seq<Seq<char>>) -> bool {
    gap.len() == 0 || exists|st: FormatState<'_>, n: nat, t: bool| gap == #[trigger] st.breaks(n, t) && st.ind() == ind
}
impl<'i> FormatState<'i> {
//@fn formatter.rs FormatState::rewrite_reference_link_definitions_inner
//@ret r
//@rename link_defs => vx_owned(link_defs)
//@spec
    requires
        bdy(old(self).input@, old(self).last_position as int),
        defs_in(link_defs@, old(self).input@, old(self).last_position as int, blen(old(self).input@) as int),
    ensures
        final(self).only_defs(*old(self)), r is Ok ==> final(self).indentation == old(self).indentation,
        link_defs@.len() == 0 ==> *final(self) == *old(self),
        // C08: all of them are written
        r is Ok && old(self).plain() ==> defs_out(old(self).out(), final(self).out(), link_defs@, old(self).ind()),
        r is Ok && link_defs@.len() > 0 ==> final(self).needs_indent && final(self).last_position == link_defs@.last().span().end,
//@proof loop 0 before
    let ghost g = link_defs@;
//@loop 0
    invariant
        vx_it0@.len() <= g.len(), vx_it0@ == g.skip(g.len() - vx_it0@.len()),
        self.only_defs(*old(self)), self.indentation == old(self).indentation,
        defs_in(g, old(self).input@, old(self).last_position as int, blen(old(self).input@) as int),
        vx_it0@.len() == g.len() ==> *self == *old(self),
        vx_it0@.len() < g.len() ==> self.needs_indent && self.last_position == g[g.len() - vx_it0@.len() - 1].span().end,
        bdy(self.input@, self.last_position as int),
        old(self).plain() ==> defs_out(old(self).out(), self.out(), g.take(g.len() - vx_it0@.len()), old(self).ind()),
    decreases vx_it0@.len(),
//@proof loop 0 begin
    let ghost d = link_def;
    let ghost st = *self;
    proof { assert(d == g[g.len() - vx_it0@.len() - 1]); }
//@proof loop 0 end
    proof {
        let k = g.len() - vx_it0@.len();
        assert(g.take(k).drop_last() =~= g.take(k - 1));
        assert(g.take(k).last() == d);
        if old(self).plain() {
            let gap = if newlines == 0 { Seq::<char>::empty() } else { st.breaks(newlines as nat, false) };
            assert(line_breaks(gap, old(self).ind()));
            assert(self.out() =~= st.out() + gap + d.text());
        }
    }
//@proof loop 0 after
    proof { assert(g.take(g.len() as int) =~= g); }
//@end
//@fn formatter.rs FormatState::rewrite_reference_link_definitions
//@ret r
//@spec
    requires old(self).in_bounds(*range), old(self).last_position == range.start, blen(old(self).input@) <= usize::MAX,
    ensures
        r is Ok ==> final(self).defs_written(*old(self), *range) && final(self).indentation == old(self).indentation,
        // C08: all of them are written
        r is Ok && old(self).plain() ==> defs_out(old(self).out(), final(self).out(), old(self).defs(*range), old(self).ind()),
//@proof start
    proof { lemma_cix_inv(self.input@, range.start as int); lemma_cix_inv(self.input@, range.end as int); lemma_between(self.input@, range.start as int, range.end as int); }
//@proof let link_defs
    proof {
        assert(snippet@ == between(self.input@, range.start as int, range.end as int));
        assert(range.start + blen(snippet@) == range.end);
        assert(defs_in(link_defs@, self.input@, range.start as int, range.start + blen(snippet@)));
        assert(link_defs@ == old(self).defs(*range));
        if link_defs@.len() > 0 { assert(link_defs@.last() == link_defs@[link_defs@.len() - 1]); }
    }
//@end
    /// The definitions in this part of the input
    pub open spec fn defs(&self, range: Range<usize>) -> Seq<LinkReferenceDefinition<'i>> {
        shown(parsed(between(self.input@, range.start as int, range.end as int), range.start))
    }
    pub open spec fn defs_written(&self, o: FormatState<'i>, range: Range<usize>) -> bool {
        &&& self.only_defs(o)
        &&& bdy(self.input@, self.last_position as int) && o.last_position <= self.last_position <= range.end
        &&& self.needs_indent == o.needs_indent || self.needs_indent
    }
    /// The last writer is gone, nothing else is different
    pub open spec fn without_writer(&self, o: FormatState<'i>) -> bool {
        &&& *self == (FormatState { writers: self.writers, ..o })
        &&& o.writers@.len() > 0 && self.writers@ == o.writers@.drop_last()
    }
    /// The same, after some link reference definitions
    pub open spec fn below(&self, o: FormatState<'i>) -> bool {
        &&& self.input == o.input && self.events == o.events && self.nested_context == o.nested_context
        &&& self.last_event == o.last_event && self.formatter == o.formatter && self.rewrite_buffer == o.rewrite_buffer
        &&& o.writers@.len() > 0 && self.writers@ == o.writers@.drop_last()
    }
    /// A block in nested_context ended
    pub open spec fn popped(&self, o: FormatState<'i>) -> bool {
        &&& *self == (FormatState { nested_context: self.nested_context, ..o })
        &&& o.nested_context@.len() > 0 && self.nested_context@ == o.nested_context@.drop_last()
    }
    pub open spec fn in_block(&self, tag: TagEnd) -> bool { self.nested_context@.len() > 0 && self.nested_context@.last().end() == tag }
    /// The last writer is gone, s has been written, and the indentation is ind
    pub open spec fn took_and_wrote(&self, o: FormatState<'i>, ind: Seq<Cow<'static>>, s: Seq<char>) -> bool {
        exists|m: FormatState<'i>| {
            &&& #[trigger] m.without_writer(o)
            &&& self.only_out(m) && self.indentation@ == ind
            &&& m.plain() ==> self.out() == m.out() + s
        }
    }
    pub open spec fn last_writer(&self) -> MarkdownWriter<'i> { self.writers@.last() }

// ------------------------------------------------------------------------------------------------ ends
/// Paragraph: its lines, each with the indentation
//@fn formatter.rs FormatState::end_tag
//@arm TagEnd::Paragraph
//@name end_paragraph
//@inputs &mut self
//@ret r
//@rettype FmtResult
//@tail Ok(())
//@spec
    requires old(self).writers@.len() > 0, old(self).last_writer() is Paragraph,
    ensures r is Ok ==> exists|text: Seq<char>| #[trigger] old(self).last_writer()->Paragraph_0.result(text)
        && final(self).took_and_wrote(*old(self), old(self).indentation@, joined(str_lines(trim_end_p(text, blw())), old(self).ind(), false)),
//@proof before self.join_with_indentation
    let ghost m = *self;
    proof { assert(m.without_writer(*old(self))); }
//@end

/// Heading: hashes, its text, and the indentation is as before the heading
//@fn formatter.rs FormatState::end_tag
//@arm TagEnd::Heading(_)
//@name end_heading
//@inputs &mut self
//@ret r
//@rettype FmtResult
//@tail Ok(())
//@spec
    requires old(self).writers@.len() > 0, old(self).last_writer() is Header,
    ensures r is Ok ==> ({
        let h = old(self).last_writer()->Header_0;
        let lines = joined(str_lines(trim_end_p(h.result(), blw())), texts(h.held()), false);
        final(self).took_and_wrote(*old(self), h.held(), atx(h.kind_of(), h.result().len() == 0) + lines)
    }),
//@proof let header_kind
    let ghost m = *self;
    proof { assert(m.without_writer(*old(self))); }
//@proof head
    hide(joined);
//@proof before self.indentation
    proof {
        lemma_hashes();
        assert(m.plain() ==> self.out() =~= m.out() + atx(header_kind, buffer@.len() == 0));
    }
//@proof tail
    proof {
        let lines = joined(str_lines(trim_end_p(buffer@, blw())), texts(self.indentation@), false);
        assert(m.plain() ==> self.out() =~= m.out() + (atx(header_kind, buffer@.len() == 0) + lines));
    }
//@end

    pub open spec fn footnote_ended(&self, o: FormatState<'i>, m: FormatState<'i>, text: Seq<char>, sep: Seq<char>) -> bool {
        let ind = texts(o.last_writer()->FootnoteDefinition_0.indentation@);
        &&& m.below(o) && self.only_out(m)
        &&& m.plain() ==> self.out() == m.out() + footnote_text(text, ind) + sep
        &&& if o.next_event() matches Some(Event::Start(Tag::FootnoteDefinition(_))) { line_breaks(sep, ind) } else { sep.len() == 0 }
    }
/// Footnote definition: its text on the lines below the label, each with four spaces after the indentation from before it
//@fn formatter.rs FormatState::end_tag
//@arm TagEnd::FootnoteDefinition
//@name end_footnote
//@inputs &mut self, range: Range<usize>
//@ret r
//@rettype FmtResult
//@tail Ok(())
//@spec
    requires
        old(self).writers@.len() > 0, old(self).last_writer() is FootnoteDefinition,
        old(self).in_bounds(range), blen(old(self).input@) <= usize::MAX,
    ensures r is Ok ==> ({
        let f = old(self).last_writer()->FootnoteDefinition_0;
        &&& final(self).indentation@ == f.indentation@
        &&& exists|text: Seq<char>, m: FormatState<'i>, sep: Seq<char>| {
            &&& defs_out(f.buffer@, text, old(self).defs(old(self).last_position..range.end), old(self).ind())
            &&& #[trigger] final(self).footnote_ended(*old(self), m, text, sep)
        }
    }),
//@proof head
    hide(joined);
    let ghost f0 = self.last_writer()->FootnoteDefinition_0;
    proof { lemma_cix_inv(self.input@, self.last_position as int); }
//@proof before let Some(MarkdownWriter
    let ghost t = self.out();
    proof { assert(self.last_writer()->FootnoteDefinition_0.indentation == f0.indentation); }
//@proof before if !buffer
    let ghost m = *self;
    let ghost ft = footnote_text(buffer@, texts(indentation@));
    proof { assert(m.below(*old(self))); assert(self.indentation == f0.indentation); }
//@proof before self.join_with_indentation
    proof {
        assert(self.indentation@ =~= f0.indentation@.push(footnote_indent));
        assert(self.ind() =~= texts(f0.indentation@).push(fill_seq(' ', 4)));
        assert(m.plain() ==> self.out() =~= m.out() + seq!['\n']);
    }
//@proof before if let Some(Event::Start
    let ghost st = *self;
    proof {
        assert(st.only_out(m));
        assert(st.indentation@ =~= f0.indentation@);
        assert(m.plain() ==> st.out() =~= m.out() + ft);
    }
//@proof tail
    proof {
        let sep = if old(self).next_event() matches Some(Event::Start(Tag::FootnoteDefinition(_))) { st.breaks(1, false) } else { Seq::<char>::empty() };
        assert(line_breaks(sep, st.ind()));
        assert(defs_out(f0.buffer@, t, old(self).defs(old(self).last_position..range.end), old(self).ind()));
        assert(m.below(*old(self)));
        assert(self.only_out(m));
        assert(self.indentation@ =~= f0.indentation@);
        assert(ft == footnote_text(t, texts(f0.indentation@)));
        assert(m.plain() ==> self.out() =~= m.out() + ft + sep);
        assert(self.footnote_ended(*old(self), m, t, sep));
    }
//@end

/// Code block: its lines, and the closing fence if it's fenced
//@fn formatter.rs FormatState::end_tag
//@arm TagEnd::CodeBlock
//@name end_code_block
//@inputs &mut self, range: Range<usize>
//@ret r
//@rettype FmtResult
//@tail Ok(())
//@spec
    requires
        old(self).writers@.len() > 0, old(self).last_writer() is CodeBlock, blen(cat(old(self).ind())) <= usize::MAX,
        match old(self).last_writer()->CodeBlock_0.1 {
            CodeBlockKind::Fenced(_) => marker_ok(old(self).input@, range),
            CodeBlockKind::Indented => old(self).indentation@.len() > 0 && old(self).indentation@.last()@ == fill_seq(' ', 4),
        },
    ensures
        r is Ok ==> exists|m: FormatState<'i>| #[trigger] m.without_writer(*old(self)) && final(self).code_ended(*old(self), m, range),
        // C06
        final(self).formatter.config == old(self).formatter.config,
//@proof before match kind
    let ghost m = *self;
    proof { lemma_four(); assert(m.without_writer(*old(self))); assert(m.ind() == old(self).ind()); }
//@proof head
    hide(joined);
//@proof before self.write_indentation
    proof {
        assert(m.ind() == texts(m.indentation@));
        assert(m.plain() ==> self.out() =~= m.out() + fenced_code(m, info_string@, code_block@));
    }
//@proof before rewrite_marker
    proof {
        assert(indent_of(m.ind(), false) == cat(m.ind()));
        assert(m.plain() ==> self.out() =~= m.out() + (fenced_code(m, info_string@, code_block@) + cat(m.ind())));
    }
//@proof tail
    proof {
        if kind is Fenced {
            let t = fenced_code(m, kind->Fenced_0@, code_block@) + cat(m.ind()) + marker_of(self.input@, range);
            assert(m.plain() ==> self.out() =~= m.out() + t);
            assert(self.indentation@ =~= m.indentation@);
        } else {
            assert(self.indentation@ =~= m.indentation@.drop_last());
        }
        assert(self.code_ended(*old(self), m, range));
    }
//@end

/// Table: its lines, and the indentation is as before the table
//@fn formatter.rs FormatState::end_tag
//@arm TagEnd::Table
//@name end_table
//@inputs &mut self
//@ret r
//@rettype FmtResult
//@tail Ok(())
//@spec
    requires
        old(self).writers@.len() > 0, old(self).last_writer() is Table,
        old(self).indentation@.len() > 0 && old(self).indentation@.last()@ == seq!['|'],
    ensures r is Ok ==> final(self).took_and_wrote(*old(self), old(self).indentation@.drop_last(),
        joined(str_lines(trim_end_p(old(self).last_writer()->Table_0.result(), blw())), old(self).ind(), false)),
//@proof before self.join_with_indentation
    let ghost m = *self;
    proof { lemma_bar(); assert(m.without_writer(*old(self))); }
//@proof tail
    proof { assert(self.indentation@ =~= old(self).indentation@.drop_last()); }
//@end

//@fn formatter.rs FormatState::end_tag
//@arm TagEnd::TableRow | TagEnd::TableHead
//@name end_table_row
//@inputs &mut self, tag: TagEnd
//@closure 0
    -> (vx_r: TagEnd) ensures vx_r == t.end(),
//@spec
    requires old(self).in_block(tag),
    ensures final(self).popped(*old(self)),
//@end
//@fn formatter.rs FormatState::end_tag
//@arm TagEnd::HtmlBlock
//@name end_html_block
//@inputs &mut self, tag: TagEnd
//@closure 0
    -> (vx_r: TagEnd) ensures vx_r == t.end(),
//@spec
    requires old(self).in_block(tag),
    ensures final(self).popped(*old(self)),
//@end

/// Metadata: the closing marker at the top level; in other blocks it ends with them
//@fn formatter.rs FormatState::end_tag
//@arm TagEnd::MetadataBlock(_meta)
//@name end_metadata
//@inputs &mut self, tag: TagEnd, range: Range<usize>
//@ret r
//@rettype FmtResult
//@tail Ok(())
//@closure 0
    -> (vx_r: TagEnd) ensures vx_r == t.end(),
//@spec
    requires old(self).in_block(tag), marker_ok(old(self).input@, range),
    ensures r is Ok ==> ({
        let m = FormatState { needs_indent: true, nested_context: final(self).nested_context, ..*old(self) };
        let b = old(self).rewrite_buffer@;
        &&& final(self).needs_indent && final(self).nested_context@ == old(self).nested_context@.drop_last()
        &&& if old(self).indentation@.len() == 0 { final(self).wrote(m, marker_of(old(self).input@, range)) } else {
            &&& *final(self) == (FormatState { rewrite_buffer: final(self).rewrite_buffer, ..m })
            &&& final(self).rewrite_buffer@ == if b.len() > 0 && b.last() == '\n' { b.drop_last() } else { b }
        }
    }),
//@end

/// List: a comment before an indented code block
//@fn formatter.rs FormatState::end_tag
//@arm TagEnd::List(_)
//@name end_list
//@inputs &mut self, tag: TagEnd
//@ret r
//@rettype FmtResult
//@tail Ok(())
//@closure 0
    -> (vx_r: TagEnd) ensures vx_r == t.end(),
//@spec
    requires old(self).in_block(tag),
    ensures r is Ok ==> exists|m: FormatState<'i>| {
        &&& #[trigger] m.popped(*old(self))
        &&& if old(self).next_event() matches Some(Event::Start(Tag::CodeBlock(CodeBlockKind::Indented))) {
            final(self).wrote(m, m.breaks(1, false) + (comment1().push('\n') + cat(m.ind()) + comment2()))
        } else { *final(self) == m }
    },
//@proof before if let Some(Event::Start
    let ghost m = *self;
    proof { assert(m.popped(*old(self))); }
//@proof tail
    proof {
        if old(self).next_event() matches Some(Event::Start(Tag::CodeBlock(CodeBlockKind::Indented))) {
            lemma_comments();
            assert(m.plain() ==> self.out() =~= m.out() + (m.breaks(1, false) + (comment1().push('\n') + cat(m.ind()) + comment2())));
        }
    }
//@end

/// Item: what is left of its definitions and lines
//@fn formatter.rs FormatState::end_tag
//@arm TagEnd::Item
//@name end_item
//@inputs &mut self, tag: TagEnd, range: Range<usize>
//@ret r
//@rettype FmtResult
//@tail Ok(())
//@closure 0
    -> (vx_r: TagEnd) ensures vx_r == t.end(),
//@spec
    requires old(self).in_block(tag), old(self).in_bounds(range), blen(old(self).input@) <= usize::MAX, old(self).indentation@.len() > 0,
    ensures r is Ok ==> exists|m: FormatState<'i>, s: Seq<char>| #[trigger] final(self).item_ended(*old(self), m, s, range),
//@proof start
    proof { lemma_cix_inv(self.input@, self.last_position as int); }
//@proof let newlines
    let ghost m = *self;
//@proof let popped_tag
    let ghost st = *self;
//@proof tail
    proof {
        let s = if m.needs_indent && newlines > 0 { m.breaks(newlines as nat, true) } else { Seq::empty() };
        assert(self.nested_context@ =~= old(self).nested_context@.drop_last());
        assert(self.indentation@ =~= old(self).indentation@.drop_last());
        assert(line_breaks(s, old(self).ind()));
        assert(m.plain() ==> self.out() =~= m.out() + s);
        assert(self.item_ended(*old(self), m, s, range));
    }
//@end
    pub open spec fn item_ended(&self, o: FormatState<'i>, m: FormatState<'i>, s: Seq<char>, range: Range<usize>) -> bool {
        let rest = o.last_position..range.end;
        // the definitions, then line breaks
        &&& m.defs_written(o, rest) && (o.plain() ==> defs_out(o.out(), m.out(), o.defs(rest), o.ind()))
        &&& line_breaks(s, o.ind())
        &&& m.plain() ==> self.out() == m.out() + s
        &&& self.indentation@ == o.indentation@.drop_last() && self.nested_context@ == o.nested_context@.drop_last()
        &&& self.events == o.events && self.last_event == o.last_event && self.formatter == o.formatter && self.writers@.len() == o.writers@.len()
        &&& self.needs_indent == (o.next_event() matches Some(Event::Start(Tag::Item)))
    }
    pub open spec fn code_ended(&self, o: FormatState<'i>, m: FormatState<'i>, range: Range<usize>) -> bool {
        match o.last_writer()->CodeBlock_0.1 {
            CodeBlockKind::Fenced(info) => {
                &&& self.indentation@ == o.indentation@
                &&& m.plain() ==> self.out() == m.out() + (fenced_code(m, info@, o.last_writer().text()) + cat(m.ind()) + marker_of(o.input@, range))
            },
            CodeBlockKind::Indented => {
                &&& self.indentation@ == o.indentation@.drop_last()
                &&& m.plain() ==> self.out() == m.out() + joined(str_lines(trim_end_p(o.last_writer().text(), blw())), m.ind(), false)
            },
        }
    }
}
/// The lines of a fenced code block
pub open spec fn fenced_code(m: FormatState<'_>, info: Seq<char>, text: Seq<char>) -> Seq<char> {
    let code = m.code_of(info, text);
    if blank_line(code) { Seq::empty() } else { joined(str_lines(trim_end_p(code, blw())), m.ind(), true).push('\n') }
}
#[verifier::opaque]
pub open spec fn comment1() -> Seq<char> { "<!-- Don't absorb code block into list -->"@ }
#[verifier::opaque]
pub open spec fn comment2() -> Seq<char> { "<!-- Consider a fenced code block instead -->"@ }
pub proof fn lemma_comments()
    ensures comment1().push('\n') == "<!-- Don't absorb code block into list -->\n"@, comment2() == "<!-- Consider a fenced code block instead -->"@,
{
    reveal(comment1); reveal(comment2);
    reveal_strlit("<!-- Don't absorb code block into list -->"); reveal_strlit("<!-- Don't absorb code block into list -->\n");
    assert(comment1().push('\n') =~= "<!-- Don't absorb code block into list -->\n"@);
}
pub proof fn lemma_four() ensures "    "@ == fill_seq(' ', 4) { reveal_strlit("    "); assert("    "@ =~= fill_seq(' ', 4)); }
pub proof fn lemma_bar() ensures "|"@ == seq!['|'] { reveal_strlit("|"); assert("|"@ =~= seq!['|']); }
/// A footnote's text
pub open spec fn footnote_text(t: Seq<char>, ind: Seq<Seq<char>>) -> Seq<char> {
    if t.len() == 0 { Seq::empty() } else { seq!['\n'] + joined(str_lines(trim_end_p(t, blw())), ind.push(fill_seq(' ', 4)), true) }
}
/// What is before the text of a heading
pub open spec fn atx(k: HeaderKind<'_>, empty: bool) -> Seq<char> {
    match k {
        HeaderKind::Atx(l) => if empty { hashes(l) } else { hashes(l).push(' ') },
        _ => Seq::empty(),
    }
}
pub open spec fn level(l: HeadingLevel) -> int {
    match l { HeadingLevel::H1 => 1, HeadingLevel::H2 => 2, HeadingLevel::H3 => 3, HeadingLevel::H4 => 4, HeadingLevel::H5 => 5, HeadingLevel::H6 => 6 }
}
pub open spec fn hashes(l: HeadingLevel) -> Seq<char> { fill_seq('#', level(l)) }
pub proof fn lemma_hashes()
    ensures
        "#"@ == fill_seq('#', 1), "##"@ == fill_seq('#', 2), "###"@ == fill_seq('#', 3), "####"@ == fill_seq('#', 4), "#####"@ == fill_seq('#', 5), "######"@ == fill_seq('#', 6),
        forall|n: int| n > 0 ==> #[trigger] trim_end_p(trim_start_p(fill_seq('#', n), ws()), ws()) == fill_seq('#', n),
        " "@ == seq![' '],
{
    reveal_strlit("#"); reveal_strlit("##"); reveal_strlit("###"); reveal_strlit("####"); reveal_strlit("#####"); reveal_strlit("######"); reveal_strlit(" ");
    assert("#"@ =~= fill_seq('#', 1)); assert("##"@ =~= fill_seq('#', 2)); assert("###"@ =~= fill_seq('#', 3)); assert("####"@ =~= fill_seq('#', 4));
    assert("#####"@ =~= fill_seq('#', 5)); assert("######"@ =~= fill_seq('#', 6)); assert(" "@ =~= seq![' ']);
}
/// A part of the input
pub proof fn lemma_between(s: Seq<char>, a: int, b: int)
    requires bdy(s, a), bdy(s, b), a <= b,
    ensures 0 <= cix(s, a) <= cix(s, b) <= s.len(), blen(between(s, a, b)) == b - a,
{
    lemma_cix_inv(s, a);
    lemma_cix_inv(s, b);
    if cix(s, b) < cix(s, a) { lemma_blen_mono(s, cix(s, b), cix(s, a)); }
    assert(s.take(cix(s, b)) =~= s.take(cix(s, a)) + between(s, a, b));
    lemma_blen_add(s.take(cix(s, a)), between(s, a, b));
}
}
}
