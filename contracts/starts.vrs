// src/formatter.rs: what is written where a block or a part of a line starts
//@include prelude.vrs
//@include pulldown.vrs
//@use utils.vrs
//@use escape.vrs
//@use state.vrs
//@use events.vrs
pub mod starts {
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use core::ops::Range;
use crate::prelude::*;
use crate::pulldown::*;
use crate::utils::*;
use crate::escape::*;
use crate::state::*;
use crate::state::texts;
use crate::events::*;
use crate::events::{marker_ok, marker_of};
verus! {
broadcast use group_prelude;

// ------------------------------------------------------------------------------------------------ the writers
// (their contracts are proved in paragraph.vrs, header.vrs and links.vrs)
impl Paragraph {
    pub uninterp spec fn width(&self) -> Option<usize>;
    #[verifier::external_body]
    pub fn new(max_width: Option<usize>, should_reflow_text: bool, capacity: usize) -> (r: Self)
        ensures r.text().len() == 0, r.width() == max_width, r.reflows() == (max_width is Some && should_reflow_text),
    { unimplemented!() }
}
impl<'i> Header<'i> {
    /// Made from this text and tag
    pub uninterp spec fn made_from(&self, text: Seq<char>, tag: Tag<'i>) -> bool;
    #[verifier::external_body]
    pub fn new(indentation: Vec<Cow<'static>>, full_header: &str, tag: Tag<'i>) -> (r: Self)
        requires tag is Heading,
        ensures r.text().len() == 0, r.held() == indentation@, r.made_from(full_header@, tag),
    { unimplemented!() }
}
impl LinkWriter {
    pub uninterp spec fn auto_link(&self) -> bool;
    #[verifier::external_body]
    pub fn new(capacity: usize, is_auto_link: bool) -> (r: Self) ensures r.text().len() == 0, r.auto_link() == is_auto_link { unimplemented!() }
}
impl<'i> TableState<'i> {
    pub uninterp spec fn made_from(&self, a: Seq<Alignment>) -> bool;
    #[verifier::external_body]
    pub fn new(alignments: Vec<Alignment>) -> (r: Self) ensures r.made_from(alignments@) { unimplemented!() }
}
impl<'i> FromSpecImpl<Header<'i>> for MarkdownWriter<'i> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(w: Header<'i>) -> Self { MarkdownWriter::Header(w) }
}
impl<'i> From<Header<'i>> for MarkdownWriter<'i> {
//@fn writer.rs From<Header<'i>>@MarkdownWriter::from
//@nopub
//@end
}
impl<'i> FromSpecImpl<FootnoteDefinition> for MarkdownWriter<'i> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(w: FootnoteDefinition) -> Self { MarkdownWriter::FootnoteDefinition(w) }
}
impl<'i> From<FootnoteDefinition> for MarkdownWriter<'i> {
//@fn writer.rs From<FootnoteDefinition>@MarkdownWriter::from
//@nopub
//@end
}
impl<'i> FromSpecImpl<Paragraph> for MarkdownWriter<'i> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(w: Paragraph) -> Self { MarkdownWriter::Paragraph(w) }
}
impl<'i> From<Paragraph> for MarkdownWriter<'i> {
//@fn writer.rs From<Paragraph>@MarkdownWriter::from
//@nopub
//@end
}
impl<'i> FromSpecImpl<TableState<'i>> for MarkdownWriter<'i> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(w: TableState<'i>) -> Self { MarkdownWriter::Table(w) }
}
impl<'i> From<TableState<'i>> for MarkdownWriter<'i> {
//@fn writer.rs From<TableState<'i>>@MarkdownWriter::from
//@nopub
//@end
}
impl<'i> FromSpecImpl<LinkWriter> for MarkdownWriter<'i> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(w: LinkWriter) -> Self { MarkdownWriter::Link(w) }
}
impl<'i> From<LinkWriter> for MarkdownWriter<'i> {
//@fn writer.rs From<LinkWriter>@MarkdownWriter::from
//@nopub
//@end
}

//@static list.rs LIST_START_CHARS
// ------------------------------------------------------------------------------------------------ starts
impl<'i> FormatState<'i> {
    /// Line breaks before a block
    pub open spec fn gap(&self, o: FormatState<'i>, gap: Seq<char>) -> bool {
        &&& self.only_out(FormatState { needs_indent: self.needs_indent, ..o }) && self.indentation == o.indentation
        &&& (o.plain() ==> self.out() == o.out() + gap) && line_breaks(gap, o.ind())
    }
    pub open spec fn gap_if(&self, o: FormatState<'i>, gap: Seq<char>) -> bool {
        self.gap(o, gap) && (!o.needs_indent ==> *self == o)
    }
    /// One more writer
    pub open spec fn with_writer(&self, m: FormatState<'i>) -> bool {
        *self == (FormatState { writers: self.writers, ..m }) && self.writers@.len() == m.writers@.len() + 1 && self.writers@.drop_last() == m.writers@
    }
    /// One more block in nested_context
    pub open spec fn nested(&self, m: FormatState<'i>, tag: Tag<'i>) -> bool {
        *self == (FormatState { nested_context: self.nested_context, ..m }) && self.nested_context@ == m.nested_context@.push(tag)
    }

/// Paragraph: its width is what the indentation leaves
//@fn formatter.rs FormatState::start_tag
//@arm Tag::Paragraph
//@name start_paragraph
//@inputs &mut self, range: Range<usize>
//@ret r
//@rettype FmtResult
//@tail Ok(())
//@closure 0
    -> (vx_r: usize) ensures vx_r == if w < blen(cat(self.ind())) { 0 } else { w - blen(cat(self.ind())) },
//@spec
    requires old(self).in_bounds(range), blen(cat(old(self).ind())) <= usize::MAX, 2 * blen(old(self).input@) <= usize::MAX,
    ensures r is Ok ==> exists|m: FormatState<'i>, gap: Seq<char>| #[trigger] final(self).paragraph_started(*old(self), m, gap),
//@proof tail
    proof {
        assert(self.writers@.drop_last() =~= m.writers@);
        assert(line_breaks(gap, old(self).ind()));
        assert(old(self).plain() ==> m.out() =~= old(self).out() + gap);
        assert(self.paragraph_started(*old(self), m, gap));
    }
//@proof let capacity
    let ghost m = *self;
    let ghost gap = if old(self).needs_indent && vx_n > 0 { old(self).breaks(vx_n as nat, false) } else { Seq::empty() };
//@proof start
    let ghost mut vx_n: usize = 0;
    proof { lemma_cix_inv(self.input@, range.start as int); lemma_cix_inv(self.input@, range.end as int); ax_len_mono(self.input@, range); }
//@proof let newlines
    proof { vx_n = newlines; }
//@end
    pub open spec fn paragraph_started(&self, o: FormatState<'i>, m: FormatState<'i>, gap: Seq<char>) -> bool {
        &&& m.gap_if(o, gap) && !m.needs_indent
        &&& self.with_writer(m) && self.last_writer() is Paragraph
        &&& ({
            let p = self.last_writer()->Paragraph_0;
            let n = blen(cat(o.ind()));
            let c = o.formatter.config;
            &&& p.text().len() == 0 && p.reflows() == (c.max_width is Some && c.reflow_text)
            // C11
            &&& match c.max_width { None => p.width() is None, Some(w) => p.width() == Some((if w < n { 0 } else { w - n }) as usize) }
        })
    }

/// Heading: the indentation is kept for the end of it
//@fn formatter.rs FormatState::start_tag
//@arm Tag::Heading{..}
//@name start_heading
//@inputs &mut self, tag: Tag<'i>, range: Range<usize>
//@ret r
//@rettype FmtResult
//@tail Ok(())
//@spec
    requires tag is Heading, old(self).in_bounds(range), blen(old(self).input@) <= usize::MAX,
    ensures r is Ok ==> exists|m: FormatState<'i>, gap: Seq<char>| #[trigger] final(self).heading_started(*old(self), m, gap, tag, range),
//@proof start
    let ghost mut vx_n: usize = 0;
    let ghost t = tag;
    let ghost vx_range = range;
//@proof let newlines
    proof { vx_n = newlines; }
//@proof let full_header
    let ghost m = *self;
    let ghost gap = if old(self).needs_indent && vx_n > 0 { old(self).breaks(vx_n as nat, false) } else { Seq::empty() };
//@proof tail
    proof {
        assert(self.writers@.drop_last() =~= m.writers@);
        assert(line_breaks(gap, old(self).ind()));
        assert(old(self).plain() ==> m.out() =~= old(self).out() + gap);
        assert(self.heading_started(*old(self), m, gap, t, vx_range));
    }
//@end
    pub open spec fn heading_started(&self, o: FormatState<'i>, m: FormatState<'i>, gap: Seq<char>, tag: Tag<'i>, range: Range<usize>) -> bool {
        &&& m.gap_if(o, gap) && !m.needs_indent
        &&& self.with_writer(FormatState { indentation: self.indentation, ..m }) && self.last_writer() is Header && self.indentation@.len() == 0
        &&& ({
            let h = self.last_writer()->Header_0;
            // C10
            h.text().len() == 0 && h.held() == o.indentation@ && h.made_from(trim(between(o.input@, range.start as int, range.end as int)), tag)
        })
    }

/// Footnote definition: its label; the indentation is kept for the end of it
//@fn formatter.rs FormatState::start_tag
//@arm Tag::FootnoteDefinition(reflabel)
//@name start_footnote
//@inputs &mut self, label: &CowStr<'i>, range: Range<usize>
//@rename range.clone() => vx_range(&range)
//@ret r
//@rettype FmtResult
//@tail Ok(())
//@closure 0
    -> (vx_r: Vec<LinkReferenceDefinition>)
        requires bdy(self.input@, range.start as int), bdy(self.input@, range.end as int), range.start <= range.end,
        ensures defs_in(vx_r@, self.input@, range.start as int, range.end as int),
//@spec
    requires
        old(self).in_bounds(range), blen(old(self).input@) * 2 <= usize::MAX, old(self).events@.len() > 0,
        old(self).next_in_bounds(range.start),
    ensures r is Ok ==> exists|m: FormatState<'i>, gap: Seq<char>| #[trigger] final(self).footnote_started(*old(self), m, gap, label@, range),
//@proof start
    let ghost mut vx_n: usize = 0;
    proof { ax_len_mono(self.input@, range); }
//@proof let newlines
    proof { vx_n = newlines; }
//@proof closure 0 end
    proof { lemma_snippet(vx_range, self.input@, vx_k, vx_ret@); }
//@proof closure 0
    let ghost vx_range = range;
    let ghost mut vx_k: int = 0;
//@proof let colon_index
    proof { vx_k = colon_index as int; assert(bdy(snippet@, 0)) by { lemma_cix(snippet@, 0); assert(snippet@.take(0) =~= Seq::<char>::empty()); } }
//@proof before let footnote
    let ghost m = *self;
    let ghost gap = if vx_n > 0 { old(self).breaks(vx_n as nat, false) } else { Seq::empty() };
    proof {
        assert(line_breaks(gap, old(self).ind()));
        assert(old(self).plain() ==> m.out() =~= old(self).out() + gap + (seq!['[', '^'] + label@ + seq![']', ':']));
    }
//@proof let link_defs
    proof {
        lemma_cix_inv(self.input@, old(self).events@[0].1.start as int);
        let e = if old(self).next_event() matches Some(Event::End(TagEnd::FootnoteDefinition)) { range.end } else { old(self).events@[0].1.start };
        assert(defs_in(link_defs@, self.input@, range.start as int, e as int));
        assert(defs_in(link_defs@, self.input@, range.start as int, blen(self.input@) as int));
    }
//@proof before self.rewrite_reference_link_definitions_inner
    proof { assert(self.writers@.drop_last() =~= m.writers@); }
//@proof tail
    proof { assert(self.footnote_started(*old(self), m, gap, label@, range)); }
//@end
    /// The next event isn't before this position
    pub open spec fn next_in_bounds(&self, start: usize) -> bool {
        let r = self.events@[0].1;
        &&& bdy(self.input@, r.start as int) && start <= r.start
    }
    pub open spec fn footnote_started(&self, o: FormatState<'i>, m: FormatState<'i>, gap: Seq<char>, label: Seq<char>, range: Range<usize>) -> bool {
        &&& m.only_out(FormatState { last_position: m.last_position, ..o }) && m.indentation == o.indentation && line_breaks(gap, o.ind())
        // C19: the label is the same
        &&& o.plain() ==> m.out() == o.out() + gap + (seq!['[', '^'] + label + seq![']', ':'])
        &&& self.events == o.events && self.nested_context == o.nested_context && self.rewrite_buffer == m.rewrite_buffer
        &&& self.writers@.len() == m.writers@.len() + 1 && self.writers@.drop_last() == m.writers@
        &&& self.last_writer() is FootnoteDefinition && self.last_writer()->FootnoteDefinition_0.indentation@ == o.indentation@ && self.indentation@.len() == 0
    }

/// Emphasis, strong emphasis and strikethrough: the marker at the start or the end of it
//@fn formatter.rs FormatState::start_tag
//@arm Tag::Emphasis
//@name start_emphasis
//@inputs &mut self, range: Range<usize>
//@ret r
//@rettype FmtResult
//@tail Ok(())
//@spec
    requires marker_ok(old(self).input@, range), marker_of(old(self).input@, range).len() >= 1, ascii(marker_of(old(self).input@, range).take(1)),
    ensures r is Ok ==> final(self).wrote(*old(self), marker_of(old(self).input@, range).take(1)) && final(self).put(*old(self), marker_of(old(self).input@, range).take(1)),
//@end
//@fn formatter.rs FormatState::start_tag
//@arm Tag::Strong
//@name start_strong
//@inputs &mut self, range: Range<usize>
//@ret r
//@rettype FmtResult
//@tail Ok(())
//@spec
    requires marker_ok(old(self).input@, range), marker_of(old(self).input@, range).len() >= 2, ascii(marker_of(old(self).input@, range).take(2)),
    ensures r is Ok ==> final(self).wrote(*old(self), marker_of(old(self).input@, range).take(2)) && final(self).put(*old(self), marker_of(old(self).input@, range).take(2)),
//@end
//@fn formatter.rs FormatState::start_tag
//@arm Tag::Strikethrough
//@name start_strikethrough
//@inputs &mut self, range: Range<usize>
//@ret r
//@rettype FmtResult
//@tail Ok(())
//@spec
    requires marker_ok(old(self).input@, range),
    ensures r is Ok ==> final(self).wrote(*old(self), marker_of(old(self).input@, range)) && final(self).put(*old(self), marker_of(old(self).input@, range)),
//@end
//@fn formatter.rs FormatState::end_tag
//@arm TagEnd::Emphasis
//@name end_emphasis
//@inputs &mut self, range: Range<usize>
//@ret r
//@rettype FmtResult
//@tail Ok(())
//@spec
    requires marker_ok(old(self).input@, range), marker_of(old(self).input@, range).len() >= 1, ascii(marker_of(old(self).input@, range).take(1)),
    ensures r is Ok ==> final(self).wrote(*old(self), marker_of(old(self).input@, range).take(1)) && final(self).put(*old(self), marker_of(old(self).input@, range).take(1)),
//@end
//@fn formatter.rs FormatState::end_tag
//@arm TagEnd::Strong
//@name end_strong
//@inputs &mut self, range: Range<usize>
//@ret r
//@rettype FmtResult
//@tail Ok(())
//@spec
    requires marker_ok(old(self).input@, range), marker_of(old(self).input@, range).len() >= 2, ascii(marker_of(old(self).input@, range).take(2)),
    ensures r is Ok ==> final(self).wrote(*old(self), marker_of(old(self).input@, range).take(2)) && final(self).put(*old(self), marker_of(old(self).input@, range).take(2)),
//@end
//@fn formatter.rs FormatState::end_tag
//@arm TagEnd::Strikethrough
//@name end_strikethrough
//@inputs &mut self, range: Range<usize>
//@ret r
//@rettype FmtResult
//@tail Ok(())
//@spec
    requires marker_ok(old(self).input@, range),
    ensures r is Ok ==> final(self).wrote(*old(self), marker_of(old(self).input@, range)) && final(self).put(*old(self), marker_of(old(self).input@, range)),
//@end

/// Code block: the opening fence, or the indentation
//@fn formatter.rs FormatState::start_tag
//@arm Tag::CodeBlock(kind)
//@name start_code_block
//@inputs &mut self, kind: CodeBlockKind<'i>, range: Range<usize>
//@rename range.clone() => vx_range(&range)
//@ret r
//@rettype FmtResult
//@tail Ok(())
//@closure 0
    -> (vx_r: &str) ensures vx_r@ == info_string@,
//@spec
    requires
        old(self).in_bounds(range), 2 * blen(old(self).input@) <= usize::MAX,
        kind is Fenced ==> marker_ok(old(self).input@, range),
    ensures r is Ok ==> exists|m: FormatState<'i>, gap: Seq<char>| #[trigger] final(self).code_started(*old(self), m, gap, kind, range),
//@proof head
    hide(MarkdownWriter::same);
    hide(MarkdownWriter::plain);
    hide(marker_of);
    hide(trim_start_p);
    hide(trim_end_p);
    hide(str_lines);
    hide(FormatState::breaks);
    hide(opening);
//@proof start
    let ghost mut vx_n: usize = 0;
    let ghost rg = range;
    let ghost mut fence: Seq<char> = Seq::empty();
    proof { lemma_same(); }
    let ghost vx_kind = kind;
    proof { ax_len_mono(self.input@, range); }
//@proof let newlines
    proof { vx_n = newlines; }
//@proof let capacity
    let ghost m = *self;
    let ghost gap = if old(self).needs_indent && vx_n > 0 { old(self).breaks(vx_n as nat, false) } else { Seq::empty() };
    proof {
        assert(line_breaks(gap, old(self).ind()));
        assert(old(self).plain() ==> m.out() =~= old(self).out() + gap);
    }
//@proof let starts_with_space
    proof {
        let t = between(self.input@, rg.start as int, rg.end as int);
        let rest = trim_start_p(t, pat(marker_char));
        assert(marker_char == at(self.input@, rg.start as int)[0]);
        assert(starts_with_space == (rest.len() > 0 && sp_is_whitespace(rest[0])));
    }
//@proof let info_string
    proof {
        let t = between(self.input@, rg.start as int, rg.end as int);
        assert(info_string@ == trims(trim_start_p(if str_lines(t).len() > 0 { str_lines(t)[0] } else { vx_kind->Fenced_0@ }, pat(marker_char))));
    }
    proof { lemma_opening(between(self.input@, rg.start as int, rg.end as int), marker_char, vx_kind->Fenced_0@, info_string@); }
    let ghost st = *self;
//@proof after if starts_with_space
    proof {
        let mk = marker_of(self.input@, rg);
        let o = opening(between(self.input@, rg.start as int, rg.end as int), marker_char, vx_kind->Fenced_0@);
        fence = mk + o;
        if m.plain() {
            assert(st.out() == m.out() + mk);
            assert(self.out() =~= st.out() + o);
            assert(st.out() + o =~= m.out() + fence);
        }
    }
//@proof before return
    proof {
        let mk = marker_of(self.input@, rg);
        assert(self.writers@.drop_last().len() == m.writers@.len());
        assert(m.writers@.len() > 0 ==> self.writers@[self.writers@.len() - 2] == self.writers@.drop_last().last());
        lemma_opening_empty(between(self.input@, rg.start as int, rg.end as int), at(self.input@, rg.start as int)[0], vx_kind->Fenced_0@);
        assert(m.plain() ==> self.out_below() =~= m.out() + mk + seq!['\n']);
        assert(m.plain() ==> self.out_below() =~= m.out() + (mk + seq!['\n']));
        assert(self.code_started(*old(self), m, gap, vx_kind, rg));
    }
//@proof tail
    proof {
        lemma_four();
        assert(m.writers@.len() > 0 ==> self.writers@[self.writers@.len() - 2] == self.writers@.drop_last().last());
        if let CodeBlockKind::Fenced(info) = vx_kind {
            assert(m.plain() ==> self.out_below() == m.out() + fence);
        } else {
            assert(self.indentation@.drop_last() =~= old(self).indentation@);
        }
        assert(self.code_started(*old(self), m, gap, vx_kind, rg));
    }
//@end
    pub open spec fn code_started(&self, o: FormatState<'i>, m: FormatState<'i>, gap: Seq<char>, kind: CodeBlockKind<'i>, range: Range<usize>) -> bool {
        &&& m.gap_if(o, gap)
        &&& self.input == o.input && self.events == o.events && self.nested_context == o.nested_context && self.formatter == o.formatter
        &&& self.writers@.len() == m.writers@.len() + 1
        &&& self.last_writer() is CodeBlock && self.last_writer()->CodeBlock_0.0@.len() == 0 && self.last_writer()->CodeBlock_0.1 == kind
        // what was written before the writer was added
        &&& m.plain() ==> self.out_below() == m.out() + (match kind {
            CodeBlockKind::Fenced(info) => marker_of(o.input@, range) + opening(between(o.input@, range.start as int, range.end as int), at(o.input@, range.start as int)[0], info@),
            CodeBlockKind::Indented => if o.next_event() matches Some(Event::End(TagEnd::CodeBlock)) { seq![] } else { fill_seq(' ', 4) },
        })
        &&& match kind {
            CodeBlockKind::Fenced(info) => self.indentation == o.indentation,
            CodeBlockKind::Indented => self.indentation@.len() == o.indentation@.len() + 1 && self.indentation@.drop_last() == o.indentation@ && self.indentation@.last()@ == fill_seq(' ', 4),
        }
    }
    /// What the writer before the last one has, or the output
    pub open spec fn out_below(&self) -> Seq<char> { if self.writers@.len() > 1 { self.writers@[self.writers@.len() - 2].text() } else { self.rewrite_buffer@ } }

/// Link or image: its text goes to a writer of its own
//@fn formatter.rs FormatState::start_tag
//@arm Tag::Link{link_type,..}|Tag::Image{link_type,..}
//@name start_link
//@inputs &mut self, tag: Tag<'i>, link_type: LinkType, range: Range<usize>
//@ret r
//@rettype FmtResult
//@tail Ok(())
//@spec
    requires old(self).in_bounds(range), 2 * blen(old(self).input@) <= usize::MAX,
    ensures r is Ok ==> exists|m: FormatState<'i>, gap: Seq<char>| #[trigger] final(self).link_started(*old(self), m, gap, tag, link_type),
//@proof start
    let ghost mut vx_n: usize = 0;
    let ghost vx_tag = tag;
    proof { ax_len_mono(self.input@, range); }
//@proof let newlines
    proof { vx_n = newlines; }
//@proof let capacity
    let ghost m = *self;
    let ghost gap = if old(self).needs_indent && vx_n > 0 { old(self).breaks(vx_n as nat, false) } else { Seq::empty() };
    proof {
        assert(line_breaks(gap, old(self).ind()));
        assert(old(self).plain() ==> m.out() =~= old(self).out() + gap);
    }
//@proof tail
    proof {
        assert(self.writers@.drop_last() =~= m.writers@);
        assert(self.link_started(*old(self), m, gap, vx_tag, link_type));
    }
//@end
    pub open spec fn link_started(&self, o: FormatState<'i>, m: FormatState<'i>, gap: Seq<char>, tag: Tag<'i>, link_type: LinkType) -> bool {
        &&& m.gap_if(o, gap)
        &&& self.with_writer(FormatState { nested_context: self.nested_context, ..m }) && self.nested_context@ == o.nested_context@.push(tag)
        &&& self.last_writer() is Link && self.last_writer()->Link_0.text().len() == 0
        &&& self.last_writer()->Link_0.auto_link() == (link_type is Autolink || link_type is Email)
    }

/// Table: the bar at the start of its lines
//@fn formatter.rs FormatState::start_tag
//@arm Tag::Table(refalignment)
//@name start_table
//@inputs &mut self, alignment: &Vec<Alignment>, range: Range<usize>
//@ret r
//@rettype FmtResult
//@tail Ok(())
//@spec
    requires old(self).in_bounds(range), blen(old(self).input@) <= usize::MAX,
    ensures r is Ok ==> exists|m: FormatState<'i>, gap: Seq<char>| #[trigger] final(self).table_started(*old(self), m, gap, alignment@),
//@proof start
    let ghost mut vx_n: usize = 0;
    proof { lemma_bar(); }
//@proof let newlines
    proof { vx_n = newlines; }
//@proof before self.writers
    let ghost m = *self;
    let ghost gap = if old(self).needs_indent && vx_n > 0 { old(self).breaks(vx_n as nat, false) } else { Seq::empty() };
    proof {
        assert(line_breaks(gap, old(self).ind()));
        assert(old(self).plain() ==> m.out() =~= old(self).out() + gap.push('|'));
    }
//@proof tail
    proof {
        assert(self.writers@.drop_last() =~= m.writers@);
        assert(self.indentation@.drop_last() =~= m.indentation@);
        assert(self.table_started(*old(self), m, gap, alignment@));
    }
//@end
    pub open spec fn table_started(&self, o: FormatState<'i>, m: FormatState<'i>, gap: Seq<char>, a: Seq<Alignment>) -> bool {
        &&& m.only_out(FormatState { needs_indent: false, ..o }) && m.indentation == o.indentation && line_breaks(gap, o.ind())
        &&& o.plain() ==> m.out() == o.out() + gap.push('|')
        &&& self.with_writer(FormatState { indentation: self.indentation, ..m })
        &&& self.indentation@.len() == o.indentation@.len() + 1 && self.indentation@.drop_last() == o.indentation@ && self.indentation@.last()@ == seq!['|']
        &&& self.last_writer() is Table && self.last_writer()->Table_0.made_from(a)
    }
//@fn formatter.rs FormatState::start_tag
//@arm Tag::TableHead
//@name start_table_head
//@inputs &mut self, tag: Tag<'i>
//@spec
    ensures final(self).nested(*old(self), tag),
//@end

/// Metadata: its marker
//@fn formatter.rs FormatState::start_tag
//@arm Tag::MetadataBlock(_meta)
//@name start_metadata
//@inputs &mut self, tag: Tag<'i>, range: Range<usize>
//@ret r
//@rettype FmtResult
//@tail Ok(())
//@spec
    requires old(self).in_bounds(range), marker_ok(old(self).input@, range),
    ensures r is Ok ==> exists|m: FormatState<'i>, gap: Seq<char>| #[trigger] final(self).metadata_started(*old(self), m, gap, tag, range),
//@proof let newlines
    let ghost gap = if newlines > 0 { self.breaks(newlines as nat, false) } else { Seq::empty() };
//@proof before self.needs_indent
    let ghost m = *self;
    proof {
        assert(line_breaks(gap, old(self).ind()));
        assert(old(self).plain() ==> m.out() =~= old(self).out() + (gap + marker_of(old(self).input@, range)));
    }
//@proof tail
    proof { assert(self.metadata_started(*old(self), m, gap, tag, range)); }
//@end
    pub open spec fn metadata_started(&self, o: FormatState<'i>, m: FormatState<'i>, gap: Seq<char>, tag: Tag<'i>, range: Range<usize>) -> bool {
        // C18
        &&& m.wrote(o, gap + marker_of(o.input@, range)) && line_breaks(gap, o.ind())
        &&& self.nested(FormatState { needs_indent: true, ..m }, tag)
    }

/// HTML block: line breaks only
//@fn formatter.rs FormatState::start_tag
//@arm Tag::HtmlBlock
//@name start_html_block
//@inputs &mut self, tag: Tag<'i>, range: Range<usize>
//@ret r
//@rettype FmtResult
//@tail Ok(())
//@closure 0
    -> (vx_r: bool) ensures vx_r == (arg_0.0 is Text && arg_0.1.start >= arg_0.1.end),
//@spec
    requires old(self).in_bounds(range), blen(old(self).input@) <= usize::MAX,
    ensures r is Ok ==> exists|m: FormatState<'i>, gap: Seq<char>| #[trigger] final(self).html_started(*old(self), m, gap, tag, range),
//@proof start
    let ghost mut vx_n: usize = 0;
//@proof let newlines
    proof { vx_n = newlines; }
//@proof before if matches!(self.last_event
    let ghost m = *self;
    let ghost gap = if old(self).needs_indent && vx_n > 0 { old(self).breaks(vx_n as nat, false) } else { Seq::empty() };
    proof {
        assert(line_breaks(gap, old(self).ind()));
        assert(old(self).plain() ==> m.out() =~= old(self).out() + gap);
    }
//@proof tail
    proof { assert(self.html_started(*old(self), m, gap, tag, range)); }
//@end
    pub open spec fn html_started(&self, o: FormatState<'i>, m: FormatState<'i>, gap: Seq<char>, tag: Tag<'i>, range: Range<usize>) -> bool {
        &&& m.gap_if(o, gap)
        &&& self.nested(FormatState { events: self.events, last_position: range.start, ..m }, tag)
        // no text of it is skipped, but an empty one after a list
        &&& self.events@ == o.events@ || (o.events@.len() > 0 && self.events@ == o.events@.skip(1) && o.events@[0].0 is Text && o.events@[0].1.start >= o.events@[0].1.end && (o.last_event matches Some((Event::End(TagEnd::List(_)), _))))
    }

/// List: line breaks only
//@fn formatter.rs FormatState::start_tag
//@arm Tag::List(_)
//@name start_list
//@inputs &mut self, tag: Tag<'i>, range: Range<usize>
//@rename range.clone() => vx_range(&range)
//@ret r
//@rettype FmtResult
//@tail Ok(())
//@closure 0
    -> (vx_r: usize)
        requires bdy(self.input@, range.start as int), bdy(self.input@, range.end as int), range.start <= range.end,
        ensures newlines <= vx_r <= newlines + 1,
//@proof start
    let ghost mut vx_n: usize = 0;
    let ghost mut m = *self;
//@proof let start_offset
    proof {
        lemma_cix(snippet@, 0);
        assert(snippet@.take(0) =~= Seq::<char>::empty());
        lemma_inner(self.input@, range.start as int, range.end as int, start_offset as int);
        ax_len_mono(self.input@, range);
    }
//@proof before self.write_newlines
    proof { vx_n = newlines; }
//@proof after self.needs_indent
    proof { m = *self; }
//@proof tail
    proof {
        let gap = if old(self).needs_indent && vx_n > 0 { old(self).breaks(vx_n as nat, false) } else { Seq::empty() };
        assert(line_breaks(gap, old(self).ind()));
        assert(old(self).plain() ==> m.out() =~= old(self).out() + gap);
        assert(self.list_started(*old(self), m, gap, tag));
    }
//@spec
    requires old(self).in_bounds(range), old(self).last_position <= range.start, blen(old(self).input@) < usize::MAX,
    ensures r is Ok ==> exists|m: FormatState<'i>, gap: Seq<char>| #[trigger] final(self).list_started(*old(self), m, gap, tag),
//@end
    pub open spec fn list_started(&self, o: FormatState<'i>, m: FormatState<'i>, gap: Seq<char>, tag: Tag<'i>) -> bool {
        m.gap_if(o, gap) && (o.needs_indent ==> !m.needs_indent) && self.nested(m, tag)
    }
}
/// A position in a part of the input
pub proof fn lemma_inner(s: Seq<char>, a: int, b: int, k: int)
    requires bdy(s, a), bdy(s, b), a <= b, bdy(between(s, a, b), k),
    ensures bdy(s, a + k), 0 <= k, a + k <= b, cix(s, a + k) == cix(s, a) + cix(between(s, a, b), k), between(s, a + k, b) == between(s, a, b).skip(cix(between(s, a, b), k)),
{
    let t = between(s, a, b);
    let j = cix(t, k);
    lemma_between(s, a, b);
    lemma_cix_inv(s, a);
    lemma_cix_inv(s, b);
    lemma_cix_inv(t, k);
    let i = cix(s, a) + j;
    assert(s.take(i) =~= s.take(cix(s, a)) + t.take(j));
    lemma_blen_add(s.take(cix(s, a)), t.take(j));
    lemma_cix(s, i);
    assert(between(s, a + k, b) =~= t.skip(j));
}
/// Definitions in the last part of a part of the input
proof fn lemma_snippet(r: Range<usize>, s: Seq<char>, k: int, d: Seq<LinkReferenceDefinition<'_>>)
    requires
        bdy(s, r.start as int), bdy(s, r.end as int), r.start <= r.end, 0 <= k, ({
            let t = between(s, r.start as int, r.end as int);
            let u = t.skip(cix(t, k));
            bdy(t, k) && forall|input: Seq<char>| bdy(input, r.start + k) && bdy(input, r.start + k + blen(u)) && between(input, r.start + k, r.start + k + blen(u)) == u ==> #[trigger] defs_in(d, input, r.start + k, r.start + k + blen(u))
        }),
    ensures defs_in(d, s, r.start as int, r.end as int),
{
    let a = r.start as int;
    let b = r.end as int;
    let t = between(s, a, b);
    lemma_inner(s, a, b, k);
    lemma_cix_inv(t, k);
    let j = cix(t, k);
    assert(t =~= t.take(j) + t.skip(j));
    lemma_blen_add(t.take(j), t.skip(j));
    lemma_between(s, a, b);
    assert(defs_in(d, s, a + k, a + k + blen(t.skip(j))));
}
pub open spec fn trims(s: Seq<char>) -> Seq<char> { trim_end_p(trim_start_p(s, ws()), ws()) }
/// The rest of the line of an opening fence: the info string of the input, as it is there
pub open spec fn opening(t: Seq<char>, c: char, info: Seq<char>) -> Seq<char> {
    if info.len() == 0 { seq!['\n'] } else {
        let l = str_lines(t);
        let line = trims(trim_start_p(if l.len() > 0 { l[0] } else { info }, pat(c)));
        let rest = trim_start_p(t, pat(c));
        (if rest.len() > 0 && sp_is_whitespace(rest[0]) { seq![' '] } else { seq![] }) + line.push('\n')
    }
}
proof fn lemma_opening_empty(t: Seq<char>, c: char, info: Seq<char>)
    requires info.len() == 0,
    ensures opening(t, c, info) == seq!['\n'],
{}
proof fn lemma_opening(t: Seq<char>, c: char, info: Seq<char>, line: Seq<char>)
    requires info.len() > 0, line == trims(trim_start_p(if str_lines(t).len() > 0 { str_lines(t)[0] } else { info }, pat(c))),
    ensures opening(t, c, info) == (if trim_start_p(t, pat(c)).len() > 0 && sp_is_whitespace(trim_start_p(t, pat(c))[0]) { seq![' '] } else { seq![] }) + line + seq!['\n'],
{
    assert(opening(t, c, info) =~= (if trim_start_p(t, pat(c)).len() > 0 && sp_is_whitespace(trim_start_p(t, pat(c))[0]) { seq![' '] } else { seq![] }) + line + seq!['\n']);
}
pub proof fn ax_len_mono(s: Seq<char>, r: Range<usize>)
    requires bdy(s, r.start as int), bdy(s, r.end as int),
    ensures r.end <= blen(s),
{ lemma_cix_inv(s, r.end as int); lemma_blen_mono(s, cix(s, r.end as int), s.len() as int); assert(s.take(s.len() as int) =~= s); }
}
}
