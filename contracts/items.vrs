// src/formatter.rs: what is written where an item of a list starts
//@include prelude.vrs
//@include pulldown.vrs
//@use utils.vrs
//@use list.vrs
//@use escape.vrs
//@use state.vrs
//@use events.vrs
//@use starts.vrs
pub mod items {
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use core::ops::Range;
use crate::prelude::*;
use crate::pulldown::*;
use crate::utils::*;
use crate::list::{ListMarker, ParseListMarkerError, parses, marker_text, marker_char, trimmed};
use crate::state::*;
use crate::state::texts;
use crate::events::*;
use crate::starts::*;
verus! {
broadcast use group_prelude;

#[verifier::external]
impl core::fmt::Debug for ParseListMarkerError { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
/// What a marker is written as
proof fn lemma_marker_text(m: ListMarker)
    ensures m matches ListMarker::Ordered { zero_padding, number, marker } ==> zero_padding < marker_text(m).len() && marker_text(m) == fill_seq('0', zero_padding as int) + dec(number as nat) + seq![marker_char(m)],
        m is Unordered ==> marker_text(m) == seq![marker_char(m)],
{}
/// The text after the white space at the start of a part of the input
proof fn lemma_white_start(s: Seq<char>, a: int, b: int)
    requires bdy(s, a), bdy(s, b), a <= b,
    ensures ({
        let t = between(s, a, b);
        let k = blen(t) - blen(trim_start_p(t, ws()));
        0 <= k && bdy(s, a + k) && a + k <= b
    }),
{
    let t = between(s, a, b);
    let u = trim_start_p(t, ws());
    lemma_take_while(t, ws());
    let j = t.len() - u.len();
    assert(t =~= t.take(j) + t.skip(j));
    assert(u =~= t.skip(j));
    lemma_blen_add(t.take(j), t.skip(j));
    lemma_cix(t, j);
    lemma_inner(s, a, b, blen(t.take(j)) as int);
}
/// The definitions of a part of the input
pub proof fn lemma_part(s: Seq<char>, a: int, b: int, t: Seq<char>, d: Seq<LinkReferenceDefinition<'_>>)
    requires
        bdy(s, a), bdy(s, b), 0 <= a <= b <= usize::MAX, t == between(s, a, b), blen(t) == b - a,
        forall|input: Seq<char>| bdy(input, a) && bdy(input, a + blen(t)) && between(input, a, a + blen(t)) == t ==> #[trigger] defs_in(d, input, a, a + blen(t)),
    ensures defs_in(d, s, a, b), defs_in(d, s, a, blen(s) as int), d.len() > 0 ==> a <= d[0].span().start <= b && bdy(s, d[0].span().start as int),
{
    assert(defs_in(d, s, a, a + blen(t)));
    ax_len_mono(s, a as usize..b as usize);
    if d.len() > 0 { let r = d[0].span(); }
}
impl<'i> FormatState<'i> {
    /// The parser sometimes starts an item before the line break before it
    pub open spec fn item_start(&self, range: Range<usize>, m: ListMarker) -> int {
        let t = between(self.input@, range.start as int, range.end as int);
        if (self.last_event matches Some((Event::Start(Tag::List(_)), _))) && marker_char(m) == '-' { range.start as int }
        else { range.start + (blen(t) - blen(trim_start_p(t, ws()))) }
    }
    /// The text of an item starts with a marker, and what is in the item is after its start
    pub open spec fn item_ok(&self, range: Range<usize>) -> bool {
        &&& forall|r: Result<ListMarker, ParseListMarkerError>| #[trigger] parses(trimmed(between(self.input@, range.start as int, range.end as int)), r) ==>
            r is Ok && marker_text(r->Ok_0).len() <= 20 && self.next_in_bounds(self.item_start(range, r->Ok_0) as usize)
        &&& self.events@.len() > 0
    }

/// Item: its marker, and the indentation of what is in it
//@fn formatter.rs FormatState::start_tag
//@arm Tag::Item
//@name start_item
//@inputs &mut self, tag: Tag<'i>, range: Range<usize>
//@rename range.clone() => vx_range(&range)
//@ret r
//@rettype FmtResult
//@tail Ok(())
//@closure 0
    -> (vx_r: bool) ensures vx_r == (nl(snippet@) > 0),
//@closure 1
    -> (vx_r: usize) ensures vx_r == l.span().start,
//@closure 2
    -> (vx_r: usize) ensures vx_r == l.span().start,
//@spec
    requires old(self).in_bounds(range), blen(old(self).input@) <= usize::MAX, old(self).item_ok(range),
    ensures r is Ok ==> exists|m: FormatState<'i>, gap: Seq<char>, lm: ListMarker| #[trigger] final(self).item_started(*old(self), m, gap, lm, tag, range),
//@proof head
    hide(marker_text); hide(trim_start_p); hide(trim_end_p); hide(MarkdownWriter::same); hide(MarkdownWriter::plain); hide(FormatState::breaks);
    hide(nl);
//@proof start
    proof { lemma_same(); }
    let ghost vx_rg = range;
    let ghost mut vx_n: usize = 0;
    proof {
        ax_len_mono(self.input@, range);
        let t = between(self.input@, range.start as int, range.end as int);
        assert(forall|r: Result<ListMarker, ParseListMarkerError>| #[trigger] parses(trimmed(t), r) ==> r is Ok);
    }
//@proof let list_marker
    let ghost lm = list_marker;
    proof { lemma_marker_text(lm); lemma_white_start(self.input@, vx_rg.start as int, vx_rg.end as int); }
//@proof let newlines
    proof { vx_n = newlines; }
    let ghost gap = if old(self).needs_indent && vx_n > 0 { old(self).breaks(vx_n as nat, false) } else { Seq::empty() };
//@proof let link_defs 2
    proof { 
        lemma_cix_inv(self.input@, old(self).events@[0].1.start as int);
        lemma_part(self.input@, range.start as int, range.end as int, snippet@, link_defs@);
    }
//@proof let link_defs 3
    proof { lemma_part(self.input@, range.start as int, next_range.start as int, snippet@, link_defs@); }
//@proof before self.needs_indent = empty_list_item
    proof { assert(defs_in(link_defs@, self.input@, range.start as int, blen(self.input@) as int)); }
//@proof before self.rewrite_reference_link_definitions_inner
    let ghost m = *self;
    proof {
        assert(line_breaks(gap, old(self).ind()));
        assert(old(self).plain() ==> m.out() =~= old(self).out() + gap + (if m.needs_indent { marker_text(lm) } else { marker_text(lm).push(' ') }));
        assert(m.indentation@.drop_last() =~= old(self).indentation@);
    }
//@proof tail
    proof { assert(self.item_started(*old(self), m, gap, lm, tag, vx_rg)); }
//@end
    pub open spec fn item_started(&self, o: FormatState<'i>, m: FormatState<'i>, gap: Seq<char>, lm: ListMarker, tag: Tag<'i>, range: Range<usize>) -> bool {
        let start = o.item_start(range, lm);
        let end = if o.next_event() matches Some(Event::End(TagEnd::Item)) { range.end } else { o.events@[0].1.start };
        let d = shown(parsed(between(o.input@, start, end as int), start as usize));
        // C07: the marker of the input is written as it is, and what is in the item has the width of it as its indentation
        &&& parses(trimmed(between(o.input@, range.start as int, range.end as int)), Ok(lm))
        &&& o.plain() ==> m.out() == o.out() + gap + (if m.needs_indent { marker_text(lm) } else { marker_text(lm).push(' ') })
        &&& line_breaks(gap, o.ind())
        &&& m.indentation@.len() == o.indentation@.len() + 1 && m.indentation@.drop_last() == o.indentation@
        &&& m.indentation@.last()@ == fill_seq(' ', marker_text(lm).len() as int + 1)
        &&& m.nested_context@ == o.nested_context@.push(tag) && m.last_position == start
        &&& m.only_out(FormatState { nested_context: m.nested_context, last_position: m.last_position, needs_indent: m.needs_indent, ..o })
        // C08
        &&& self.only_defs(m) && self.indentation == m.indentation && (m.plain() ==> defs_out(m.out(), self.out(), d, m.ind()))
    }
}
}
}
