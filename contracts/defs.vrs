// src/links.rs: link reference definitions, how they are read and written
//@include prelude.vrs
//@include pulldown.vrs
//@use utils.vrs
//@use escape.vrs
//@use state.vrs
pub mod defs {
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use core::ops::Range;
use crate::prelude::*;
use crate::pulldown::*;
use crate::utils::*;
use crate::state::*;
use crate::utils::texts;
verus! {
broadcast use group_prelude;

//@type links.rs TitleMarker Clone Copy
//@type links.rs InvalidTitleMarker Clone Copy
//@type links.rs LinkLines
//@type links.rs LinkTitle
//@type links.rs LinkDestination
//@type links.rs LinkReferenceDefinition
//@type links.rs LinkReferenceDefinitionBuilder
//@type links.rs MultiLinePhase Clone Copy
//@type links.rs LinkParserPhase

pub type Part<'a> = (Cow<'a>, Range<usize>);
pub open spec fn between(input: Seq<char>, a: int, b: int) -> Seq<char> { input.subrange(cix(input, a), cix(input, b)) }
pub open spec fn pos(s: Seq<char>, k: int) -> int { blen(s.take(k)) as int }
pub open spec fn trim(s: Seq<char>) -> Seq<char> { trim_end_p(trim_start_p(s, ws()), ws()) }
/// The lines of a label or a title on one line
pub open spec fn joined(ls: Seq<Seq<char>>) -> Seq<char>
    decreases ls.len()
{
    if ls.len() == 0 { Seq::empty() }
    else {
        let t = trim(ls[0]);
        (if t.len() == 0 || ls.len() == 1 { t } else { t.push(' ') }) + joined(ls.skip(1))
    }
}
pub open spec fn parts(v: Seq<Part<'_>>) -> Seq<Seq<char>> { v.map_values(|p: Part<'_>| p.0@) }
/// How they are written
pub open spec fn lines_text(ls: Seq<Seq<char>>) -> Seq<char> {
    let t = trim(joined(ls));
    if ends_on_escape(t) { t.push('\\') } else { t }
}
pub open spec fn open_char(m: TitleMarker) -> char { match m { TitleMarker::DoubleQuote => '"', TitleMarker::SingleQuote => '\'', TitleMarker::Parentheses => '(' } }
pub open spec fn close_char(m: TitleMarker) -> char { match m { TitleMarker::DoubleQuote => '"', TitleMarker::SingleQuote => '\'', TitleMarker::Parentheses => ')' } }
pub open spec fn dest_text(d: LinkDestination<'_>) -> Seq<char> {
    match d { LinkDestination::Bracketed(t) => seq!['<'] + t@ + seq!['>'], LinkDestination::Regular(t) => t@ }
}
pub open spec fn title_text(t: LinkTitle<'_>) -> Seq<char> { seq![open_char(t.kind)] + lines_text(parts(t.value.0@)) + seq![close_char(t.kind)] }

impl TitleMarker {
//@fn links.rs TitleMarker::opener
//@ret r
//@spec
    ensures r == open_char(*self),
//@end
//@fn links.rs TitleMarker::closer
//@ret r
//@spec
    ensures r == close_char(*self),
//@end
//@fn links.rs TryFrom<char>@TitleMarker::try_from
//@rettype Result<TitleMarker, InvalidTitleMarker>
//@ret r
//@spec
    ensures match r { Ok(m) => open_char(m) == value, Err(_) => value != '\'' && value != '"' && value != '(' },
//@end
}
impl<'a> LinkLines<'a> {
//@fn links.rs LinkLines::new
//@ret r
//@spec
    ensures r.0@.len() == 0,
//@end
//@fn links.rs From<(Cow<'a,str>,std::ops::Range<usize>)>@LinkLines::from
//@ret r
//@spec
    ensures r.0@ == seq![value],
//@end
//@fn links.rs LinkLines::push
//@name vx_push
//@ret r
//@spec
    ensures final(self).0@ == old(self).0@.push(value),
//@end
//@fn links.rs LinkLines::is_empty
//@name vx_is_empty
//@ret r
//@spec
    ensures r == (self.0@.len() == 0),
//@end
//@fn links.rs LinkLines::range
//@ret r
//@spec
    ensures match r { None => self.0@.len() == 0, Some(g) => self.0@.len() > 0 && g.start == self.0@[0].1.start && g.end == self.0@.last().1.end },
//@end
//@fn links.rs LinkLines::iter
//@name vx_iter
//@rettype VxIter<&str>
//@ret r
//@closure 0
    -> (vx_r: &str) ensures vx_r@ == arg_0.0@,
//@spec
    ensures texts(r@) == parts(self.0@),
//@end
//@fn links.rs LinkLines::write
//@generics <'j>
//@inputs &self, writer: &mut FormatState<'j>
//@ret r
//@closure 0
    -> (vx_r: &str) ensures vx_r@ == trim(t@),
//@spec
    ensures
        final(writer).only_out(*old(writer)), final(writer).indentation == old(writer).indentation,
        r is Ok ==> final(writer).wrote(*old(writer), lines_text(parts(self.0@))),
//@loop 0
    invariant
        *writer == *old(writer), iter@.len() <= ls0.len(), iter@ =~= ls0.skip(ls0.len() - iter@.len()),
        texts(ls0) == parts(self.0@), joined(texts(ls0)) == buffer@ + joined(texts(iter@)),
    decreases iter@.len(),
//@proof loop 0 before
    let ghost ls0 = iter@;
    proof { assert(joined(texts(ls0)) =~= buffer@ + joined(texts(iter@))); }
//@proof loop 0 begin
    let ghost t0 = texts(ls0.skip(ls0.len() - iter@.len() - 1));
    let ghost b0 = buffer@;
    proof { assert(texts(iter@) =~= t0.skip(1)); assert(text@ == trim(t0[0])); }
//@proof loop 0 end
    proof { assert(b0 + joined(t0) =~= buffer@ + joined(texts(iter@))); }
//@proof tail
    proof {
        lemma_same();
        assert(vx_ret is Ok && old(writer).plain() ==> writer.out() =~= old(writer).out() + lines_text(parts(self.0@)));
    }
//@end
}
impl<'a> LinkTitle<'a> {
//@fn links.rs LinkTitle::new
//@ret r
//@spec
    ensures r.kind == kind, r.value.0@ == seq![value],
//@end
//@fn links.rs LinkTitle::push
//@name vx_push
//@ret r
//@spec
    ensures final(self).kind == old(self).kind, final(self).value.0@ == old(self).value.0@.push(value),
//@end
//@fn links.rs LinkTitle::range
//@ret r
//@spec
    ensures match r { None => self.value.0@.len() == 0, Some(g) => self.value.0@.len() > 0 && g.start == self.value.0@[0].1.start && g.end == self.value.0@.last().1.end },
//@end
//@fn links.rs LinkTitle::write
//@generics <'j>
//@inputs &self, writer: &mut FormatState<'j>
//@ret r
//@spec
    ensures
        final(writer).only_out(*old(writer)), final(writer).indentation == old(writer).indentation,
        r is Ok ==> final(writer).wrote(*old(writer), title_text(*self)),
//@proof tail
    proof {
        lemma_same();
        assert(vx_ret is Ok && old(writer).plain() ==> writer.out() =~= old(writer).out() + title_text(*self));
    }
//@end
}
impl<'a> LinkDestination<'a> {
//@fn links.rs LinkDestination::write
//@generics <'j>
//@inputs &self, writer: &mut FormatState<'j>
//@ret r
//@spec
    ensures
        final(writer).only_out(*old(writer)), final(writer).indentation == old(writer).indentation,
        r is Ok ==> final(writer).wrote(*old(writer), dest_text(*self)),
//@proof tail
    proof {
        lemma_same();
        assert(vx_ret is Ok && old(writer).plain() ==> writer.out() =~= old(writer).out() + dest_text(*self));
    }
//@end
}
impl<'a> LinkReferenceDefinition<'a> {
    pub open spec fn ok(&self) -> bool { self.label.0@.len() > 0 && (self.title matches Some(t) ==> t.value.0@.len() > 0) }
    /// From the label to the end of the title, or of the destination
    pub open spec fn span(&self) -> Range<usize> {
        Range {
            start: self.label.0@[0].1.start,
            end: match self.title { Some(t) => t.value.0@.last().1.end, None => self.destination.1.end },
        }
    }
    /// How it is written
    pub open spec fn text(&self) -> Seq<char> {
        seq!['['] + lines_text(parts(self.label.0@)) + seq![']', ':', ' '] + dest_text(self.destination.0)
            + (match self.title { Some(t) => seq![' '] + title_text(t), None => Seq::empty() })
    }
//@fn links.rs LinkReferenceDefinition::range
//@ret r
//@spec
    requires self.ok(),
    ensures r == self.span(),
//@end
//@fn links.rs LinkReferenceDefinition::write
//@generics <'j>
//@inputs &self, writer: &mut FormatState<'j>
//@ret r
//@spec
    ensures
        final(writer).only_out(*old(writer)), final(writer).indentation == old(writer).indentation,
        r is Ok ==> final(writer).wrote(*old(writer), self.text()),
//@proof tail
    proof {
        lemma_same();
        assert(vx_ret is Ok && old(writer).plain() ==> writer.out() =~= old(writer).out() + self.text());
    }
//@end
}

// ------------------------------------------------------------------------------------------------ where they are found
pub open spec fn ahead(s: Seq<char>, b: int) -> Seq<char> { s.skip(cix(s, b)) }
/// A part of the input
pub open spec fn inside(input: Seq<char>, r: Range<usize>, offset: int) -> bool {
    offset <= r.start <= r.end && bdy(input, r.start - offset) && bdy(input, r.end - offset)
}
pub open spec fn src(input: Seq<char>, r: Range<usize>, offset: int) -> Seq<char> { between(input, r.start - offset, r.end - offset) }
/// Each part has the text of its range (a caret at the start of a label gets a backslash), and they are one after the other
pub open spec fn part_ok(v: Seq<Part<'_>>, i: int, input: Seq<char>, offset: int, label: bool) -> bool {
    let t = src(input, v[i].1, offset);
    let u = trim_start_p(t, ws());
    &&& inside(input, v[i].1, offset)
    &&& v[i].0@ == (if label && i == 0 && u.len() > 0 && u[0] == '^' { seq!['\\'] + u } else { t })
    &&& i > 0 ==> v[i - 1].1.end <= v[i].1.start
}
pub open spec fn parts_ok(v: Seq<Part<'_>>, input: Seq<char>, offset: int, label: bool) -> bool {
    v.len() > 0 && forall|i: int| 0 <= i < v.len() ==> #[trigger] part_ok(v, i, input, offset, label)
}
pub open spec fn dest_ok(d: (LinkDestination<'_>, Range<usize>), input: Seq<char>, offset: int) -> bool {
    let a = d.1.start - offset;
    let b = d.1.end - offset;
    &&& inside(input, d.1, offset)
    &&& match d.0 {
        LinkDestination::Bracketed(t) => a < b && bdy(input, a + 1) && ahead(input, a).len() > 0 && ahead(input, a)[0] == '<' && t@ == between(input, a + 1, b),
        // the range of a destination at the end of the input ends before its last char
        LinkDestination::Regular(t) => t@ == between(input, a, b) || t@ == ahead(input, a) && ahead(input, b).len() == 1,
    }
}
proof fn lemma_push_ok(v: Seq<Part<'_>>, p: Part<'_>, input: Seq<char>, offset: int, label: bool)
    requires v.len() == 0 || parts_ok(v, input, offset, label), part_ok(v.push(p), v.len() as int, input, offset, label),
    ensures parts_ok(v.push(p), input, offset, label), v.len() > 0 ==> v.push(p)[0] == v[0],
{
    assert forall|i: int| 0 <= i < v.push(p).len() implies #[trigger] part_ok(v.push(p), i, input, offset, label) by {
        if i < v.len() { assert(part_ok(v, i, input, offset, label)); assert(v.push(p)[i] == v[i]); if i > 0 { assert(v.push(p)[i - 1] == v[i - 1]); } }
    }
}
/// The ranges of the parts are in order
proof fn lemma_parts_order(v: Seq<Part<'_>>, input: Seq<char>, offset: int, label: bool)
    requires parts_ok(v, input, offset, label),
    ensures v[0].1.start <= v.last().1.start <= v.last().1.end,
    decreases v.len(),
{
    let n = v.len() - 1;
    assert(part_ok(v, n as int, input, offset, label));
    if v.len() > 1 {
        let w = v.drop_last();
        assert forall|i: int| 0 <= i < w.len() implies #[trigger] part_ok(w, i, input, offset, label) by { assert(part_ok(v, i, input, offset, label)); }
        lemma_parts_order(w, input, offset, label);
    }
}
impl<'a> LinkReferenceDefinition<'a> {
    /// Its label, destination and title are parts of the input
    pub open spec fn read_from(&self, input: Seq<char>, offset: int) -> bool {
        &&& parts_ok(self.label.0@, input, offset, true)
        &&& dest_ok(self.destination, input, offset)
        &&& self.label.0@.last().1.end <= self.destination.1.start
        &&& self.title matches Some(t) ==> parts_ok(t.value.0@, input, offset, false) && self.destination.1.end <= t.value.0@[0].1.start
    }
    pub open spec fn closed(&self, input: Seq<char>, offset: int) -> bool {
        self.title matches Some(t) ==> ahead(input, self.span().end - offset).len() > 0 && ahead(input, self.span().end - offset)[0] == close_char(t.kind)
    }
}
/// What has been read of the label
pub open spec fn lab_ok(l: Option<LinkLines<'_>>, input: Seq<char>, offset: int) -> bool { l matches Some(l) && parts_ok(l.0@, input, offset, true) }
pub open spec fn lab_end(l: Option<LinkLines<'_>>) -> int { l->Some_0.0@.last().1.end as int }
pub open spec fn des_ok(l: Option<LinkLines<'_>>, d: Option<(LinkDestination<'_>, Range<usize>)>, input: Seq<char>, offset: int) -> bool {
    d matches Some(d) && dest_ok(d, input, offset) && lab_end(l) <= d.1.start
}
pub open spec fn des_end(d: Option<(LinkDestination<'_>, Range<usize>)>) -> int { d->Some_0.1.end as int }
pub open spec fn tit_ok(d: Option<(LinkDestination<'_>, Range<usize>)>, t: Option<LinkTitle<'_>>, input: Seq<char>, offset: int) -> bool {
    t matches Some(t) && parts_ok(t.value.0@, input, offset, false) && des_end(d) <= t.value.0@[0].1.start
}
pub open spec fn tit_end(t: Option<LinkTitle<'_>>) -> int { t->Some_0.value.0@.last().1.end as int }
impl<'a> LinkReferenceDefinitionBuilder<'a> {
    pub open spec fn label_of(&self) -> Seq<Part<'a>> { match self.label { Some(l) => l.0@, None => Seq::empty() } }
    pub open spec fn title_of(&self) -> Seq<Part<'a>> { match self.title { Some(t) => t.value.0@, None => Seq::empty() } }
//@fn links.rs LinkReferenceDefinitionBuilder::new
//@ret r
//@spec
    ensures r.label is None, r.destination is None, r.title is None,
//@end
//@fn links.rs LinkReferenceDefinitionBuilder::set_label
//@spec
    requires range.start <= range.end, offset + range.end <= usize::MAX,
    ensures
        final(self).destination == old(self).destination, final(self).title == old(self).title, final(self).label is Some,
        final(self).label_of().len() == old(self).label_of().len() + 1, final(self).label_of().drop_last() == old(self).label_of(),
        final(self).label_of().last().1 == (Range { start: (offset + range.start) as usize, end: (offset + range.end) as usize }),
        final(self).label_of().last().0@ == ({
            let u = trim_start_p(label@, ws());
            if old(self).label_of().len() == 0 && u.len() > 0 && u[0] == '^' { seq!['\\'] + u } else { label@ }
        }),
        lab_end(final(self).label) == offset + range.end,
        forall|input: Seq<char>|
            (old(self).label is None || lab_ok(old(self).label, input, offset as int) && lab_end(old(self).label) <= offset + range.start)
                && bdy(input, range.start as int) && bdy(input, range.end as int) && label@ == between(input, range.start as int, range.end as int)
            ==> #[trigger] lab_ok(final(self).label, input, offset as int),
//@proof start
    proof { lemma_cow_len(label); }
//@proof tail
    proof {
        assert(self.label_of().drop_last() =~= old(self).label_of());
        assert forall|input: Seq<char>|
            (old(self).label is None || lab_ok(old(self).label, input, offset as int) && lab_end(old(self).label) <= offset + range.start)
                && bdy(input, range.start as int) && bdy(input, range.end as int) && label@ == between(input, range.start as int, range.end as int)
            implies #[trigger] lab_ok(self.label, input, offset as int) by {
            assert(self.label_of() =~= old(self).label_of().push(self.label_of().last()));
            lemma_push_ok(old(self).label_of(), self.label_of().last(), input, offset as int, true);
        }
    }
//@end
//@fn links.rs LinkReferenceDefinitionBuilder::set_url
//@spec
    requires range.start <= range.end, offset + range.end <= usize::MAX,
    ensures
        final(self).label == old(self).label, final(self).title == old(self).title,
        final(self).destination == Some((destination, Range { start: (offset + range.start) as usize, end: (offset + range.end) as usize })),
        des_end(final(self).destination) == offset + range.end,
        forall|input: Seq<char>| dest_ok((destination, Range { start: (offset + range.start) as usize, end: (offset + range.end) as usize }), input, offset as int)
            && lab_end(old(self).label) <= offset + range.start
            ==> #[trigger] des_ok(final(self).label, final(self).destination, input, offset as int),
//@end
//@fn links.rs LinkReferenceDefinitionBuilder::set_title
//@spec
    requires range.start <= range.end, offset + range.end <= usize::MAX,
    ensures
        final(self).label == old(self).label, final(self).destination == old(self).destination, final(self).title is Some,
        final(self).title_of().len() == old(self).title_of().len() + 1, final(self).title_of().drop_last() == old(self).title_of(),
        final(self).title_of().last() == (value, Range { start: (offset + range.start) as usize, end: (offset + range.end) as usize }),
        final(self).title->Some_0.kind == (match old(self).title { Some(t) => t.kind, None => kind }),
        tit_end(final(self).title) == offset + range.end,
        forall|input: Seq<char>|
            (if old(self).title is None { des_end(old(self).destination) <= offset + range.start } else { tit_ok(old(self).destination, old(self).title, input, offset as int) && tit_end(old(self).title) <= offset + range.start })
                && bdy(input, range.start as int) && bdy(input, range.end as int) && value@ == between(input, range.start as int, range.end as int)
            ==> #[trigger] tit_ok(final(self).destination, final(self).title, input, offset as int),
//@proof tail
    proof {
        assert(self.title_of().drop_last() =~= old(self).title_of());
        assert forall|input: Seq<char>|
            (if old(self).title is None { des_end(old(self).destination) <= offset + range.start } else { tit_ok(old(self).destination, old(self).title, input, offset as int) && tit_end(old(self).title) <= offset + range.start })
                && bdy(input, range.start as int) && bdy(input, range.end as int) && value@ == between(input, range.start as int, range.end as int)
            implies #[trigger] tit_ok(self.destination, self.title, input, offset as int) by {
            assert(self.title_of() =~= old(self).title_of().push(self.title_of().last()));
            lemma_push_ok(old(self).title_of(), self.title_of().last(), input, offset as int, false);
        }
    }
//@end
//@fn links.rs LinkReferenceDefinitionBuilder::has_title
//@ret r
//@spec
    ensures r == self.title is Some,
//@end
//@fn links.rs LinkReferenceDefinitionBuilder::remove_false_title
//@spec
    ensures final(self).label == old(self).label, final(self).destination == old(self).destination, final(self).title is None,
//@end
//@fn links.rs LinkReferenceDefinitionBuilder::build
//@ret r
//@spec
    ensures
        match r {
            Some(d) => self.label == Some(d.label) && self.destination == Some(d.destination) && self.title == d.title,
            None => self.label is None || self.destination is None,
        },
//@end
}

/// What has been read when the parser is at the k-th char
pub open spec fn reading(ph: LinkParserPhase, b: LinkReferenceDefinitionBuilder<'_>, input: Seq<char>, offset: int, k: int, start: int, until: int, newlines: int) -> bool {
    let p = pos(input, k);
    let labelled = lab_ok(b.label, input, offset) && lab_end(b.label) <= offset + p && until > 0;
    let found = labelled && des_ok(b.label, b.destination, input, offset) && des_end(b.destination) <= offset + until;
    &&& 0 <= k <= input.len() && p <= blen(input) && bdy(input, start) && start <= p && bdy(input, until) && until <= p && 0 <= newlines <= 1
    &&& match ph {
        LinkParserPhase::FindOpeningBracket => b.label is None && b.destination is None && b.title is None,
        LinkParserPhase::Label | LinkParserPhase::HandleNewline(MultiLinePhase::Label) =>
            (b.label is None || lab_ok(b.label, input, offset) && lab_end(b.label) <= offset + start) && b.destination is None && b.title is None && k > 0,
        LinkParserPhase::Colon => labelled && b.destination is None && b.title is None,
        LinkParserPhase::UrlStart => labelled && b.destination is None && b.title is None,
        LinkParserPhase::Url(c) => labelled && lab_end(b.label) <= offset + start && b.destination is None && b.title is None && newlines == 0
            && start < p && ahead(input, start).len() > 0 && ahead(input, start)[0] == c && start >= until
            && (c == '<' ==> bdy(input, start + 1) && start + 1 <= p),
        LinkParserPhase::TitleStart => found && b.title is None,
        LinkParserPhase::Title(m) | LinkParserPhase::HandleNewline(MultiLinePhase::Title(m)) =>
            found && until <= start && (b.title matches Some(t) ==> tit_ok(b.destination, b.title, input, offset) && tit_end(b.title) <= offset + start && t.kind == m
                && (ahead(input, tit_end(b.title) - offset).len() > 0 && ahead(input, tit_end(b.title) - offset)[0] == '\n')),
    }
}
/// What has been read at the end
pub open spec fn has_read(b: LinkReferenceDefinitionBuilder<'_>, input: Seq<char>, offset: int, k: int, until: int) -> bool {
    &&& 0 <= k <= input.len() && bdy(input, until) && until <= pos(input, k) <= blen(input)
    &&& (b.label is Some && b.destination is Some) ==> ({
        &&& until > 0 && lab_ok(b.label, input, offset) && des_ok(b.label, b.destination, input, offset) && des_end(b.destination) <= offset + until
        &&& b.title is Some ==> tit_ok(b.destination, b.title, input, offset) && tit_end(b.title) <= offset + pos(input, k)
            && (tit_end(b.title) <= offset + until || ahead(input, tit_end(b.title) - offset).len() > 0 && ahead(input, tit_end(b.title) - offset)[0] == '\n')
    })
}
/// What the parts say about the definition
proof fn lemma_built(b: LinkReferenceDefinitionBuilder<'_>, d: LinkReferenceDefinition<'_>, input: Seq<char>, offset: int)
    requires
        b.label == Some(d.label), b.destination == Some(d.destination), b.title == d.title,
        lab_ok(b.label, input, offset), des_ok(b.label, b.destination, input, offset), b.title is Some ==> tit_ok(b.destination, b.title, input, offset),
    ensures
        d.read_from(input, offset), offset <= d.span().start <= d.span().end,
        d.span().end == (if d.title is Some { tit_end(b.title) } else { des_end(b.destination) }),
{
    lemma_parts_order(d.label.0@, input, offset, true);
    assert(part_ok(d.label.0@, 0, input, offset, true));
    if let Some(t) = d.title { lemma_parts_order(t.value.0@, input, offset, false); }
}
proof fn lemma_zero(s: Seq<char>)
    ensures bdy(s, 0), pos(s, 0) == 0, cix(s, 0) == 0, sp_char_indices(s).len() == s.len(),
{
    lemma_cix(s, 0);
    assert(s.take(0) =~= Seq::<char>::empty());
}
/// A char of the input
proof fn lemma_step(s: Seq<char>, k: int)
    requires 0 <= k < s.len(), blen(s) <= isize::MAX,
    ensures
        sp_char_indices(s).len() == s.len(),
        bdy(s, pos(s, k)), bdy(s, pos(s, k + 1)), cix(s, pos(s, k)) == k, cix(s, pos(s, k + 1)) == k + 1, 0 <= pos(s, k) < pos(s, k + 1) <= blen(s),
        ahead(s, pos(s, k)) == s.skip(k), s.skip(k).len() > 0 && s.skip(k)[0] == s[k], sp_char_indices(s)[k] == (pos(s, k) as usize, s[k]), pos(s, k) == 0 ==> k == 0,
        k <= pos(s, k),
        (s[k] as u32) < 0x80 ==> pos(s, k + 1) == pos(s, k) + 1,
{
    lemma_cix(s, k);
    lemma_cix(s, k + 1);
    lemma_blen_mono(s, k, k + 1);
    lemma_blen_mono(s, k + 1, s.len() as int);
    lemma_blen_mono(s, 0, k);
    assert(s.take(s.len() as int) =~= s);
    assert(s.take(k + 1) =~= s.take(k) + seq![s[k]]);
    lemma_blen_add(s.take(k), seq![s[k]]);
    if (s[k] as u32) < 0x80 { assert(ascii(seq![s[k]])); ax_blen_ascii(seq![s[k]]); }
}
/// A destination
proof fn lemma_dest(input: Seq<char>, offset: usize, a: usize, b: usize, t: Cow<'_>)
    requires
        bdy(input, a as int), bdy(input, b as int), a <= b, offset + b <= usize::MAX,
    ensures
        t@ == between(input, a as int, b as int) || t@ == ahead(input, a as int) && ahead(input, b as int).len() == 1
            ==> dest_ok((LinkDestination::Regular(t), Range { start: (offset + a) as usize, end: (offset + b) as usize }), input, offset as int),
        a < b && bdy(input, a + 1) && ahead(input, a as int).len() > 0 && ahead(input, a as int)[0] == '<' && t@ == between(input, a + 1, b as int)
            ==> dest_ok((LinkDestination::Bracketed(t), Range { start: (offset + a) as usize, end: (offset + b) as usize }), input, offset as int),
{
}
//@fn links.rs parse_link_reference_definition
//@attrs #[verifier::rlimit(300)]
//@ret r
//@closure 0
    -> (vx_r: usize) ensures vx_r == arg_0.0,
//@closure 2
    -> (vx_r: usize) ensures vx_r == arg_0.0,
//@closure 3
    -> (vx_r: usize) ensures vx_r == arg_0.0,
//@closure 4
    -> (vx_r: bool) ensures vx_r == (arg_0.1 != close_char(marker)),
//@closure 5
    -> (vx_r: usize) ensures vx_r == arg_0.0,
//@closure 6
    -> (vx_r: (LinkReferenceDefinition<'i>, usize)) ensures vx_r == (def, parsed_until),
//@proof tail
    proof {
        if vx_ret is Some { lemma_built(b2, vx_ret->Some_0.0, input@, offset as int); lemma_cix_inv(input@, vx_ret->Some_0.1 as int); }
    }
//@proof after if builder.has_title()
    proof { b2 = builder; }
//@proof start
    let ghost mut b2 = LinkReferenceDefinitionBuilder { label: None, destination: None, title: None };
//@spec
    requires offset + blen(input@) <= usize::MAX,
    ensures
        r matches Some((d, n)) ==> {
            &&& d.read_from(input@, offset as int) && 0 < n <= blen(input@) && bdy(input@, n as int)
            &&& offset <= d.span().start <= d.span().end <= offset + blen(input@)
            &&& d.closed(input@, offset as int) ==> d.span().end <= offset + n
        },
//@proof head
    hide(lab_ok); hide(lab_end); hide(des_ok); hide(des_end); hide(tit_ok); hide(tit_end); hide(blen); hide(sp_char_indices);
    hide(LinkReferenceDefinition::read_from); hide(dest_ok); hide(ahead); hide(pos); hide(trim_start_p); hide(trim_end_p); hide(skip_while);
//@loop 0
    invariant_except_break
        reading(phase, builder, input@, offset as int, input@.len() - iter@.len(), start as int, parsed_until as int, newline_count as int),
    invariant
        offset + blen(input@) <= usize::MAX, blen(input@) <= isize::MAX, iter@.len() <= input@.len(),
        iter@ == sp_char_indices(input@).skip(input@.len() - iter@.len()),
    ensures
        has_read(builder, input@, offset as int, input@.len() - iter@.len(), parsed_until as int),
    decreases iter@.len(),
//@loop 1
    invariant_except_break builder == b1, parsed_until == u1,
    invariant
        blen(input@) <= isize::MAX, vx_it1@.len() <= input@.len(), u1 <= pos(input@, input@.len() - vx_it1@.len()), bdy(input@, u1 as int), u1 > 0 || b1.destination is None,
        vx_it1@ == sp_char_indices(input@).skip(input@.len() - vx_it1@.len()),
    ensures
        builder.label == b1.label, builder.destination == b1.destination, builder.title is None || builder.title == b1.title,
        u1 <= parsed_until, bdy(input@, parsed_until as int),
    decreases vx_it1@.len(),
//@proof loop 1 before
    let ghost b1 = builder;
    let ghost u1 = parsed_until;
//@proof loop 1 begin
    let ghost k1 = input@.len() - vx_it1@.len() - 1;
    proof {
        lemma_step(input@, k1);
        assert(idx == pos(input@, k1) && c == input@[k1]);
    }
//@proof loop 0 before
    proof { lemma_zero(input@); assert(iter@.skip(0) =~= iter@); }
//@proof let url 1
    proof { lemma_dest(input@, offset, idx, idx, url); assert(url@ =~= ahead(input@, idx as int)) by { reveal(ahead); } }
//@proof let url 2
    proof { lemma_dest(input@, offset, start, idx, url); }
//@proof let url 3
    proof { lemma_dest(input@, offset, start, idx, url); assert(url@ =~= ahead(input@, start as int)) by { reveal(ahead); } }
//@proof let url 4
    proof { lemma_dest(input@, offset, start, idx, url); }
//@proof loop 0 begin
    let ghost k = input@.len() - iter@.len() - 1;
    proof {
        lemma_step(input@, k);
        assert(idx == pos(input@, k) && c == input@[k]);
        if k + 1 < input@.len() { lemma_step(input@, k + 1); assert(iter@[0] == sp_char_indices(input@)[k + 1]); }
    }
//@end

/// The definitions are parts of the input, one after the other
pub open spec fn defs_at(d: Seq<LinkReferenceDefinition<'_>>, input: Seq<char>, offset: int) -> bool {
    &&& forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]).read_from(input, offset) && offset <= d[i].span().start <= d[i].span().end <= offset + blen(input)
    &&& forall|i: int, j: int| 0 <= i < j < d.len() && (#[trigger] d[i]).closed(input, offset) ==> d[i].span().end <= (#[trigger] d[j]).span().start
}
/// A part of a part
proof fn lemma_rest(s: Seq<char>, n: int, b: int)
    requires bdy(s, n), bdy(ahead(s, n), b),
    ensures
        bdy(s, n + b), cix(s, n + b) == cix(s, n) + cix(ahead(s, n), b), ahead(s, n + b) == ahead(ahead(s, n), b), blen(ahead(s, n)) == blen(s) - n, n + b <= blen(s), 0 <= n, 0 <= b,
{
    lemma_cix_inv(s, n);
    let u = ahead(s, n);
    lemma_cix_inv(u, b);
    let i = cix(s, n);
    let j = cix(u, b);
    assert(s.take(i + j) =~= s.take(i) + u.take(j));
    lemma_blen_add(s.take(i), u.take(j));
    lemma_cix(s, i + j);
    assert(s =~= s.take(i) + u);
    lemma_blen_add(s.take(i), u);
    assert(ahead(s, n + b) =~= ahead(u, b));
}
proof fn lemma_rest_between(s: Seq<char>, n: int, a: int, b: int)
    requires bdy(s, n), bdy(ahead(s, n), a), bdy(ahead(s, n), b), a <= b,
    ensures between(ahead(s, n), a, b) == between(s, n + a, n + b), cix(s, n + a) <= cix(s, n + b) <= s.len(),
{
    lemma_rest(s, n, a);
    lemma_rest(s, n, b);
    let u = ahead(s, n);
    lemma_cix_inv(u, a);
    lemma_cix_inv(u, b);
    if cix(u, b) < cix(u, a) { lemma_blen_mono(u, cix(u, b), cix(u, a)); }
    lemma_cix_inv(s, n + b);
    lemma_cix_inv(s, n);
    assert(between(u, a, b) =~= between(s, n + a, n + b));
}
proof fn lemma_rest_parts(v: Seq<Part<'_>>, s: Seq<char>, n: int, offset: int, label: bool)
    requires bdy(s, n), parts_ok(v, ahead(s, n), offset + n, label),
    ensures parts_ok(v, s, offset, label),
{
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] part_ok(v, i, s, offset, label) by {
        assert(part_ok(v, i, ahead(s, n), offset + n, label));
        let a = v[i].1.start - offset - n;
        let b = v[i].1.end - offset - n;
        lemma_rest(s, n, a);
        lemma_rest(s, n, b);
        lemma_rest_between(s, n, a, b);
    }
}
proof fn lemma_rest_def(d: LinkReferenceDefinition<'_>, s: Seq<char>, n: int, offset: int)
    requires bdy(s, n), d.read_from(ahead(s, n), offset + n),
    ensures d.read_from(s, offset), d.closed(s, offset) == d.closed(ahead(s, n), offset + n),
{
    lemma_rest_parts(d.label.0@, s, n, offset, true);
    let a = d.destination.1.start - offset - n;
    let b = d.destination.1.end - offset - n;
    let u = ahead(s, n);
    lemma_rest(s, n, a);
    lemma_rest(s, n, b);
    lemma_rest_between(s, n, a, b);
    if d.destination.0 is Bracketed { lemma_rest(s, n, a + 1); lemma_rest_between(s, n, a + 1, b); }
    assert(dest_ok(d.destination, s, offset));
    if let Some(t) = d.title {
        lemma_rest_parts(t.value.0@, s, n, offset, false);
        assert(part_ok(t.value.0@, t.value.0@.len() - 1, u, offset + n, false));
        lemma_rest(s, n, d.span().end - offset - n);
    }
}
//@fn links.rs parse_link_reference_definitions
//@ret r
//@spec
    requires offset + blen(input@) <= usize::MAX,
    ensures defs_at(r@, input@, offset as int),
//@proof head
    hide(LinkReferenceDefinition::read_from); hide(LinkReferenceDefinition::closed); hide(LinkReferenceDefinition::span); hide(ahead); hide(blen);
//@proof start
    let ghost s0 = input@;
    let ghost o0 = offset as int;
    proof { lemma_zero(input@); lemma_cix(s0, 0); assert(ahead(s0, 0) =~= s0) by { reveal(ahead); } }
//@loop 0
    invariant
        o0 + blen(s0) <= usize::MAX, o0 <= offset <= o0 + blen(s0), bdy(s0, offset - o0), input@ == ahead(s0, offset - o0), offset + blen(input@) == o0 + blen(s0),
        defs_at(refernce_definitions@, s0, o0),
        forall|i: int| 0 <= i < refernce_definitions@.len() && (#[trigger] refernce_definitions@[i]).closed(s0, o0) ==> refernce_definitions@[i].span().end <= offset,
    decreases blen(input@),
//@proof loop 0 begin
    let ghost v0 = refernce_definitions@;
    let ghost of0 = offset;
    let ghost in0 = input@;
    let ghost d0 = def;
    proof {
        lemma_rest_def(def, s0, offset - o0, o0);
        lemma_rest(s0, offset - o0, idx as int);
    }
//@proof loop 0 end
    proof {
        let v = refernce_definitions@;
        assert(v == v0.push(d0));
        assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).read_from(s0, o0) && o0 <= v[i].span().start <= v[i].span().end <= o0 + blen(s0) by { if i < v0.len() { assert(v[i] == v0[i]); } }
        assert forall|i: int, j: int| 0 <= i < j < v.len() && (#[trigger] v[i]).closed(s0, o0) implies v[i].span().end <= (#[trigger] v[j]).span().start by {
            assert(v[i] == v0[i]);
            if j < v0.len() { assert(v[j] == v0[j]); }
        }
        assert forall|i: int| 0 <= i < v.len() && (#[trigger] v[i]).closed(s0, o0) implies v[i].span().end <= offset by { if i < v0.len() { assert(v[i] == v0[i]); } }
        assert(input@ == ahead(in0, offset - of0)) by { reveal(ahead); }
    }
//@end

// ------------------------------------------------------------------------------------------------ what is read is what is written
/// The parts of a text between white space: labels are compared by them
pub open spec fn words(s: Seq<char>) -> Seq<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else {
        let c = s.last();
        let w = words(s.drop_last());
        if ws()(c) { w }
        else if s.len() == 1 || ws()(s[s.len() - 2]) || w.len() == 0 { w.push(seq![c]) }
        else { w.drop_last().push(w.last().push(c)) }
    }
}
proof fn lemma_words_some(s: Seq<char>)
    requires s.len() > 0, !ws()(s.last()),
    ensures words(s).len() > 0,
{}
proof fn lemma_words_split(a: Seq<char>, w: char, b: Seq<char>)
    requires ws()(w),
    ensures words(a + seq![w] + b) == words(a) + words(b),
    decreases b.len(),
{
    let s = a + seq![w] + b;
    if b.len() == 0 {
        assert(s.drop_last() =~= a);
        assert(words(a) + words(b) =~= words(a));
    } else {
        assert(s.drop_last() =~= a + seq![w] + b.drop_last());
        lemma_words_split(a, w, b.drop_last());
        let c = b.last();
        if ws()(c) {
        } else if b.len() == 1 {
            assert(s[s.len() - 2] == w);
            assert(b.drop_last().len() == 0);
            assert(words(b) =~= seq![seq![c]]);
            assert(words(s) =~= words(a) + words(b));
        } else {
            assert(s[s.len() - 2] == b[b.len() - 2]);
            if ws()(b[b.len() - 2]) { assert(words(s) =~= words(a) + words(b)); }
            else { lemma_words_some(b.drop_last()); assert(words(s) =~= words(a) + words(b)); }
        }
    }
}
proof fn lemma_words_end(s: Seq<char>)
    ensures words(trim_end_p(s, ws())) == words(s),
    decreases s.len(),
{
    if s.len() > 0 && ws()(s.last()) { lemma_words_end(s.drop_last()); }
}
proof fn lemma_words_start(s: Seq<char>)
    ensures words(trim_start_p(s, ws())) == words(s),
    decreases s.len(),
{
    if s.len() > 0 && ws()(s[0]) {
        lemma_words_start(s.skip(1));
        assert(s =~= Seq::<char>::empty() + seq![s[0]] + s.skip(1));
        lemma_words_split(Seq::empty(), s[0], s.skip(1));
        assert(words(Seq::<char>::empty()) + words(s.skip(1)) =~= words(s.skip(1)));
    }
}
proof fn lemma_words_trim(s: Seq<char>)
    ensures words(trim(s)) == words(s),
{
    lemma_words_start(s);
    lemma_words_end(trim_start_p(s, ws()));
}
pub open spec fn words_of(ls: Seq<Seq<char>>) -> Seq<Seq<char>>
    decreases ls.len()
{
    if ls.len() == 0 { Seq::empty() } else { words(ls[0]) + words_of(ls.skip(1)) }
}
proof fn lemma_joined(ls: Seq<Seq<char>>)
    ensures words(joined(ls)) == words_of(ls),
    decreases ls.len(),
{
    if ls.len() > 0 {
        lemma_joined(ls.skip(1));
        lemma_words_trim(ls[0]);
        let t = trim(ls[0]);
        let r = joined(ls.skip(1));
        if t.len() == 0 {
            assert(joined(ls) =~= r);
            assert(words(t) =~= Seq::empty());
            assert(words_of(ls) =~= words_of(ls.skip(1)));
        } else if ls.len() == 1 {
            assert(ls.skip(1).len() == 0);
            assert(r.len() == 0);
            assert(joined(ls) =~= t);
            assert(words_of(ls) =~= words(t));
        } else {
            assert(ws()(' '));
            assert(joined(ls) =~= t + seq![' '] + r);
            lemma_words_split(t, ' ', r);
        }
    }
}
/// C08: a label or a title is written with the words that it has in the input, in the same order, and the bracket or quote after it isn't
/// escaped by what is written
pub proof fn theorem_same_words(ls: Seq<Seq<char>>)
    ensures
        !ends_on_escape(lines_text(ls)),
        words(trim(joined(ls))) == words_of(ls),
        lines_text(ls) == trim(joined(ls)) || ends_on_escape(trim(joined(ls))) && lines_text(ls) == trim(joined(ls)).push('\\'),
{
    lemma_joined(ls);
    lemma_words_trim(joined(ls));
    let t = trim(joined(ls));
    assert(t.push('\\').drop_last() =~= t);
}
}
}
