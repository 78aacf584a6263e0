// The types of pulldown_cmark that the formatter matches on (pulldown_cmark isn't verified)
pub mod pulldown {
use vstd::prelude::*;
use crate::prelude::*;
verus! {
#[verifier::external_body]
pub struct CowStr<'a>(std::borrow::Cow<'a, str>);
impl<'a> View for CowStr<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl<'a> core::ops::Deref for CowStr<'a> {
    type Target = str;
    #[verifier::external_body]
    fn deref(&self) -> (r: &str) ensures r@ == self@ { &self.0 }
}
impl<'a> CowStr<'a> {
    #[verifier::external_body]
    pub fn vx_as_ref(&self) -> (r: &str) ensures r@ == self@ { &self.0 }
    #[verifier::external_body]
    pub fn vx_into_string(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
impl<'a> VxDisplay for CowStr<'a> {
    open spec fn disp(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { self.0.to_string() }
}
#[derive(Clone, Copy)]
pub enum BlockQuoteKind { Note, Tip, Important, Warning, Caution }
#[derive(Clone, Copy)]
pub enum MetadataBlockKind { YamlStyle, PlusesStyle }
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum HeadingLevel { H1, H2, H3, H4, H5, H6 }
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Alignment { None, Left, Center, Right }
pub enum LinkType { Inline, Reference, ReferenceUnknown, Collapsed, CollapsedUnknown, Shortcut, ShortcutUnknown, Autolink, Email, WikiLink { has_pothole: bool } }
pub enum CodeBlockKind<'a> { Indented, Fenced(CowStr<'a>) }
#[allow(inconsistent_fields)]
pub enum Tag<'a> {
    Paragraph,
    Heading { level: HeadingLevel, id: Option<CowStr<'a>>, classes: Vec<CowStr<'a>>, attrs: Vec<(CowStr<'a>, Option<CowStr<'a>>)> },
    BlockQuote(Option<BlockQuoteKind>),
    CodeBlock(CodeBlockKind<'a>),
    HtmlBlock,
    List(Option<u64>),
    Item,
    FootnoteDefinition(CowStr<'a>),
    DefinitionList,
    DefinitionListTitle,
    DefinitionListDefinition,
    Table(Vec<Alignment>),
    TableHead,
    TableRow,
    TableCell,
    Emphasis,
    Strong,
    Strikethrough,
    Superscript,
    Subscript,
    Link { link_type: LinkType, dest_url: CowStr<'a>, title: CowStr<'a>, id: CowStr<'a> },
    Image { link_type: LinkType, dest_url: CowStr<'a>, title: CowStr<'a>, id: CowStr<'a> },
    MetadataBlock(MetadataBlockKind),
}
#[derive(Clone, Copy)]
pub enum TagEnd {
    Paragraph,
    Heading(HeadingLevel),
    BlockQuote(Option<BlockQuoteKind>),
    CodeBlock,
    HtmlBlock,
    List(bool),
    Item,
    FootnoteDefinition,
    DefinitionList,
    DefinitionListTitle,
    DefinitionListDefinition,
    Table,
    TableHead,
    TableRow,
    TableCell,
    Emphasis,
    Strong,
    Strikethrough,
    Superscript,
    Subscript,
    Link,
    Image,
    MetadataBlock(MetadataBlockKind),
}
impl<'a> Tag<'a> {
    /// The end that belongs to it
    pub open spec fn end(&self) -> TagEnd {
        match self {
            Tag::Paragraph => TagEnd::Paragraph,
            Tag::Heading { level, .. } => TagEnd::Heading(*level),
            Tag::BlockQuote(k) => TagEnd::BlockQuote(*k),
            Tag::CodeBlock(_) => TagEnd::CodeBlock,
            Tag::HtmlBlock => TagEnd::HtmlBlock,
            Tag::List(n) => TagEnd::List(n is Some),
            Tag::Item => TagEnd::Item,
            Tag::FootnoteDefinition(_) => TagEnd::FootnoteDefinition,
            Tag::DefinitionList => TagEnd::DefinitionList,
            Tag::DefinitionListTitle => TagEnd::DefinitionListTitle,
            Tag::DefinitionListDefinition => TagEnd::DefinitionListDefinition,
            Tag::Table(_) => TagEnd::Table,
            Tag::TableHead => TagEnd::TableHead,
            Tag::TableRow => TagEnd::TableRow,
            Tag::TableCell => TagEnd::TableCell,
            Tag::Emphasis => TagEnd::Emphasis,
            Tag::Strong => TagEnd::Strong,
            Tag::Strikethrough => TagEnd::Strikethrough,
            Tag::Superscript => TagEnd::Superscript,
            Tag::Subscript => TagEnd::Subscript,
            Tag::Link { .. } => TagEnd::Link,
            Tag::Image { .. } => TagEnd::Image,
            Tag::MetadataBlock(k) => TagEnd::MetadataBlock(*k),
        }
    }
    #[verifier::external_body]
    pub fn to_end(&self) -> (r: TagEnd) ensures r == self.end() { unimplemented!() }
}
pub enum Event<'a> {
    Start(Tag<'a>),
    End(TagEnd),
    Text(CowStr<'a>),
    Code(CowStr<'a>),
    InlineMath(CowStr<'a>),
    DisplayMath(CowStr<'a>),
    Html(CowStr<'a>),
    InlineHtml(CowStr<'a>),
    FootnoteReference(CowStr<'a>),
    SoftBreak,
    HardBreak,
    Rule,
    TaskListMarker(bool),
}
}
}
