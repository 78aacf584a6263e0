//! What the parser sees in a document, as lists of comparable strings.
use crate::util::*;
use pulldown_cmark::{CodeBlockKind, Event, LinkType, Tag, TagEnd};

fn norm(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

/// Merge text, collapse whitespace.
pub fn inline_text(ev: &[(Event<'_>, std::ops::Range<usize>)]) -> String {
    let mut s = String::new();
    for (e, _) in ev {
        match e {
            Event::Text(t) | Event::Code(t) => s.push_str(t),
            Event::SoftBreak | Event::HardBreak => s.push(' '),
            Event::InlineHtml(t) => s.push_str(t),
            Event::FootnoteReference(t) => s.push_str(&format!("[^{t}]")),
            _ => {}
        }
    }
    norm(&s)
}

pub const COMMENTS: [&str; 2] = ["<!-- Don't absorb code block into list -->", "<!-- Consider a fenced code block instead -->"];

pub fn blocks(s: &str, with_paragraphs: bool) -> Vec<String> {
    let mut v = vec![];
    for (e, r) in events(s) {
        // the comments that the formatter puts between a list and an indented code block
        if matches!(e, Event::Start(Tag::HtmlBlock) | Event::End(TagEnd::HtmlBlock)) && COMMENTS.contains(&s[r].trim_end()) {
            continue;
        }
        match e {
            Event::Start(t) => match t {
                Tag::Paragraph if !with_paragraphs => {}
                Tag::Paragraph | Tag::BlockQuote(_) | Tag::Item | Tag::HtmlBlock | Tag::Table(_) | Tag::MetadataBlock(_) => {
                    v.push(format!("+{t:?}"))
                }
                Tag::Heading { level, .. } => v.push(format!("+{level:?}")),
                Tag::CodeBlock(CodeBlockKind::Indented) => v.push("+indented".into()),
                Tag::CodeBlock(CodeBlockKind::Fenced(_)) => v.push("+fenced".into()),
                Tag::List(n) => v.push(format!("+{}", if n.is_some() { "ol" } else { "ul" })),
                Tag::FootnoteDefinition(l) => v.push(format!("+fn {l}")),
                _ => {}
            },
            Event::End(t) => match t {
                TagEnd::Paragraph if !with_paragraphs => {}
                TagEnd::Paragraph
                | TagEnd::BlockQuote(_)
                | TagEnd::Item
                | TagEnd::HtmlBlock
                | TagEnd::Table
                | TagEnd::MetadataBlock(_)
                | TagEnd::CodeBlock
                | TagEnd::FootnoteDefinition => v.push(format!("-{t:?}")),
                TagEnd::Heading(_) => v.push("-h".into()),
                TagEnd::List(_) => v.push("-list".into()),
                _ => {}
            },
            Event::Rule => v.push("rule".into()),
            _ => {}
        }
    }
    v
}

/// Inline constructs in order: emphasis, code spans, breaks, links...
pub fn inlines(s: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut text = String::new();
    let mut code = 0;
    let mut link = 0;
    let flush = |text: &mut String, v: &mut Vec<String>| {
        if !text.trim().is_empty() {
            v.push(format!("T:{}", norm(text)));
        }
        text.clear();
    };
    for (e, _) in events(s) {
        match &e {
            Event::Start(Tag::CodeBlock(_) | Tag::HtmlBlock | Tag::MetadataBlock(_)) => code += 1,
            Event::End(TagEnd::CodeBlock | TagEnd::HtmlBlock | TagEnd::MetadataBlock(_)) => code -= 1,
            _ => {}
        }
        if code > 0 {
            continue;
        }
        match e {
            Event::Text(t) => text.push_str(&t),
            Event::SoftBreak => text.push(' '),
            // the text of a link is put on one line: K09
            Event::HardBreak if link > 0 => text.push(' '),
            Event::HardBreak => {
                flush(&mut text, &mut v);
                v.push("BR".into())
            }
            Event::Code(t) => {
                flush(&mut text, &mut v);
                v.push(format!("C:{}", norm(&t)))
            }
            Event::InlineHtml(t) => {
                flush(&mut text, &mut v);
                v.push(format!("H:{}", norm(&t)))
            }
            Event::FootnoteReference(t) => {
                flush(&mut text, &mut v);
                v.push(format!("F:{t}"))
            }
            Event::TaskListMarker(b) => v.push(format!("X:{b}")),
            Event::Start(t) => {
                flush(&mut text, &mut v);
                link += matches!(t, Tag::Link { .. } | Tag::Image { .. }) as usize;
                match t {
                    Tag::Emphasis | Tag::Strong | Tag::Strikethrough => v.push(format!("+{t:?}")),
                    Tag::Link { .. } => v.push("+link".into()),
                    Tag::Image { .. } => v.push("+image".into()),
                    _ => {}
                }
            }
            Event::End(t) => {
                flush(&mut text, &mut v);
                link -= matches!(t, TagEnd::Link | TagEnd::Image) as usize;
                match t {
                    TagEnd::Emphasis | TagEnd::Strong | TagEnd::Strikethrough | TagEnd::Link | TagEnd::Image => {
                        v.push(format!("-{t:?}"))
                    }
                    _ => {}
                }
            }
            _ => flush(&mut text, &mut v),
        }
    }
    flush(&mut text, &mut v);
    v
}

pub fn links(s: &str) -> Vec<String> {
    let mut v = vec![];
    for (e, _) in events(s) {
        let (k, t, d, ti, id) = match e {
            Event::Start(Tag::Link { link_type, dest_url, title, id }) => ("link", link_type, dest_url, title, id),
            Event::Start(Tag::Image { link_type, dest_url, title, id }) => ("image", link_type, dest_url, title, id),
            _ => continue,
        };
        let kind = match t {
            LinkType::Inline => "inline",
            LinkType::Reference | LinkType::ReferenceUnknown => "reference",
            LinkType::Collapsed | LinkType::CollapsedUnknown => "collapsed",
            LinkType::Shortcut | LinkType::ShortcutUnknown => "shortcut",
            _ => "auto",
        };
        v.push(format!("{k} {kind} dest={:?} title={:?} label={:?}", d.to_string(), ti.to_string(), norm(id.strip_prefix("\\^").map_or(id.to_string(), |l| format!("^{l}")).as_str())));
    }
    v
}

/// Every heading: its level, style and attributes, its text, and the number of `#` sequences at the end of its source that
/// aren't escaped.
pub fn headings(s: &str) -> Vec<(String, String, usize)> {
    let mut v = vec![];
    let ev = events(s);
    let mut start = 0;
    let mut head = String::new();
    for (i, (e, r)) in ev.iter().enumerate() {
        match e {
            Event::Start(Tag::Heading { level, id, classes, attrs }) => {
                let src = s[r.clone()].trim();
                let setext = !src.starts_with('#')
                    || (src.ends_with(['=', '-']) && src.contains('\n') && !src.starts_with('#'));
                head = format!("{level:?} setext={setext} id={id:?} classes={classes:?} attrs={attrs:?}");
                start = i;
            }
            Event::End(TagEnd::Heading(_)) => {
                let mut closing = 0;
                let mut src = s[ev[start].1.clone()].trim();
                if head.ends_with("id=None classes=[] attrs=[]") && src.ends_with('}') && !inline_text(&ev[start..i]).ends_with('}') {
                    // an attribute block without attributes, like `{#}`: the end of the heading is before it
                    src = src[..src.rfind('{').unwrap_or(src.len())].trim_end();
                }
                while src.ends_with('#') {
                    let t = src.trim_end_matches('#');
                    if !t.is_empty() && !t.ends_with([' ', '\t']) {
                        break;
                    }
                    closing += 1;
                    src = t.trim_end();
                }
                v.push((head.clone(), inline_text(&ev[start..i]), closing));
            }
            _ => {}
        }
    }
    v
}
/// The headings are the same, up to the `#` at the end that count as closing sequences.
pub fn same_headings(a: &[(String, String, usize)], b: &[(String, String, usize)]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(a, b)| {
            let mut t = a.1.as_str();
            let mut ok = t == b.1;
            for _ in 0..a.2 {
                t = t.trim_end().trim_end_matches('#').trim_end();
                ok |= t == b.1;
            }
            a.0 == b.0 && ok
        })
}

/// The marker of every list item, in order: what the source has before the first space.
pub fn markers(s: &str) -> Vec<String> {
    let mut v = vec![];
    for (e, r) in events(s) {
        if let Event::Start(Tag::Item) = e {
            let t = s[r.clone()].trim_start_matches(|c: char| c.is_whitespace() || c == '>');
            let m = match t.chars().next() {
                Some(c @ ('*' | '-' | '+')) => c.to_string(),
                _ => {
                    let d: String = t.chars().take_while(|c| c.is_ascii_digit()).collect();
                    let n = d.len();
                    format!("{d}{}", t[n..].chars().next().unwrap_or(' '))
                }
            };
            v.push(m);
        }
    }
    v
}

pub struct Code {
    pub fenced: bool,
    pub info: String,
    pub fence: String,
    pub body: String,
}
pub fn codes(s: &str) -> Vec<Code> {
    let mut v: Vec<Code> = vec![];
    let mut on = false;
    for (e, r) in events(s) {
        match e {
            Event::Start(Tag::CodeBlock(k)) => {
                on = true;
                let src = &s[r.clone()];
                let c = src.chars().next().unwrap_or(' ');
                let fence: String = src.chars().take_while(|x| *x == c).collect();
                match k {
                    CodeBlockKind::Fenced(i) => v.push(Code { fenced: true, info: i.to_string(), fence, body: String::new() }),
                    CodeBlockKind::Indented => {
                        v.push(Code { fenced: false, info: String::new(), fence: String::new(), body: String::new() })
                    }
                }
            }
            Event::Text(t) if on => v.last_mut().unwrap().body.push_str(&t),
            Event::End(TagEnd::CodeBlock) => on = false,
            _ => {}
        }
    }
    v
}

pub fn tables(s: &str) -> Vec<Vec<String>> {
    let mut v: Vec<Vec<String>> = vec![];
    let ev = events(s);
    let mut start = 0;
    for (i, (e, _)) in ev.iter().enumerate() {
        match e {
            Event::Start(Tag::Table(a)) => v.push(vec![format!("align {a:?}")]),
            Event::Start(Tag::TableRow | Tag::TableHead) => v.last_mut().unwrap().push("row".into()),
            Event::Start(Tag::TableCell) => start = i,
            Event::End(TagEnd::TableCell) => v.last_mut().unwrap().push(format!("cell {}", inline_text(&ev[start..i]))),
            _ => {}
        }
    }
    v
}
