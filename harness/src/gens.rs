//! Generators. Everything is a function of the random stream it is given.
use crate::util::*;

pub const SOUP: &[&str] = &[
    "[a\\\\](/u)", "[a][b\\\\]", "a", "b", "word", "é", "日本", " ", " ", "  ", "\n", "\n", "\n\n", "# ", "## ", "#", "- ", "* ", "+ ",
    "1. ", "2) ", "007. ", "> ", ">", "```", "~~~", "`", "``", "*", "**", "_", "__", "~~", "[", "]", "(", ")", "[a]", "[a]: /u",
    "[a]: /u \"t\"", "](", "[^1]", "[^1]: ", "|", "---", "===", "| - | - |\n", "| a | b |\n", "<div>", "</div>", "<!--", "-->", "<a>",
    "\\", "{#id}", "{.c}", "{}", "    ", "!", "![", "<http://x.y>", "  \n", "\\\n", "---\n", "+++", "&amp;", "[ ] ", "[x] ", "\"", "'",
    ":", "\r\n", "\r", "\t", "\u{a0}", "[ü]: <é ö> 'ß'", "]: ", "]:", "[b]: /u(\\))", "](</a b> \"t\")", "***", "- - -", "0. ",
    "```markdown\n", "```rust\n", "\n```\n", "123456789. ", "<?", "<!X", "|\n", ":-:|--:\n", "\u{301}", "\u{3000}",
];

pub fn soup(r: &mut R, max: usize) -> String {
    let n = 1 + r.n(max);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(SOUP[r.n(SOUP.len())]);
    }
    s
}

/// Markers of containers, with all sorts of white space around them
pub fn marker_soup(r: &mut R) -> String {
    const M: &[&str] = &["-", "*", "+", ">", "1.", "00)", "[^a]:", "#", "\t", "\t", " ", " ", "  ", "   ", "    ", "\n", "\n", "\n\n", "x", "y", "`", "```", "---", "<i>", "<div>", "[a]: /u", "[a]", "|", "***", "=", "[ ]", "\r\n"];
    let n = 1 + r.n(14);
    (0..n).map(|_| r.pick(M)).collect()
}

pub const WORDS: &[&str] = &[
    "alpha", "b", "gamma", "délta", "日本語", "x", "lorem", "ipsum", "dolor", "sit", "amet", "foo-bar", "a1", "Z", "e\u{301}t", "longerwordhere",
];
pub fn word(r: &mut R) -> String {
    r.pick(WORDS).to_string()
}
pub fn words(r: &mut R, max: usize) -> String {
    let n = 1 + r.n(max);
    (0..n).map(|_| word(r)).collect::<Vec<_>>().join(" ")
}

/// One line of inline content, with no line ending.
pub fn inline(r: &mut R, depth: usize) -> String {
    let n = 1 + r.n(4);
    let mut v: Vec<String> = vec![];
    for _ in 0..n {
        let w = match r.n(if depth == 0 { 6 } else { 14 }) {
            0..=3 => word(r),
            4 => words(r, 3),
            5 => r.pick(&["1+1", "a.b", "x_y", "#tag", "5 > 3", "a | b", "\\*lit\\*", "\\[x\\]", "&amp;", "C++", "it's", "\"q\"", "a\\\\b"]).to_string(),
            6 => format!("*{}*", inline(r, depth - 1)),
            7 => format!("**{}**", inline(r, depth - 1)),
            8 => format!("_{}_", inline(r, depth - 1)),
            9 => format!("`{}`", r.pick(&["code", "a b", "x*y", "fn f()", "a](b)", "[c]"])),
            10 => format!("~~{}~~", inline(r, depth - 1)),
            11 => link(r, depth - 1),
            12 => format!("<http://{}.org>", r.pick(&["a", "b", "c"])),
            _ => format!("__{}__", inline(r, depth - 1)),
        };
        v.push(w);
    }
    v.join(" ")
}

pub fn link(r: &mut R, depth: usize) -> String {
    let bang = if r.one(4) { "!" } else { "" };
    let text = if depth > 0 && r.b() { inline(r, 0) } else { words(r, 2) };
    format!("{bang}[{text}]({})", dest_title(r))
}

/// Inline code, HTML, math-like text and links over several lines
pub fn multi_line(r: &mut R) -> String {
    const P: &[&str] = &["a", "b", " ", " ", "\n", "\n", "- ", "> ", "# ", "*", "=", "-", "+ ", "1. ", "|-|", "~~~", "\\", "\t", "é", "\u{a0}", "<b>", "_", "  ", "    ", "``", "&amp;"];
    let mut s = String::new();
    for i in 0..1 + r.n(3) {
        if i > 0 {
            s.push_str(r.pick(&[" ", "\n", " x ", "  \n"]));
        }
        match r.n(6) {
            0..=2 => s.push_str(&format!("`x{}y`", odd(r, P).replace("``", "*"))),
            3 => s.push_str(&format!("``{} {}``", odd(r, P).replace("``", "`"), word(r))),
            4 => s.push_str(&format!("<a\n{}=\"{}\">", r.pick(&["k", " k", "\tk", "-k"]), odd(r, P).replace('"', "").replace("|-|", ""))),
            _ => s.push_str(&format!("[{}\n{}]({})", inline(r, 1).replace('\n', " "), odd(r, P), dest_title(r))),
        }
    }
    s
}

/// Up to five of these pieces
fn odd(r: &mut R, pieces: &[&str]) -> String {
    (0..r.n(6)).map(|_| pieces[r.n(pieces.len())]).collect()
}

pub fn dest_title(r: &mut R) -> String {
    let d = match r.n(11) {
        9 => format!("<{}>", odd(r, &["a", "b", " ", "\t", "\\>", "\\<", "(", ")", "\\(", "\\", "&amp;", "\u{1}", "é", "\u{a0}", "\"", "'"])),
        10 => format!("/{}", odd(r, &["a", "b", "<", ">", "\\>", "\\)", "\\(", "\\", "(b)", "&amp;", "é", "\"", "'", "*", "_"])),
        0 => "/u".to_string(),
        1 => "</my url>".to_string(),
        2 => "/p(a)".to_string(),
        3 => "/p\\(a".to_string(),
        4 => "<>".to_string(),
        5 if r.one(4) => {
            let n = 30 + r.n(8);
            format!("<{}{}>", "(".repeat(n), ")".repeat(n))
        }
        5 => "#frag".to_string(),
        6 => "http://é.org/日本".to_string(),
        7 => "<a)b>".to_string(),
        _ => format!("/{}", r.n(100)),
    };
    let t = match r.n(10) {
        9 => {
            let (o, c) = [("\"", "\""), ("'", "'"), ("(", ")")][r.n(3)];
            let own = format!("\\{c}");
            // a tab at the start of a line is as wide as the width of the markers before it says: K10
            let t = odd(r, &["a", "b", " ", "\t", &own, "\\\\", "&quot;", "é", "<", ">", "]", "*", "`", "\\(", "\n"]).replace("\n\t", "\n");
            format!("{}{o}{t}{c}{}", r.pick(&[" ", "  ", "\t", "\n"]), r.pick(&["", "", " ", "\n"]))
        }
        0 => " \"title\"".to_string(),
        1 => " 'it em'".to_string(),
        2 => " (paren)".to_string(),
        3 => " \"a \\\" b\"".to_string(),
        4 => "  \"x 'y' (z)\"".to_string(),
        _ => r.pick(&["", "", "", "", " ", "\n"]).to_string(),
    };
    format!("{d}{t}")
}

/// Indent the lines after the first by `n` columns, and prefix the first with `first`.
pub fn nest(first: &str, rest: &str, body: &str) -> String {
    let mut out = String::new();
    for (i, l) in body.split('\n').enumerate() {
        if i > 0 {
            out.push('\n');
        }
        if i == 0 {
            out.push_str(first);
            out.push_str(l);
        } else if l.is_empty() {
            out.push_str(rest.trim_end());
        } else {
            out.push_str(rest);
            out.push_str(l);
        }
    }
    out
}

pub fn paragraph(r: &mut R) -> String {
    let n = 1 + r.n(3);
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push_str(r.pick(&["\n", "\n", "\n", "  \n", "\\\n"]));
        }
        if i == 0 {
            s.push_str(&word(r));
            s.push(' ');
        }
        s.push_str(&inline(r, 2));
    }
    s
}

pub fn heading(r: &mut R) -> String {
    let t = if r.one(8) { String::new() } else { format!("{} {}", word(r), inline(r, 1)) };
    let attrs = match r.n(10) {
        0 => " {#id}",
        1 => " {.c1 .c2}",
        2 => " {#i .c k=v}",
        3..=4 => {
            let a = attributes(r);
            return heading_with(r, t, a);
        }
        _ => "",
    };
    heading_with(r, t, attrs.to_string())
}
/// Any attributes in any order
pub fn attributes(r: &mut R) -> String {
    let n = 1 + r.n(5);
    let a: Vec<&str> = (0..n).map(|_| r.pick(&["#i", "#i2", ".c", ".d", ".é", "k=v", "key=", "long", "k=v=w", "=v2", "k=\"v\"", "#", ".", "k#=.v"])).collect();
    format!("{}{{{}}}", r.pick(&[" ", " ", "", "  "]), a.join(r.pick(&[" ", "  ", "\t"])))
}
fn heading_with(r: &mut R, t: String, attrs: String) -> String {
    match r.n(4) {
        0 if !t.is_empty() => {
            let c = if r.b() { "=" } else { "-" };
            let t = match r.n(6) {
                0 => format!("{t}\n{}", inline(r, 1)),
                1 => format!("{t} `{}\n{}`", word(r), word(r)),
                2 => format!("{t} [{}\n{}]({})", word(r), word(r), dest_title(r)),
                _ => t,
            };
            format!("{t}{attrs}\n{}", c.repeat(3 + r.n(4)))
        }
        _ => {
            let t = t.replace('\n', " ");
            let close = if attrs.is_empty() && r.one(4) { " ##" } else { "" };
            format!("{}{}{t}{close}{attrs}", "#".repeat(1 + r.n(6)), " ".repeat(1 + r.n(2)))
        }
    }
}

pub fn code(r: &mut R) -> String {
    let mut s = String::new();
    let n = r.n(5);
    for _ in 0..n {
        s.push_str(r.pick(&[
            "fn main() {}", "    indented", "\ttab", "", "* item", "> q", "# h", "a  b   c", "x = 1  ", "日本", "| a |", "\\", "1. z", "<div>", "`tick`",
        ]));
        s.push('\n');
    }
    s
}

pub fn fence(r: &mut R) -> String {
    let c = r.pick(&["`", "~"]);
    let f = c.repeat(3 + r.n(3));
    let info = r.pick(&["", "rust", " rust", "c++", "text {a=b}", "日本", "sh  extra "]);
    format!("{f}{info}\n{}{f}", code(r))
}

pub fn blocks(r: &mut R, depth: usize, max: usize) -> String {
    let n = 1 + r.n(max);
    let mut out = String::new();
    let mut last_list = false;
    for i in 0..n {
        if i > 0 {
            // some blocks directly follow or interrupt the one before
            out.push_str(&"\n".repeat(match r.n(10) {
                0 | 1 => 2 + r.n(3),
                2 => 1,
                _ => 2,
            }));
        }
        let k = r.n(if depth == 0 { 8 } else { 13 });
        let mut is_list = false;
        let b = match k {
            0..=3 => paragraph(r),
            4 => heading(r),
            5 => fence(r),
            6 => r.pick(&["***", "___", "* * *"]).to_string(),
            7 => table(r, 1),
            8 | 9 => nest("> ", "> ", &blocks(r, depth - 1, 3)),
            _ if last_list => paragraph(r),
            _ => {
                is_list = true;
                list(r, depth)
            }
        };
        last_list = is_list;
        out.push_str(&b);
    }
    out
}

/// `inside` says the list directly follows paragraph text, which only a list that starts at 1 can
/// interrupt.
pub fn list(r: &mut R, depth: usize) -> String {
    list_in(r, depth, false)
}
pub fn list_in(r: &mut R, depth: usize, inside: bool) -> String {
    let ordered = r.b();
    let bullet = r.pick(&["*", "-", "+"]).to_string();
    let delim = r.pick(&[".", ")"]).to_string();
    let mut num = if inside { 1 } else { r.n(12) };
    let zeros = if r.one(4) { "0".repeat(1 + r.n(3)) } else { String::new() };
    let n = 1 + r.n(3);
    let tight = r.b();
    let lead = if r.one(5) { " " } else { "" };
    let pad = if r.one(4) { 2 } else { 1 };
    let mut out = String::new();
    for i in 0..n {
        if i > 0 {
            out.push_str(if tight { "\n" } else { "\n\n" });
        }
        let m = if ordered {
            let m = format!("{lead}{zeros}{num}{delim}{}", " ".repeat(pad));
            num += 1;
            m
        } else {
            format!("{lead}{bullet}{}", " ".repeat(pad))
        };
        let body = if tight {
            let mut b = inline(r, 1);
            b = format!("{} {b}", word(r));
            if depth > 1 && r.one(3) {
                b.push('\n');
                b.push_str(&list_in(r, depth - 1, true));
            } else if r.one(6) {
                b.push('\n');
                let t = r.pick(&["***", "___", "* * *", "- - -", "# h", "> q", "~~~\nx\n~~~", "<div>\nx", "<!-- x -->"]);
                b.push_str(&t);
                if r.b() {
                    b.push('\n');
                    b.push_str(&inline(r, 1));
                }
            }
            b
        } else {
            let mut b = paragraph(r);
            if depth > 1 && r.b() {
                b.push_str("\n\n");
                b.push_str(&blocks(r, depth - 1, 2));
            }
            b
        };
        let rest = if m.len() < 5 && r.one(12) { "\t".to_string() } else { " ".repeat(m.len()) };
        out.push_str(&nest(&m, &rest, &body));
    }
    out
}

pub fn cell(r: &mut R) -> String {
    match r.n(8) {
        0 => String::new(),
        1 => r.pick(&["日本", "é", "ｗｉｄｅ", "😀", "a\\|b", "`c`", "*e*", "e\u{301}e\u{301}", "👨\u{200d}👩\u{200d}👧", "\\\\", "&lt;", "~~s~~"]).to_string(),
        _ => words(r, 2),
    }
}

pub fn table(r: &mut R, min_rows: usize) -> String {
    let n = 1 + r.n(4);
    let mut out = String::new();
    let row = |r: &mut R, k: usize| {
        let mut s = String::from("|");
        for _ in 0..k {
            let c = cell(r);
            s.push_str(&format!("{}{c}{}|", " ".repeat(r.n(3)), " ".repeat(r.n(3))));
        }
        s
    };
    out.push_str(&row(r, n));
    out.push_str("\n|");
    for _ in 0..n {
        let d = "-".repeat(1 + r.n(5));
        out.push_str(&match r.n(4) {
            0 => format!(" :{d}: |"),
            1 => format!(":{d}|"),
            2 => format!("{d}: |"),
            _ => format!(" {d} |"),
        });
    }
    let rows = min_rows + r.n(3);
    for _ in 0..rows {
        out.push('\n');
        let k = if r.one(6) { 1 + r.n(n + 1) } else { n };
        out.push_str(&row(r, k));
    }
    out
}

pub fn document(r: &mut R) -> String {
    let mut d = blocks(r, 3, 5);
    if r.b() {
        d.push('\n');
    }
    d
}

/// Link reference definitions, written in all the ways the grammar allows, in any container.
pub fn definitions_doc(r: &mut R) -> String {
    let n = 1 + r.n(3);
    let mut body = String::new();
    for i in 0..n {
        if i > 0 {
            body.push_str(r.pick(&["\n", "\n", "\n\n", "\n\ntext here\n\n", "\n\n# h\n\n"]));
        }
        body.push_str(&definition(r, i));
    }
    match r.n(6) {
        0 => body.push_str("\n\nafter"),
        1 => body.push_str("\nafter"),
        2 => body.push('\n'),
        _ => {}
    }
    match r.n(6) {
        0 => nest("> ", "> ", &body),
        1 => nest("- ", "  ", &body),
        2 => nest("> 1. ", ">    ", &body),
        3 => nest("* > ", "  > ", &body),
        _ => body,
    }
}

pub fn definition(r: &mut R, i: usize) -> String {
    let mut label = format!("l{i}");
    for _ in 0..r.n(4) {
        label.push_str(r.pick(&[" ", "x", "\\]", "\\[", "\\\\", "é", "\n", "b c", "*", "`", "\\", "^", "日", "!"]));
    }
    if r.one(8) {
        label = format!("^{label}");
    }
    if r.one(8) {
        label = format!(" {label} ");
    }
    let sep = r.pick(&[" ", " ", "  ", "", "\n", "\t", " \n "]);
    let dest = match r.n(12) {
        0 => "<>".into(),
        1 => "<a b>".into(),
        2 => "<a\\>b>".into(),
        3 => "/p(x)".into(),
        4 => "/é".into(),
        5 => "é".into(),
        6 => "/a\u{a0}b".into(),
        7 => "x".into(),
        8 => "<日\\\\>".into(),
        10 => format!("<{}>", odd(r, &["a", "b", " ", "\t", "\\>", "\\<", "(", ")", "\\(", "\\\\", "&amp;", "\u{1}", "é", "\u{a0}", "\"", "'"])),
        11 => format!("/{}", odd(r, &["a", "b", "<", ">", "\\>", "\\)", "\\(", "\\", "(b)", "\\", "&amp;", "é", "\u{a0}", "\"", "'", "*", "_"])),
        _ => format!("/u{i}"),
    };
    let title = if r.b() {
        String::new()
    } else {
        let (o, c) = [("\"", "\""), ("'", "'"), ("(", ")")][r.n(3)];
        let mut t = String::new();
        for _ in 0..r.n(5) {
            t.push_str(r.pick(&["t", " ", "é", "\\\\", "\n", "word", "\\\"", "\\'", "\\)", "x y", "<", "&amp;"]));
        }
        format!("{}{o}{t}{c}", r.pick(&[" ", " ", "  ", "\n", "\n  "]))
    };
    let tail = r.pick(&["", "", "", " ", " junk"]);
    format!("[{label}]:{sep}{dest}{title}{tail}")
}
