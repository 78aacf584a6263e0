//! The trusted model of contracts/prelude.vrs and contracts/paragraph.vrs, compared with std and textwrap themselves.
//! The functions below are the spec functions of the same names, written in Rust.

use crate::util::R;

type S = Vec<char>;
fn v(s: &str) -> S {
    s.chars().collect()
}
fn t(s: &[char]) -> String {
    s.iter().collect()
}
fn ulen(c: char) -> usize {
    let n = c as u32;
    if n < 0x80 { 1 } else if n < 0x800 { 2 } else if n < 0x10000 { 3 } else { 4 }
}
fn enc(c: char) -> Vec<u8> {
    let n = c as u32;
    match ulen(c) {
        1 => vec![n as u8],
        2 => vec![(0xc0 + n / 0x40) as u8, (0x80 + n % 0x40) as u8],
        3 => vec![(0xe0 + n / 0x1000) as u8, (0x80 + n / 0x40 % 0x40) as u8, (0x80 + n % 0x40) as u8],
        _ => vec![(0xf0 + n / 0x40000) as u8, (0x80 + n / 0x1000 % 0x40) as u8, (0x80 + n / 0x40 % 0x40) as u8, (0x80 + n % 0x40) as u8],
    }
}
fn utf8(s: &[char]) -> Vec<u8> {
    s.iter().flat_map(|c| enc(*c)).collect()
}
fn blen(s: &[char]) -> usize {
    s.iter().map(|c| ulen(*c)).sum()
}
fn bdy(s: &[char], b: usize) -> bool {
    (0..=s.len()).any(|k| blen(&s[..k]) == b)
}
fn cix(s: &[char], b: usize) -> usize {
    (0..=s.len()).find(|k| blen(&s[..*k]) == b).unwrap()
}
fn is_whitespace(c: char) -> bool {
    let n = c as u32;
    (9..=13).contains(&n)
        || [0x20, 0x85, 0xa0, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000].contains(&n)
        || (0x2000..=0x200a).contains(&n)
}
fn is_ascii_whitespace(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r') || c as u32 == 0xc
}
fn is_ascii_digit(c: char) -> bool {
    ('0'..='9').contains(&c)
}
fn is_ascii_punctuation(c: char) -> bool {
    let n = c as u32;
    (33..=47).contains(&n) || (58..=64).contains(&n) || (91..=96).contains(&n) || (123..=126).contains(&n)
}
fn is_ascii_alphabetic(c: char) -> bool {
    ('a'..='z').contains(&c) || ('A'..='Z').contains(&c)
}
fn is_ascii_control(c: char) -> bool {
    (c as u32) < 0x20 || c as u32 == 0x7f
}
fn lower(c: char) -> char {
    if ('A'..='Z').contains(&c) { char::from_u32(c as u32 + 32).unwrap() } else { c }
}
fn line_len(s: &[char]) -> usize {
    s.iter().position(|c| *c == '\n').unwrap_or(s.len())
}
fn str_lines(s: &[char]) -> Vec<S> {
    if s.is_empty() {
        return vec![];
    }
    let n = line_len(s);
    if n >= s.len() {
        return vec![s.to_vec()];
    }
    let mut l = s[..n].to_vec();
    if l.last() == Some(&'\r') {
        l.pop();
    }
    let mut r = vec![l];
    r.extend(str_lines(&s[n + 1..]));
    r
}
fn lines_incl(s: &[char]) -> Vec<S> {
    if s.is_empty() {
        return vec![];
    }
    let n = line_len(s);
    if n >= s.len() {
        return vec![s.to_vec()];
    }
    let mut r = vec![s[..=n].to_vec()];
    r.extend(lines_incl(&s[n + 1..]));
    r
}
fn split_p(s: &[char], p: &dyn Fn(char) -> bool) -> Vec<S> {
    let mut r = vec![vec![]];
    for c in s {
        if p(*c) { r.push(vec![]) } else { r.last_mut().unwrap().push(*c) }
    }
    r
}
fn text_at(t: &[char], s: &[char], k: usize) -> bool {
    k + t.len() <= s.len() && &s[k..k + t.len()] == t
}
fn replace(s: &[char], p: &[char], to: &[char]) -> S {
    if s.is_empty() {
        s.to_vec()
    } else if text_at(p, s, 0) {
        [to.to_vec(), replace(&s[p.len()..], p, to)].concat()
    } else {
        [s[..1].to_vec(), replace(&s[1..], p, to)].concat()
    }
}
fn split_str(s: &[char], t: &[char]) -> Vec<S> {
    match (0..=s.len()).find(|k| text_at(t, s, *k)) {
        None => vec![s.to_vec()],
        Some(k) => {
            let mut r = vec![s[..k].to_vec()];
            r.extend(split_str(&s[k + t.len()..], t));
            r
        }
    }
}
fn skip_while(s: &[char], p: &dyn Fn(char) -> bool) -> S {
    let k = s.iter().position(|c| !p(*c)).unwrap_or(s.len());
    s[k..].to_vec()
}
fn trim_end_p(s: &[char], p: &dyn Fn(char) -> bool) -> S {
    let k = s.iter().rposition(|c| !p(*c)).map_or(0, |k| k + 1);
    s[..k].to_vec()
}
fn dec(n: usize) -> S {
    let d = char::from_digit((n % 10) as u32, 10).unwrap();
    if n < 10 {
        return vec![d];
    }
    let mut r = dec(n / 10);
    r.push(d);
    r
}
fn sp_parse(s: &[char]) -> Option<u128> {
    let digits = |s: &[char]| !s.is_empty() && s.iter().all(|c| is_ascii_digit(*c));
    let num = |s: &[char]| s.iter().fold(0u128, |a, c| a.saturating_mul(10).saturating_add((*c as u32 - '0' as u32) as u128));
    if digits(s) {
        Some(num(s))
    } else if s.len() > 1 && s[0] == '+' && digits(&s[1..]) {
        Some(num(&s[1..]))
    } else {
        None
    }
}
fn words(s: &str) -> Vec<&str> {
    s.split([' ', '\n']).filter(|w| !w.is_empty()).collect()
}
fn strs<'a>(i: impl Iterator<Item = &'a str>) -> Vec<S> {
    i.map(v).collect()
}

fn text(r: &mut R) -> S {
    const C: &[char] = &['a', 'b', ' ', ' ', ' ', '\n', '\n', '\r', '\t', '-', '\\', '"', '1', '9', '0', '+', 'A', 'Z', 'é', '語', '😀', '\u{a0}', '\u{3000}', '\u{85}', '\u{b}', '*'];
    let n = r.n(24);
    (0..n).map(|_| C[r.n(C.len())]).collect()
}

/// The number of comparisons, or what differs
pub fn run(seed: u64, cases: usize) -> Result<usize, String> {
    let mut n = 0;
    let mut eq = |what: &str, ok: bool, with: &str| -> Result<(), String> {
        n += 1;
        if ok { Ok(()) } else { Err(format!("{what} differs from its model for {with:?}")) }
    };
    for c in (0..=0x10ffff).filter_map(char::from_u32) {
        let s = c.to_string();
        let ok = c.len_utf8() == ulen(c)
            && s.as_bytes() == enc(c)
            && c.is_whitespace() == is_whitespace(c)
            && c.is_ascii_whitespace() == is_ascii_whitespace(c)
            && c.is_ascii_digit() == is_ascii_digit(c)
            && c.is_ascii_punctuation() == is_ascii_punctuation(c)
            && c.is_ascii_alphabetic() == is_ascii_alphabetic(c)
            && c.is_ascii_alphanumeric() == (is_ascii_alphabetic(c) || is_ascii_digit(c))
            && c.is_ascii_control() == is_ascii_control(c)
            && c.is_ascii() == ((c as u32) < 0x80)
            && c.to_ascii_lowercase() == lower(c);
        eq("a char", ok, &s)?;
    }
    for b in 0..=255u8 {
        eq("u8::is_ascii_whitespace", b.is_ascii_whitespace() == matches!(b, 0x20 | 9 | 10 | 12 | 13), &b.to_string())?;
    }
    for i in 0..cases {
        let mut r = R::new(seed.wrapping_mul(7_777_777).wrapping_add(i as u64));
        let s = text(&mut r);
        let o = t(&s);
        let x = &o[..];
        let p = { let k = 1 + r.n(2); let mut p = text(&mut r); p.truncate(k); if p.is_empty() { p.push(' ') } p };
        let q = t(&p);
        let c = p[0];
        eq("bytes", x.as_bytes() == utf8(&s) && x.len() == blen(&s), x)?;
        for b in 0..=x.len() {
            eq("is_char_boundary", x.is_char_boundary(b) == bdy(&s, b), x)?;
            if bdy(&s, b) {
                let k = cix(&s, b);
                eq("slices", v(&x[..b]) == s[..k] && v(&x[b..]) == s[k..] && x.split_at(b) == (&x[..b], &x[b..]), x)?;
            }
        }
        eq("lines", strs(x.lines()) == str_lines(&s), x)?;
        eq("split_inclusive", strs(x.split_inclusive('\n')) == lines_incl(&s), x)?;
        eq("split with a char", strs(x.split(c)) == split_p(&s, &|d| d == c), x)?;
        eq("split with chars", strs(x.split(['\n', ' '])) == split_p(&s, &|d| d == '\n' || d == ' '), x)?;
        eq("split with a string", strs(x.split(&q[..])) == split_str(&s, &p), x)?;
        eq("replace a string", v(&x.replace(&q[..], "\n")) == replace(&s, &p, &['\n']), x)?;
        eq("replace a char", v(&x.replace(c, "ab")) == replace(&s, &p[..1], &['a', 'b']), x)?;
        eq("char_indices", x.char_indices().collect::<Vec<_>>() == (0..s.len()).map(|i| (blen(&s[..i]), s[i])).collect::<Vec<_>>(), x)?;
        eq("trim_start", v(x.trim_start()) == skip_while(&s, &is_whitespace), x)?;
        eq("trim_end", v(x.trim_end()) == trim_end_p(&s, &is_whitespace), x)?;
        eq("trim", v(x.trim()) == trim_end_p(&skip_while(&s, &is_whitespace), &is_whitespace), x)?;
        eq("trim_end_matches", v(x.trim_end_matches(c)) == trim_end_p(&s, &|d| d == c), x)?;
        eq("trim_start_matches", v(x.trim_start_matches([c, ' '])) == skip_while(&s, &|d| d == c || d == ' '), x)?;
        eq("trim_matches", v(x.trim_matches(|d: char| d == c || d == ' ')) == trim_end_p(&skip_while(&s, &|d| d == c || d == ' '), &|d| d == c || d == ' '), x)?;
        eq("starts_with", x.starts_with(&q[..]) == text_at(&p, &s, 0), x)?;
        let end = s.len() >= p.len() && text_at(&p, &s, s.len() - p.len());
        eq("ends_with", x.ends_with(&q[..]) == end, x)?;
        let all: Vec<usize> = (0..=s.len()).filter(|k| text_at(&p, &s, *k)).collect();
        eq("contains", x.contains(&q[..]) != all.is_empty(), x)?;
        eq("find", x.find(&q[..]) == all.first().map(|k| blen(&s[..*k])), x)?;
        eq("rfind", x.rfind(&q[..]) == all.last().map(|k| blen(&s[..*k])), x)?;
        eq("match_indices", x.match_indices(c).all(|(b, m)| bdy(&s, b) && s[cix(&s, b)] == c && bdy(&s, b + ulen(c)) && v(m) == [c]), x)?;
        eq("strip_prefix", x.strip_prefix(&q[..]).map(v) == text_at(&p, &s, 0).then(|| s[p.len().min(s.len())..].to_vec()), x)?;
        eq("strip_suffix", x.strip_suffix(&q[..]).map(v) == end.then(|| s[..s.len() - p.len()].to_vec()), x)?;
        let w = skip_while(&s, &is_whitespace);
        let first: S = w.iter().take_while(|c| !is_whitespace(**c)).copied().collect();
        eq("split_whitespace", x.split_whitespace().next().map(v) == (!w.is_empty()).then_some(first), x)?;
        let u: S = s.iter().map(|c| if r.n(2) == 0 { lower(*c) } else { *c }).collect();
        eq("eq_ignore_ascii_case", x.eq_ignore_ascii_case(&t(&u)), x)?;
        eq("eq_ignore_ascii_case", x.eq_ignore_ascii_case(&q) == (s.len() == p.len() && s.iter().zip(&p).all(|(a, b)| lower(*a) == lower(*b))), x)?;
        let d: String = (0..r.n(24)).map(|_| { let k = if r.n(3) == 0 { 6 } else { 4 }; ['0', '1', '9', '5', '+', '-'][r.n(k)] }).collect();
        for d in [&d[..], x] {
            let m = sp_parse(&v(d)).filter(|n| *n <= usize::MAX as u128);
            eq("parse", d.parse::<usize>().ok().map(|n| n as u128) == m, d)?;
        }
        let k = r.n(60);
        let num = if k == 0 { 0 } else { (r.n(1 << 30) << 32 | r.n(1 << 30)) >> k };
        eq("the display of a number", v(&num.to_string()) == dec(num), &num.to_string())?;
        eq("checked_ilog10", num.checked_ilog10().map(|n| n as usize + 1) == (num > 0).then(|| dec(num).len()), &num.to_string())?;
        let k = r.n(30);
        let fill = |n: usize| " ".repeat(n);
        let g = k.saturating_sub(s.len());
        eq("{:>}", format!("{x:>k$}") == fill(g) + x, x)?;
        eq("{:<}", format!("{x:<k$}") == x.to_string() + &fill(g), x)?;
        eq("{:^}", format!("{x:^k$}") == fill(g / 2) + x + &fill(g - g / 2), x)?;
        // textwrap
        let mut o = textwrap::Options::new(r.n(12))
            .break_words(false)
            .word_separator(textwrap::WordSeparator::AsciiSpace)
            .word_splitter(textwrap::WordSplitter::NoHyphenation)
            .wrap_algorithm(textwrap::WrapAlgorithm::FirstFit);
        o.width = o.width.max(r.n(3));
        let width = o.width;
        let f = textwrap::fill(x, o.clone());
        eq("the words of textwrap::fill", words(&f) == words(x), x)?;
        eq("the lines of textwrap::fill", f.split('\n').all(|l| textwrap::core::display_width(l) <= width || !l.contains(' ')), x)?;
        let y = t(&text(&mut r));
        let g = textwrap::fill(&y, o.clone());
        eq("textwrap::fill of two lines", textwrap::fill(&format!("{x}\n{y}"), o) == format!("{f}\n{g}"), x)?;
    }
    Ok(n)
}
