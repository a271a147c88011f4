//! A small, strict, independent XML 1.0 parser and a zip reader for checking
//! what the writer produces, and a serializer that can spell the same
//! document in many ways.
use crate::engine::Src;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Debug, Clone, PartialEq)]
pub enum Node {
    Elem(Elem),
    Text(String),
}
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Elem {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<Node>,
}
impl Elem {
    pub fn attr(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|a| a.0 == k).map(|a| a.1.as_str())
    }
    pub fn elems(&self) -> impl Iterator<Item = &Elem> {
        self.kids.iter().filter_map(|k| if let Node::Elem(e) = k { Some(e) } else { None })
    }
    pub fn find(&self, name: &str) -> Option<&Elem> {
        self.elems().find(|e| e.name == name)
    }
    pub fn all<'a>(&'a self, name: &'a str) -> impl Iterator<Item = &'a Elem> + 'a {
        self.elems().filter(move |e| e.name == name)
    }
    pub fn text(&self) -> String {
        let mut o = String::new();
        for k in &self.kids {
            match k {
                Node::Text(t) => o.push_str(t),
                Node::Elem(e) => o.push_str(&e.text()),
            }
        }
        o
    }
    pub fn walk<'a>(&'a self, f: &mut impl FnMut(&'a Elem)) {
        f(self);
        for e in self.elems() {
            e.walk(f);
        }
    }
    pub fn is_mixed(&self) -> bool {
        self.kids.iter().any(|k| matches!(k, Node::Text(t) if !t.chars().all(|c| " \t\r\n".contains(c))))
    }
}

fn xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..='\u{10ffff}')
}
fn name_start(c: char) -> bool {
    c.is_alphabetic() || c == '_' || c as u32 > 0x7f
}
fn name_char(c: char) -> bool {
    name_start(c) || c.is_ascii_digit() || c == '-' || c == '.' || c == ':'
}

struct P<'a> {
    b: &'a [char],
    i: usize,
}
type X<T> = Result<T, String>;

impl P<'_> {
    fn err<T>(&self, m: &str) -> X<T> {
        let a = self.i.saturating_sub(60);
        let ctx: String = self.b[a..self.b.len().min(self.i + 20)].iter().collect();
        Err(format!("not well-formed: {} near {:?}", m, ctx))
    }
    fn peek(&self) -> Option<char> {
        self.b.get(self.i).copied()
    }
    fn at(&self, s: &str) -> bool {
        s.chars().enumerate().all(|(k, c)| self.b.get(self.i + k) == Some(&c))
    }
    fn eat(&mut self, s: &str) -> bool {
        if self.at(s) {
            self.i += s.chars().count();
            true
        } else {
            false
        }
    }
    fn ws(&mut self) -> bool {
        let a = self.i;
        while matches!(self.peek(), Some(' ' | '\t' | '\n' | '\r')) {
            self.i += 1;
        }
        self.i > a
    }
    fn name(&mut self) -> X<String> {
        let a = self.i;
        match self.peek() {
            Some(c) if name_start(c) => self.i += 1,
            _ => return self.err("name expected"),
        }
        while matches!(self.peek(), Some(c) if name_char(c)) {
            self.i += 1;
        }
        let n: String = self.b[a..self.i].iter().collect();
        if n.matches(':').count() > 1 || n.ends_with(':') {
            return self.err("bad qualified name");
        }
        Ok(n)
    }
    fn entity(&mut self) -> X<char> {
        // after '&'
        if self.eat("#x") {
            let a = self.i;
            while matches!(self.peek(), Some(c) if c.is_ascii_hexdigit()) {
                self.i += 1;
            }
            let s: String = self.b[a..self.i].iter().collect();
            return self.charref(u32::from_str_radix(&s, 16).ok());
        }
        if self.eat("#") {
            let a = self.i;
            while matches!(self.peek(), Some(c) if c.is_ascii_digit()) {
                self.i += 1;
            }
            let s: String = self.b[a..self.i].iter().collect();
            return self.charref(s.parse().ok());
        }
        for (n, c) in [("lt;", '<'), ("gt;", '>'), ("amp;", '&'), ("quot;", '"'), ("apos;", '\'')] {
            if self.eat(n) {
                return Ok(c);
            }
        }
        self.err("unknown entity")
    }
    fn charref(&mut self, v: Option<u32>) -> X<char> {
        if !self.eat(";") {
            return self.err("character reference without ;");
        }
        match v.and_then(char::from_u32) {
            Some(c) if xml_char(c) => Ok(c),
            _ => self.err("bad character reference"),
        }
    }
    fn comment_or_pi(&mut self) -> X<bool> {
        if self.eat("<!--") {
            while !self.at("-->") {
                if self.peek().is_none() || self.at("--") {
                    return self.err("bad comment");
                }
                self.i += 1;
            }
            self.i += 3;
            return Ok(true);
        }
        if self.eat("<?") {
            let n = self.name()?;
            if n.eq_ignore_ascii_case("xml") {
                return self.err("xml declaration not at the start");
            }
            while !self.at("?>") {
                if self.peek().is_none() {
                    return self.err("bad processing instruction");
                }
                self.i += 1;
            }
            self.i += 2;
            return Ok(true);
        }
        Ok(false)
    }
    fn elem(&mut self, ns: &BTreeSet<String>, depth: usize) -> X<Elem> {
        if depth > 4000 {
            return self.err("too deep");
        }
        // at '<'
        self.i += 1;
        let mut e = Elem { name: self.name()?, ..Default::default() };
        loop {
            let sp = self.ws();
            match self.peek() {
                Some('>') | Some('/') => break,
                None => return self.err("end of file in tag"),
                _ => {}
            }
            if !sp {
                return self.err("whitespace before attribute missing");
            }
            let k = self.name()?;
            self.ws();
            if !self.eat("=") {
                return self.err("= expected");
            }
            self.ws();
            let q = match self.peek() {
                Some(q @ ('"' | '\'')) => q,
                _ => return self.err("quote expected"),
            };
            self.i += 1;
            let mut v = String::new();
            loop {
                match self.peek() {
                    None => return self.err("end of file in attribute"),
                    Some('<') => return self.err("< in attribute"),
                    Some(c) if c == q => {
                        self.i += 1;
                        break;
                    }
                    Some('&') => {
                        self.i += 1;
                        v.push(self.entity()?);
                    }
                    Some('\n' | '\t' | '\r') => {
                        self.i += 1;
                        v.push(' ');
                    }
                    Some(c) => {
                        if !xml_char(c) {
                            return self.err("invalid character");
                        }
                        self.i += 1;
                        v.push(c);
                    }
                }
            }
            if e.attrs.iter().any(|a| a.0 == k) {
                return self.err("duplicate attribute");
            }
            e.attrs.push((k, v));
        }
        let mut ns2;
        let mut ns = ns;
        if e.attrs.iter().any(|a| a.0.starts_with("xmlns:")) {
            ns2 = ns.clone();
            for (k, _) in &e.attrs {
                if let Some(p) = k.strip_prefix("xmlns:") {
                    ns2.insert(p.to_string());
                }
            }
            ns = &ns2;
        }
        for n in std::iter::once(&e.name).chain(e.attrs.iter().map(|a| &a.0)) {
            if let Some((p, _)) = n.split_once(':') {
                if p != "xmlns" && p != "xml" && !ns.contains(p) && !ns.contains("*") {
                    return self.err(&format!("undeclared namespace prefix {:?}", p));
                }
            }
        }
        if self.eat("/>") {
            return Ok(e);
        }
        if !self.eat(">") {
            return self.err("> expected");
        }
        let mut t = String::new();
        loop {
            match self.peek() {
                None => return self.err(&format!("end of file in {}", e.name)),
                Some('<') => {
                    if self.eat("<![CDATA[") {
                        while !self.at("]]>") {
                            match self.peek() {
                                None => return self.err("end of file in cdata"),
                                Some(c) => t.push(c),
                            }
                            self.i += 1;
                        }
                        self.i += 3;
                        continue;
                    }
                    if self.comment_or_pi()? {
                        continue;
                    }
                    if !t.is_empty() {
                        e.kids.push(Node::Text(std::mem::take(&mut t)));
                    }
                    if self.eat("</") {
                        let n = self.name()?;
                        if n != e.name {
                            return self.err(&format!("end tag {} for {}", n, e.name));
                        }
                        self.ws();
                        if !self.eat(">") {
                            return self.err("> expected");
                        }
                        return Ok(e);
                    }
                    let k = self.elem(ns, depth + 1)?;
                    e.kids.push(Node::Elem(k));
                }
                Some('&') => {
                    self.i += 1;
                    t.push(self.entity()?);
                }
                Some('\r') => {
                    self.i += 1;
                    if self.peek() == Some('\n') {
                        self.i += 1;
                    }
                    t.push('\n');
                }
                Some(c) => {
                    if !xml_char(c) {
                        return self.err("invalid character");
                    }
                    if self.at("]]>") {
                        return self.err("]]> in text");
                    }
                    self.i += 1;
                    t.push(c);
                }
            }
        }
    }
}

/// Strict parse. `ns`: also demand declared namespace prefixes.
pub fn parse(b: &[u8], ns: bool) -> X<Elem> {
    let s = std::str::from_utf8(b).map_err(|e| format!("not utf-8: {}", e))?;
    let c: Vec<char> = s.chars().collect();
    let mut p = P { b: &c, i: 0 };
    p.eat("\u{feff}");
    if p.at("<?xml") && matches!(p.b.get(p.i + 5), Some(' ' | '\t' | '\n' | '\r')) {
        while !p.at("?>") {
            if p.peek().is_none() {
                return p.err("xml declaration");
            }
            p.i += 1;
        }
        p.i += 2;
    }
    let mut set = BTreeSet::new();
    if !ns {
        set.insert("*".to_string());
    }
    let mut root = None;
    loop {
        p.ws();
        match p.peek() {
            None => break,
            Some('<') => {
                if p.comment_or_pi()? {
                    continue;
                }
                if root.is_some() {
                    return p.err("second root element");
                }
                root = Some(p.elem(&set, 0)?);
            }
            _ => return p.err("text outside of the root element"),
        }
    }
    root.ok_or_else(|| "no root element".to_string())
}

// ---------------------------------------------------------------- zip

/// All entries in central directory order, read through the `zip` crate.
pub fn unzip(b: &[u8]) -> X<Vec<(String, Vec<u8>, bool)>> {
    use std::io::Read;
    let mut z = zip::ZipArchive::new(std::io::Cursor::new(b)).map_err(|e| format!("zip: {}", e))?;
    let mut r = vec![];
    for i in 0..z.len() {
        let mut f = z.by_index(i).map_err(|e| format!("zip entry: {}", e))?;
        let mut v = vec![];
        f.read_to_end(&mut v).map_err(|e| format!("zip entry {}: {}", f.name(), e))?;
        let stored = f.compression() == zip::CompressionMethod::Stored;
        r.push((f.name().to_string(), v, stored));
    }
    Ok(r)
}
pub fn unzip_map(b: &[u8]) -> X<BTreeMap<String, Vec<u8>>> {
    Ok(unzip(b)?.into_iter().map(|(n, v, _)| (n, v)).collect())
}
pub fn zip_up(files: &[(String, Vec<u8>)], stored: impl Fn(&str) -> bool) -> X<Vec<u8>> {
    use std::io::Write;
    let mut z = zip::ZipWriter::new(std::io::Cursor::new(Vec::new()));
    for (n, b) in files {
        let m = if stored(n) { zip::CompressionMethod::Stored } else { zip::CompressionMethod::Deflated };
        let o = zip::write::SimpleFileOptions::default().compression_method(m);
        if n.ends_with('/') {
            z.add_directory(n.as_str(), o).map_err(|e| e.to_string())?;
        } else {
            z.start_file(n.as_str(), o).map_err(|e| e.to_string())?;
            z.write_all(b).map_err(|e| e.to_string())?;
        }
    }
    Ok(z.finish().map_err(|e| e.to_string())?.into_inner())
}

// ---------------------------------------------------------------- serializer

/// How to spell a document.
#[derive(Debug, Clone, Default)]
pub struct Spell {
    pub quotes: bool,
    pub shuffle: bool,
    pub selfclose: bool,
    pub entities: bool,
    pub comments: bool,
    pub spaces: bool,
    pub indent: bool,
    pub cdata: bool,
    pub pi: bool,
}
impl Spell {
    pub fn gen(s: &mut Src) -> Spell {
        Spell {
            quotes: s.coin(),
            shuffle: s.coin(),
            selfclose: s.coin(),
            entities: s.coin(),
            comments: s.coin(),
            spaces: s.coin(),
            indent: s.coin(),
            cdata: s.coin(),
            pi: s.coin(),
        }
    }
}

fn esc(s: &mut Src, o: &mut String, t: &str, attr: Option<char>, sp: &Spell) {
    for c in t.chars() {
        let must = match c {
            '<' | '&' => true,
            '>' => attr.is_none(),
            '\r' => true,
            '\n' | '\t' => attr.is_some(),
            c if Some(c) == attr => true,
            _ => false,
        };
        if must || (sp.entities && (c as u32 > 0x7f || ">\"'".contains(c)) && s.pct(40)) {
            match (s.u(3), c) {
                (0, '<') => o.push_str("&lt;"),
                (0, '>') => o.push_str("&gt;"),
                (0, '&') => o.push_str("&amp;"),
                (0, '"') => o.push_str("&quot;"),
                (0, '\'') => o.push_str("&apos;"),
                (1, c) => o.push_str(&format!("&#{};", c as u32)),
                (_, c) => o.push_str(&format!("&#x{:x};", c as u32)),
            }
        } else {
            o.push(c);
        }
    }
}

fn noise(s: &mut Src, o: &mut String, sp: &Spell) {
    if sp.comments && s.pct(8) {
        o.push_str(s.pick(&["<!-- c -->", "<!---->", "<!-- <table:table> & -->", "<!-- </office:body> \n -->"]));
    }
    if sp.pi && s.pct(4) {
        o.push_str(s.pick(&["<?pi?>", "<?php <table:table/> ?>"]));
    }
}
fn gap(s: &mut Src, o: &mut String, sp: &Spell) {
    if sp.indent {
        o.push_str(s.pick(&["", "\n", "\n  ", " ", "\t", "\r\n"]));
    }
}
/// Elements whose text content is significant: no whitespace may be added
/// below them.
pub fn text_content(name: &str) -> bool {
    name.starts_with("text:")
        || name.starts_with("dc:")
        || name.starts_with("meta:")
        || matches!(name, "number:text" | "loext:text" | "number:embedded-text" | "number:currency-symbol" | "number:fill-character" | "loext:fill-character")
        || name.starts_with("config:config-item") && !name.starts_with("config:config-item-")
        || matches!(name, "office:script" | "svg:desc" | "svg:title" | "office:binary-data")
}

pub fn spell(s: &mut Src, e: &Elem, sp: &Spell, strip: bool, o: &mut String) {
    o.push('<');
    o.push_str(&e.name);
    let mut order: Vec<usize> = (0..e.attrs.len()).collect();
    if sp.shuffle {
        for i in (1..order.len()).rev() {
            let j = s.u(i + 1);
            order.swap(i, j);
        }
    }
    for i in order {
        let (k, v) = &e.attrs[i];
        o.push_str(if sp.spaces { s.pick(&[" ", "  ", "\n", "\t ", "\r\n"]) } else { " " });
        o.push_str(k);
        o.push_str(if sp.spaces && s.pct(10) { s.pick(&[" = ", "= ", " ="]) } else { "=" });
        let q = if sp.quotes && s.coin() { '\'' } else { '"' };
        o.push(q);
        esc(s, o, v, Some(q), sp);
        o.push(q);
    }
    if sp.spaces && s.pct(20) {
        o.push(' ');
    }
    if e.kids.is_empty() && (!sp.selfclose || s.coin()) {
        o.push_str("/>");
        return;
    }
    o.push('>');
    let keep = strip || text_content(&e.name) || e.is_mixed();
    for k in &e.kids {
        if !keep {
            gap(s, o, sp);
        }
        noise(s, o, sp);
        match k {
            Node::Elem(x) => spell(s, x, sp, keep && !structural(&x.name), o),
            Node::Text(t) => {
                if sp.cdata && keep && s.pct(15) && !t.contains("]]>") && !t.contains('\r') {
                    o.push_str("<![CDATA[");
                    o.push_str(t);
                    o.push_str("]]>");
                } else {
                    let mut rest = t.as_str();
                    // a comment in the middle of text
                    if (sp.comments || sp.pi) && s.pct(10) {
                        if let Some((i, _)) = t.char_indices().nth(s.u(t.chars().count().max(1))) {
                            esc(s, o, &t[..i], None, sp);
                            noise(s, o, sp);
                            rest = &t[i..];
                        }
                    }
                    esc(s, o, rest, None, sp);
                }
            }
        }
    }
    noise(s, o, sp);
    if !keep {
        gap(s, o, sp);
    }
    o.push_str("</");
    o.push_str(&e.name);
    if sp.spaces && s.pct(20) {
        o.push(' ');
    }
    o.push('>');
}
fn structural(_n: &str) -> bool {
    false
}

pub fn doc(s: &mut Src, e: &Elem, sp: &Spell) -> String {
    let mut o = String::new();
    o.push_str(s.pick(&["<?xml version=\"1.0\" encoding=\"UTF-8\"?>", "<?xml version='1.0' encoding='utf-8' standalone='yes'?>\n", "<?xml version=\"1.0\"?>", ""]));
    noise(s, &mut o, sp);
    spell(s, e, sp, false, &mut o);
    noise(s, &mut o, sp);
    if sp.indent {
        o.push('\n');
    }
    o
}

/// xsd:base64Binary
pub fn base64(b: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in b.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                o.push(A[(v >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                o.push('=');
            }
        }
    }
    o
}
