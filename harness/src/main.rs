//! Runs the real seam library on recorded cases and writes down what it did.
//! usage: seam_harness CASES.ndjson OUT.ndjson [FIRST]
//! One line per case in, one line per case out; a line "@<n>" announces that case n has begun, so
//! that the caller can tell which case hung or aborted the process.
mod json;
use json::{J, esc};
use seam::assemble::MarkupFormatter;
use seam::parse::{lexer::{Lexer, LexError}, parser::{Parser, ParseError, ParseNode}, expander::ExpansionError, tokens::{Kind, Site}};
use std::{error::Error, io::{Read, Seek, SeekFrom, Write}, panic::{catch_unwind, AssertUnwindSafe}};

extern "C" { fn dup2(a: i32, b: i32) -> i32; }

fn site(o: &mut String, s: &Site) {
    o.push('['); esc(o, s.source);
    o.push_str(&format!(",{},{},{},{}]", s.bytes_from_start, s.line, s.bytes_from_start_of_line, s.bytes_span));
}

fn lambda(v: &str, s: &Site) -> Option<String> {
    v.strip_prefix("__lambda")?;
    Some(format!("__lambda@{}:{}:{}", s.source, s.bytes_from_start, s.bytes_span))
}

fn node(o: &mut String, n: &ParseNode) {
    let mut atom = |t: &str, n: &seam::parse::parser::Node| {
        o.push_str("{\"t\":\""); o.push_str(t); o.push_str("\",\"v\":");
        match lambda(&n.value, &n.site) {
            Some(v) if t == "y" => esc(o, &v),
            _ => esc(o, &n.value),
        }
        o.push_str(",\"w\":"); esc(o, &n.leading_whitespace);
        o.push_str(",\"p\":"); site(o, &n.site); o.push('}');
    };
    match n {
        ParseNode::Symbol(a) => atom("y", a),
        ParseNode::Number(a) => atom("n", a),
        ParseNode::String(a) => atom("s", a),
        ParseNode::Raw(a) => atom("r", a),
        ParseNode::List { nodes, site: s, end_token, leading_whitespace } => {
            o.push_str("{\"t\":\"l\",\"k\":"); tree(o, nodes);
            o.push_str(",\"w\":"); esc(o, leading_whitespace);
            o.push_str(",\"e\":"); esc(o, end_token.leading_whitespace);
            o.push_str(",\"q\":"); site(o, &end_token.site);
            o.push_str(",\"p\":"); site(o, s); o.push('}');
        },
        ParseNode::Attribute { keyword, node: v, site: s, leading_whitespace } => {
            o.push_str("{\"t\":\"a\",\"v\":"); esc(o, keyword);
            o.push_str(",\"n\":"); node(o, v);
            o.push_str(",\"w\":"); esc(o, leading_whitespace);
            o.push_str(",\"p\":"); site(o, s); o.push('}');
        },
    }
}

fn tree(o: &mut String, t: &[ParseNode]) {
    o.push('[');
    for (i, n) in t.iter().enumerate() { if i > 0 { o.push(','); } node(o, n); }
    o.push(']');
}

fn failure(o: &mut String, e: &(dyn Error + '_)) {
    // Lifetimes are erased: only the type is looked at, and nothing is kept.
    let e: &'static (dyn Error + 'static) = unsafe { std::mem::transmute(e) };
    let (cls, st) = if let Some(LexError(_, s)) = e.downcast_ref::<LexError>() { ("lex", Some(*s)) }
        else if let Some(ParseError(_, s)) = e.downcast_ref::<ParseError>() { ("parse", Some(*s)) }
        else if let Some(ExpansionError(_, s)) = e.downcast_ref::<ExpansionError>() { ("expand", Some(*s)) }
        else { ("other", None) };
    o.push_str("{\"ok\":false,\"cls\":\""); o.push_str(cls); o.push_str("\",\"p\":");
    match st { Some(s) => site(o, &s), None => o.push_str("[]") }
    o.push_str(",\"msg\":"); esc(o, &format!("{}", e));
    let wrong = if let Some(LexError(m, _)) = e.downcast_ref::<LexError>() { m.clone() }
        else if let Some(ParseError(m, _)) = e.downcast_ref::<ParseError>() { m.clone() }
        else if let Some(ExpansionError(m, _)) = e.downcast_ref::<ExpansionError>() { m.clone() }
        else { String::new() };
    o.push_str(",\"wrong\":"); esc(o, &wrong);
    if let Some(s) = st { o.push_str(",\"view\":"); esc(o, s.view()); o.push_str(",\"lineview\":"); esc(o, s.line_slice()); o.push_str(&format!(",\"col\":{},\"width\":{}", s.line_column(), s.width())); }
    o.push('}');
}

fn guarded(o: &mut String, f: impl FnOnce(&mut String)) {
    let mut part = String::new();
    match catch_unwind(AssertUnwindSafe(|| f(&mut part))) {
        Ok(()) => o.push_str(&part),
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            o.push_str("{\"ok\":false,\"cls\":\"panic\",\"msg\":"); esc(o, &m); o.push('}');
        }
    }
}

fn lex(o: &mut String, path: &str, src: &str) {
    let l = Lexer::new(path.to_string(), src.to_string());
    o.push_str("{\"toks\":[");
    let mut first = true;
    let mut bad = String::new();
    while !l.eof() {
        match l.consume() {
            Ok(t) => {
                if !first { o.push(','); } first = false;
                let k = match t.kind { Kind::LParen => "(", Kind::RParen => ")", Kind::Symbol => "y", Kind::String => "s", Kind::Number => "n", Kind::Keyword => "k" };
                o.push_str(&format!("{{\"t\":\"{}\",\"v\":", k)); esc(o, t.value);
                o.push_str(",\"w\":"); esc(o, t.leading_whitespace);
                o.push_str(",\"view\":"); esc(o, t.site.view());
                o.push_str(&format!(",\"col\":{},\"width\":{},\"lineview\":", t.site.line_column(), t.site.width())); esc(o, t.site.line_slice());
                o.push_str(",\"p\":"); site(o, &t.site); o.push('}');
            },
            Err(e) => { bad.push_str(",\"err\":"); failure(&mut bad, &e); break; }
        }
    }
    o.push(']'); o.push_str(&bad); o.push('}');
}

fn parse(o: &mut String, path: &str, src: &str) {
    let p = Parser::new(Lexer::new(path.to_string(), src.to_string()));
    match p.parse() {
        Ok(t) => { o.push_str("{\"ok\":true,\"tree\":"); tree(o, &t); o.push('}'); },
        Err(e) => failure(o, &*e),
    };
}

fn format_tree(o: &mut String, target: &str, t: seam::parse::ParseTree) {
    use seam::assemble::*;
    let (name, doc) = match target.strip_suffix('!') { Some(n) => (n, true), None => (target, false) };
    let f: Box<dyn MarkupFormatter> = match name {
        "text" => Box::new(text::PlainTextFormatter::new(t)),
        "sexp" => Box::new(sexp::SExpFormatter::new(t)),
        "html" => Box::new(html::HTMLFormatter::new(t)),
        "xml" => Box::new(xml::XMLFormatter::new(t)),
        "css" => Box::new(css::CSSFormatter::new(t)),
        _ => panic!("harness: target"),
    };
    match if doc { f.document() } else { f.display() } {
        Ok(s) => { o.push_str("{\"ok\":true,\"out\":"); esc(o, &s); o.push('}'); },
        Err(e) => {
            o.push_str("{\"ok\":false,\"cls\":\"gen\",\"p\":"); site(o, &e.site);
            o.push_str(",\"msg\":"); esc(o, &format!("{}", e)); o.push_str(",\"wrong\":"); esc(o, &e.message); o.push('}');
        }
    };
}

struct Log { file: std::fs::File, at: u64 }
impl Log {
    fn take(&mut self) -> Vec<String> {
        let mut buf = Vec::new();
        self.file.seek(SeekFrom::Start(self.at)).unwrap();
        self.file.read_to_end(&mut buf).unwrap();
        self.at += buf.len() as u64;
        String::from_utf8_lossy(&buf).split("[#] log (").skip(1)
            .map(|s| s.split_once("): ").map_or(s, |x| x.1).strip_suffix('\n').unwrap_or(s).to_string()).collect()
    }
    fn put(&mut self, o: &mut String) {
        let l = self.take();
        o.push('[');
        for (i, s) in l.iter().enumerate() { if i > 0 { o.push(','); } esc(o, s); }
        o.push(']');
    }
}

/// What this expansion produced, and how each requested target rendered it.
fn expand(o: &mut String, path: &str, src: &str, incs: &[J], fmts: &[J], keep_tree: bool) {
    let mut b = seam::tree_builder(Some(path), src.to_string());
    b.add_includes(incs.iter().map(|i| i.str()));
    let r = b.expand();
    match r {
        Ok(ref t) => {
            o.push_str("{\"ok\":true");
            if keep_tree { o.push_str(",\"tree\":"); tree(o, t); }
            if !fmts.is_empty() {
                o.push_str(",\"fmt\":{");
                for (i, f) in fmts.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    esc(o, f.str()); o.push(':');
                    guarded(o, |o| format_tree(o, f.str(), t.clone()));
                }
                o.push('}');
            }
            o.push('}');
        },
        Err(ref e) => failure(o, &**e),
    }
}

/// Several documents at once: each is made, expanded, generated and dropped as the schedule says.
struct Live { builder: *mut seam::parse::expander::Expander<'static>, tree: Option<seam::parse::ParseTree<'static>> }

fn make(d: &J) -> Live {
    let path = if d.gets("path").is_empty() { "<stdin>" } else { d.gets("path") };
    let mut b: seam::parse::expander::Expander<'static> = seam::tree_builder(Some(path), d.gets("src").to_string());
    b.add_includes(d.geta("incs").iter().map(|i| i.str()));
    Live { builder: Box::into_raw(Box::new(b)), tree: None }
}

fn step(o: &mut String, live: &mut Live, op: &str, target: &str) {
    match op {
        "expand" => guarded(o, |o| {
            // The builder stays where it is until the document is dropped.
            let r = unsafe { (*live.builder).expand() };
            match r {
                Ok(t) => { o.push_str("{\"ok\":true,\"tree\":"); tree(o, &t); o.push('}'); live.tree = Some(t); },
                Err(e) => failure(o, &*e),
            }
        }),
        "generate" => match live.tree {
            Some(ref t) => guarded(o, |o| format_tree(o, target, t.clone())),
            None => o.push_str("{\"ok\":false,\"cls\":\"none\"}"),
        },
        _ => panic!("harness: op"),
    }
}

fn end(mut live: Live) {
    live.tree = None;
    drop(unsafe { Box::from_raw(live.builder) });
}

fn history(o: &mut String, h: &J, log: &mut Log) {
    let docs = h.geta("docs");
    let mut live: Vec<Option<Live>> = docs.iter().map(|_| None).collect();
    o.push('[');
    for (i, op) in h.geta("ops").iter().enumerate() {
        if i > 0 { o.push(','); }
        let k: usize = op.gets("k").parse().unwrap_or(0);
        log.take();
        o.push_str("{\"r\":");
        match op.gets("op") {
            "make" => { live[k] = Some(make(&docs[k])); o.push_str("null"); },
            "drop" => { if let Some(l) = live[k].take() { end(l); } o.push_str("null"); },
            "threads" => {
                // Each of these documents on a thread of its own, all at once.
                let ks: Vec<usize> = op.geta("ks").iter().map(|k| k.str().parse().unwrap()).collect();
                let target = op.gets("target");
                let gate = std::sync::Barrier::new(ks.len());
                let outs: Vec<String> = std::thread::scope(|s| {
                    let hs: Vec<_> = ks.iter().map(|k| {
                        let (d, gate) = (&docs[*k], &gate);
                        std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                            let mut o = String::from("[");
                            gate.wait();
                            let mut l = make(d);
                            step(&mut o, &mut l, "expand", "");
                            o.push(',');
                            step(&mut o, &mut l, "generate", target);
                            end(l);
                            o.push(']');
                            o
                        }).unwrap()
                    }).collect();
                    hs.into_iter().map(|h| h.join().unwrap_or_else(|_| "[{\"ok\":false,\"cls\":\"panic\",\"msg\":\"thread\"}]".to_string())).collect()
                });
                o.push('['); o.push_str(&outs.join(",")); o.push(']');
            },
            other => match live[k] { Some(ref mut l) => step(o, l, other, op.gets("target")), None => o.push_str("null") },
        }
        o.push_str(",\"log\":"); log.put(o); o.push('}');
    }
    o.push(']');
    for l in live { if let Some(l) = l { end(l); } }
}

/// Every node, each before what it holds.
fn walk<'t, 'a>(t: &'t [ParseNode<'a>], out: &mut Vec<&'t ParseNode<'a>>) {
    for n in t {
        out.push(n);
        match n {
            ParseNode::List { nodes, .. } => walk(nodes, out),
            ParseNode::Attribute { node, .. } => walk(std::slice::from_ref(&**node), out),
            _ => (),
        }
    }
}

fn list(o: &mut String, items: impl IntoIterator<Item = String>) {
    o.push('[');
    for (i, s) in items.into_iter().enumerate() { if i > 0 { o.push(','); } o.push_str(&s); }
    o.push(']');
}

fn text(s: &str) -> String { let mut o = String::new(); esc(&mut o, s); o }

/// What the library says of each node of an expanded tree, which are equal, and what is found.
fn trees(o: &mut String, path: &str, src: &str, finds: &[J]) {
    use seam::parse::parser::{IntoValue, Node, SearchTree, SearchType};
    use std::hash::{Hash, Hasher, DefaultHasher};
    let b = seam::tree_builder(Some(path), src.to_string());
    let t = match b.expand() { Ok(ref t) => t.clone(), Err(e) => { failure(o, &*e); return; } };
    let mut all = vec![];
    walk(&t, &mut all);
    o.push_str("{\"ok\":true,\"tree\":"); tree(o, &t);
    let atom = |n: Option<&Node>| n.map_or("[]".to_string(), |n| format!("[{}]", text(&n.value)));
    o.push_str(",\"facts\":");
    list(o, all.iter().map(|n| {
        // Its white space changed, again and again.
        let mut other = (*n).clone();
        let mut changes = String::new();
        list(&mut changes, ["<\u{e9}>", "", " ", "\n", ""].iter().map(|w| {
            other.set_leading_whitespace(w.to_string());
            format!("[{},{},{}]", text(other.leading_whitespace()), text(&other.to_string()), other == **n)
        }));
        let yes: Vec<&str> = [("null", n.null()), ("symbolic", n.is_symbolic()), ("atomic", n.is_atomic()), ("symbol", n.is_symbol()), ("number", n.is_number()),
            ("string", n.is_string()), ("list", n.is_list()), ("attribute", n.is_attribute())].iter().filter(|x| x.1).map(|x| x.0).collect();
        macro_rules! ints { ($($t:ty),*) => { [$( { let v: Option<$t> = n.into_value(); v.map_or("[]".to_string(), |i| format!("[\"{}\"]", i)) } ),*] } }
        let int = { let mut s = String::new(); list(&mut s, ints!(i64, u64, i32, u32, isize, usize)); s };
        let float: Option<f64> = n.into_value();
        let word: Option<&str> = n.into_value();
        let mut p = String::new(); site(&mut p, n.site());
        let mut q = String::new(); site(&mut q, &n.owned_site());
        let boxed: Option<Box<[ParseNode]>> = (*n).clone().try_into().ok();
        let grown: Option<Vec<ParseNode>> = (*n).clone().try_into().ok();
        let whole: Option<Node> = (*n).clone().try_into().ok();
        format!("{{\"type\":{},\"yes\":{},\"atoms\":[{},{},{},{},{},{},{}],\"sizes\":[{},{},{}],\"kept\":{},\"attribute\":{},\"int\":{},\"float\":{},\"word\":{},\"p\":[{},{}],\"w\":{},\"shown\":{},\"other\":{}}}",
            text(n.node_type()), { let mut s = String::new(); list(&mut s, yes.iter().map(|y| text(y))); s },
            atom(n.symbolic()), atom(n.string()), atom(n.number()), atom(n.symbol()), atom(n.atomic()), atom((*n).clone().into_atomic().as_ref()), atom(whole.as_ref()),
            n.list().map_or(-1, |l| l.len() as i64), boxed.as_ref().map_or(-1, |l| l.len() as i64), grown.as_ref().map_or(-1, |l| l.len() as i64),
            n.list().map_or(true, |l| boxed.as_ref() == Some(l) && grown.as_ref().map(|g| &g[..]) == Some(&l[..])),
            n.attribute().map_or("[]".to_string(), |(k, v)| format!("[{},{}]", text(k), text(&v.to_string()))),
            int, float.is_some(), word.map_or("[]".to_string(), |w| format!("[{}]", text(w))),
            p, q, text(n.leading_whitespace()), text(&n.to_string()), changes)
    }));
    o.push_str(",\"same\":");
    list(o, all.iter().map(|a| { let mut s = String::new(); list(&mut s, all.iter().enumerate().filter(|(_, b)| a == *b).map(|(j, _)| (j + 1).to_string())); s }));
    let hash = |x: &dyn Fn(&mut DefaultHasher)| { let mut h = DefaultHasher::new(); x(&mut h); h.finish() };
    let hashes: Vec<u64> = all.iter().map(|a| hash(&|h| a.hash(h))).collect();
    o.push_str(",\"hash\":");
    list(o, hashes.iter().map(|h| (hashes.iter().position(|g| g == h).unwrap() + 1).to_string()));
    // As a list of its own, and after a copy.
    let copy = t.clone();
    o.push_str(&format!(",\"copy\":{}", copy == t && hash(&|h| copy.hash(h)) == hash(&|h| t.hash(h))));
    o.push_str(",\"found\":");
    list(o, finds.iter().map(|f| {
        let kind = match f.gets("kind") { "head" => SearchType::ListHead, "member" => SearchType::ListMember, "symbol" => SearchType::Symbol, "number" => SearchType::Number,
            "string" => SearchType::String, "attribute" => SearchType::Attribute, _ => SearchType::Any };
        let (any, level, from): (bool, usize, usize) = (f.gets("any") == "yes", f.gets("level").parse().unwrap_or(usize::MAX), f.gets("from").parse().unwrap());
        let hit = if from == 0 { t.search_node(kind, f.gets("value"), any, level) }
            else { match all.get(from - 1) { Some(n) => n.search_node(kind, f.gets("value"), any, level), None => None } };
        hit.map_or(0, |h| all.iter().position(|n| std::ptr::eq(*n, h)).map_or(-1, |i| i as i64 + 1)).to_string()
    }));
    o.push('}');
}

fn token(o: &mut String, t: &seam::parse::tokens::Token) {
    let k = match t.kind { Kind::LParen => "(", Kind::RParen => ")", Kind::Symbol => "y", Kind::String => "s", Kind::Number => "n", Kind::Keyword => "k" };
    o.push_str(&format!("{{\"t\":\"{}\",\"v\":", k)); esc(o, t.value);
    o.push_str(",\"w\":"); esc(o, t.leading_whitespace); o.push_str(",\"p\":"); site(o, &t.site); o.push('}');
}

fn taken(o: &mut String, l: &Lexer, peek: bool) -> bool {
    match if peek { l.peek() } else { l.consume() } {
        Ok(t) => { token(o, &t); true },
        Err(e) => { o.push_str("{\"err\":"); failure(o, &e); o.push('}'); false },
    }
}

/// Operations on lexers and their copies, until one has failed.
fn lexers(o: &mut String, path: &str, src: &str, ops: &[J]) {
    let mut ls = vec![Box::new(Lexer::new(path.to_string(), src.to_string()))];
    let mut at = 0;
    o.push('[');
    for (i, op) in ops.iter().enumerate() {
        if i > 0 { o.push(','); }
        let l = &*ls[at];
        let mut go = true;
        match op.gets("op") {
            "eof" => o.push_str(if l.eof() { "true" } else { "false" }),
            "source" => esc(o, l.get_source()),
            "peek" => if l.eof() { o.push_str("null") } else { taken(o, l, true); },
            "consume" => if l.eof() { o.push_str("null") } else { go = taken(o, l, false); },
            "restore" => {
                let k: usize = op.gets("k").parse().unwrap();
                let r = l.restore(|l| {
                    let mut r = vec![];
                    for _ in 0..k {
                        if l.eof() { break; }
                        let mut one = String::new();
                        let go = taken(&mut one, l, false);
                        r.push(one);
                        if !go { break; }
                    }
                    r
                });
                list(o, r);
            },
            "clone" => { o.push_str("null"); let c = ls[at].clone(); ls.push(c); },
            "switch" => { o.push_str("null"); at = op.gets("k").parse::<usize>().unwrap() % ls.len(); },
            _ => panic!("harness: op"),
        }
        if !go { break; }
    }
    o.push(']');
}

/// Expressions one at a time, from parsers and their copies, until one has failed.
fn parsers(o: &mut String, path: &str, src: &str, ops: &[J]) {
    let new = || Parser::new(Lexer::new(path.to_string(), src.to_string()));
    let total = { let p = new(); let r = p.parse().map_or(usize::MAX, |t| t.len()); r };
    let mut ps: Vec<(Box<Parser>, usize)> = vec![(Box::new(new()), 0)];
    let mut at = 0;
    o.push('[');
    for (i, op) in ops.iter().enumerate() {
        if i > 0 { o.push(','); }
        let mut go = true;
        match op.gets("op") {
            "source" => esc(o, ps[at].0.get_source()),
            "expr" => if ps[at].1 >= total { o.push_str("null") } else {
                ps[at].1 += 1;
                match ps[at].0.parse_expr() {
                    Ok(n) => { o.push_str("{\"ok\":true,\"tree\":["); node(o, &n); o.push_str("]}"); },
                    Err(e) => { failure(o, &*e); go = false; },
                }
            },
            "rest" => {
                match ps[at].0.parse() {
                    Ok(t) => { o.push_str("{\"ok\":true,\"tree\":"); tree(o, &t); o.push('}'); },
                    Err(e) => { failure(o, &*e); go = false; },
                }
                ps[at].1 = total;
            },
            "clone" => { o.push_str("null"); let c = ps[at].clone(); ps.push(c); },
            "switch" => { o.push_str("null"); at = op.gets("k").parse::<usize>().unwrap() % ps.len(); },
            _ => panic!("harness: op"),
        }
        if !go { break; }
    }
    o.push(']');
}

/// A stream that gives what it has in pieces; a piece may be an error instead.
struct Pieces<'j> { pieces: &'j [J], at: usize, off: usize }
impl<'j> Read for Pieces<'j> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        use std::io::{Error, ErrorKind};
        while let Some(p) = self.pieces.get(self.at) {
            match p.gets("kind") {
                "interrupted" => { self.at += 1; return Err(Error::new(ErrorKind::Interrupted, "interrupted")); },
                "broken" => return Err(Error::new(ErrorKind::Other, "broken")),
                _ => (),
            }
            let bytes: Vec<u8> = p.geta("bytes").iter().map(|b| b.str().parse().unwrap()).collect();
            if self.off >= bytes.len() { self.at += 1; self.off = 0; continue; }
            let n = buf.len().min(bytes.len() - self.off);
            buf[..n].copy_from_slice(&bytes[self.off..self.off + n]);
            self.off += n;
            return Ok(n);
        }
        Ok(0)
    }
}

fn fed<'a>(b: std::io::Result<seam::parse::expander::Expander<'a>>) -> String {
    let mut o = String::new();
    guarded(&mut o, |o| match b {
        Ok(b) => {
            let raw = Box::into_raw(Box::new(b));
            {
                let b: &'a seam::parse::expander::Expander<'a> = unsafe { &*raw };
                o.push_str("{\"read\":true,\"source\":"); esc(o, b.get_source()); o.push_str(",\"r\":");
                match b.expand() { Ok(ref t) => { o.push_str("{\"ok\":true,\"tree\":"); tree(o, t); o.push('}'); }, Err(ref e) => failure(o, &**e) };
                o.push('}');
            }
            drop(unsafe { Box::from_raw(raw) });
        },
        Err(ref e) => { o.push_str("{\"read\":false,\"why\":"); esc(o, &e.to_string()); o.push('}'); },
    });
    o
}

/// The same text as a stream, as a file, and as it is.
fn feeds(o: &mut String, pieces: &[J], file: &str) {
    let mut bytes = vec![];
    for p in pieces { for b in p.geta("bytes") { bytes.push(b.str().parse::<u8>().unwrap()); } }
    std::fs::write(file, &bytes).unwrap();
    let mut ends = vec![];
    macro_rules! put { ($b:expr) => { ends.push(fed($b)) } }
    let mut stream = Pieces { pieces, at: 0, off: 0 };
    put!(seam::tree_builder_stream(&mut stream));
    put!(seam::tree_builder_file(std::path::Path::new(file)));
    if let Ok(s) = String::from_utf8(bytes) {
        put!(Ok(seam::tree_builder(Option::<&str>::None, s.clone())));
        put!(Ok(seam::tree_builder(Some(file), s)));
        let p = seam::parse::parser_for_file(std::path::Path::new(file));
        if let Ok(p) = p { put!(Ok(seam::parse::expander::Expander::new(p))); }
    } else {
        put!(seam::parse::parser_for_file(std::path::Path::new(file)).map(seam::parse::expander::Expander::new).map_err(|e| std::io::Error::other(e.to_string())));
    }
    list(o, ends);
}

/// A place to write to that fails when it is full; or, if once, goes on after it has failed.
struct Short { room: usize, once: bool, has: String }
impl std::fmt::Write for Short {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for c in s.chars() {
            if self.room < c.len_utf16() { self.room = if self.once { usize::MAX } else { 0 }; return Err(std::fmt::Error); }
            self.room -= c.len_utf16();
            self.has.push(c);
        }
        Ok(())
    }
}

fn generated(o: &mut String, ok: bool, has: &str) { o.push_str(&format!("{{\"ok\":{},\"out\":", ok)); esc(o, has); o.push('}'); }

/// Every way to generate a tree in one format.
fn writers(o: &mut String, path: &str, src: &str, incs: &[J], fmts: &[J], rooms: &[J]) {
    use seam::assemble::*;
    // Display is for formatters that live for ever.
    let mut b: Box<seam::parse::expander::Expander<'static>> = Box::new(seam::tree_builder(Some(path), src.to_string()));
    b.add_includes(incs.iter().map(|i| i.str()));
    let raw = Box::into_raw(b);
    {
        let b: &'static seam::parse::expander::Expander<'static> = unsafe { &*raw };
        match b.expand() {
            Err(ref e) => failure(o, &**e),
            Ok(ref t) => {
                o.push_str("{\"ok\":true,\"tree\":"); tree(o, t); o.push_str(",\"ways\":{");
                for (i, target) in fmts.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    esc(o, target.str()); o.push(':');
                    guarded(o, |o| {
                        let f: Box<dyn MarkupFormatter> = match target.str() {
                            "text" => Box::new(text::PlainTextFormatter::new(t.clone())),
                            "sexp" => Box::new(sexp::SExpFormatter::new(t.clone())),
                            "html" => Box::new(html::HTMLFormatter::new(t.clone())),
                            "xml" => Box::new(xml::XMLFormatter::new(t.clone())),
                            "css" => Box::new(css::CSSFormatter::new(t.clone())),
                            _ => panic!("harness: target"),
                        };
                        let shown = |f: &Box<dyn MarkupFormatter>| { let mut o = String::new(); match f.display() { Ok(s) => generated(&mut o, true, &s), Err(e) => { o.push_str("{\"ok\":false,\"out\":\"\",\"p\":"); site(&mut o, &e.site); o.push('}'); } }; o };
                        let whole = |f: &Box<dyn MarkupFormatter>| { let mut o = String::new(); match f.document() { Ok(s) => generated(&mut o, true, &s), Err(e) => { o.push_str("{\"ok\":false,\"out\":\"\",\"p\":"); site(&mut o, &e.site); o.push('}'); } }; o };
                        o.push_str("{\"display\":"); o.push_str(&shown(&f));
                        o.push_str(",\"document\":"); o.push_str(&whole(&f));
                        o.push_str(",\"short\":");
                        list(o, rooms.iter().map(|r| {
                            let mut to = Short { room: r.str().trim_end_matches('!').parse().unwrap_or(usize::MAX), once: r.str().ends_with('!'), has: String::new() };
                            let ok = f.generate(&mut to).is_ok();
                            let mut o = String::new(); generated(&mut o, ok, &to.has); o
                        }));
                        let mut s = String::new();
                        let ok = std::fmt::write(&mut s, format_args!("{}", f)).is_ok();
                        o.push_str(",\"shown\":"); generated(o, ok, &s);
                        let g = f.clone();
                        o.push_str(",\"again\":"); list(o, [shown(&f), shown(&g), shown(&g.clone())]);
                        o.push_str(",\"whole\":"); list(o, [whole(&g), whole(&f)]);
                        drop(f);
                        o.push_str(",\"left\":"); o.push_str(&shown(&g)); o.push('}');
                    });
                }
                o.push_str("}}");
            },
        }
    }
    drop(unsafe { Box::from_raw(raw) });
}

/// Builders of one document, and what is done with them, piece by piece.  What they yield must stay as it is.
fn steps(o: &mut String, path: &str, src: &str, ops: &[J], log: &mut Log) {
    use seam::parse::expander::Expander;
    let parser = Box::into_raw(Box::new(Parser::new(Lexer::new(path.to_string(), src.to_string()))));
    {
        let forms: seam::parse::ParseTree<'static> = match unsafe { (*parser).parse() } {
            Ok(t) => t,
            Err(e) => { failure(o, &*e); return; },
        };
        let mut bs: Vec<*mut Expander<'static>> = vec![Box::into_raw(Box::new(seam::tree_builder(Some(path), src.to_string())))];
        let mut at = 0;
        let mut outs: Vec<(String, String, Option<(String, seam::parse::ParseTree<'static>)>)> = vec![];
        for op in ops {
            log.take();
            let b = bs[at];
            let ks: Vec<usize> = op.geta("ks").iter().map(|k| k.str().parse().unwrap()).collect();
            let mut said = String::new();
            let mut had = None;
            guarded(&mut said, |o| {
                let done: Result<seam::parse::ParseTree<'static>, Box<dyn Error>> = match op.gets("op") {
                    "node" => unsafe { (*b).expand_node(forms[ks[0]].clone()) }.map_err(|e| e.into()),
                    "nodes" => unsafe { (*b).expand_nodes(ks.iter().map(|k| forms[*k].clone()).collect()) }.map_err(|e| e.into()),
                    "all" => unsafe { (*b).expand() },
                    "include" => { unsafe { (*b).add_includes(op.geta("dirs").iter().map(|d| d.str())) }; Ok(Box::new([])) },
                    "clone" => { bs.push(Box::into_raw(Box::new(unsafe { (*b).clone() }))); Ok(Box::new([])) },
                    "switch" => { at = op.gets("k").parse().unwrap(); Ok(Box::new([])) },
                    "write" => {
                        let f = std::path::Path::new(op.gets("path"));
                        if let Some(d) = f.parent() { std::fs::create_dir_all(d).expect("harness: directory"); }
                        std::fs::write(f, op.gets("text")).expect("harness: file");
                        Ok(Box::new([]))
                    },
                    "remove" => { std::fs::remove_file(op.gets("path")).expect("harness: file"); Ok(Box::new([])) },
                    "drop" => {
                        let k: usize = op.gets("k").parse().unwrap();
                        drop(unsafe { Box::from_raw(std::mem::replace(&mut bs[k], std::ptr::null_mut())) });
                        Ok(Box::new([]))
                    },
                    _ => panic!("harness: op"),
                };
                match done {
                    Ok(t) => { let mut s = String::new(); tree(&mut s, &t); o.push_str("{\"ok\":true,\"tree\":"); o.push_str(&s); had = Some((s, t)); o.push_str(&format!(",\"source\":{}}}", unsafe { (*bs[at]).get_source() } == src)); },
                    Err(e) => failure(o, &*e),
                }
            });
            if op.gets("op") == "write" {           // how the file reads
                said.pop();
                said.push_str(",\"file\":");
                guarded(&mut said, |o| parse(o, op.gets("path"), op.gets("text")));
                said.push('}');
            }
            let mut logged = String::new(); log.put(&mut logged);
            outs.push((said, logged, had));
        }
        o.push_str("{\"ok\":true,\"tree\":"); tree(o, &forms); o.push_str(",\"outs\":");
        list(o, outs.iter().map(|(said, logged, had)| {
            let kept = match had { Some((s, t)) => { let mut now = String::new(); tree(&mut now, t); now == *s }, None => true };
            format!("{{\"r\":{},\"log\":{},\"kept\":{}}}", said, logged, kept)
        }));
        o.push('}');
        drop(outs);
        for b in bs { if !b.is_null() { drop(unsafe { Box::from_raw(b) }); } }
    }
    drop(unsafe { Box::from_raw(parser) });
}

fn end_of(n: &ParseNode) -> usize {
    match n {
        ParseNode::List { end_token, .. } => end_token.site.bytes_from_start + end_token.site.bytes_span,
        ParseNode::Attribute { node, .. } => end_of(node),
        n => n.site().bytes_from_start + n.site().bytes_span,
    }
}

fn run(c: &J, log: &mut Log) -> String {
    let mut o = String::from("{\"id\":"); esc(&mut o, c.gets("id"));
    let path = if c.gets("path").is_empty() { "<stdin>" } else { c.gets("path") };
    let src = c.gets("src");
    if let Some(J::Str(d)) = c.get("cwd") { std::env::set_current_dir(d).expect("harness: cwd"); }
    let incs = c.geta("incs").to_vec();
    let fmts = c.geta("fmt").to_vec();
    if !c.geta("files").is_empty() {
        o.push_str(",\"files\":{");
        for (i, f) in c.geta("files").iter().enumerate() {
            if i > 0 { o.push(','); }
            esc(&mut o, f.str()); o.push(':');
            match std::fs::read_to_string(f.str()) {
                Ok(text) => {
                    o.push_str("{\"text\":"); esc(&mut o, &text); o.push_str(",\"parse\":");
                    guarded(&mut o, |o| parse(o, f.str(), &text)); o.push('}');
                },
                Err(_) => o.push_str("false"),
            }
        }
        o.push('}');
    }
    if let Some(h) = c.get("history") { o.push_str(",\"history\":"); history(&mut o, h, log); }
    for w in c.geta("want") {
        o.push_str(",\""); o.push_str(w.str()); o.push_str("\":");
        log.take();
        match w.str() {
            "lex" => guarded(&mut o, |o| lex(o, path, src)),
            "parse" => guarded(&mut o, |o| parse(o, path, src)),
            "exp" => {
                o.push_str("{\"r\":");
                guarded(&mut o, |o| expand(o, path, src, &incs, &fmts, true));
                o.push_str(",\"log\":"); log.put(&mut o); o.push('}');
            },
            "fmt" => guarded(&mut o, |o| expand(o, path, src, &incs, &fmts, false)),
            "raw" => guarded(&mut o, |o| {  // Formatters on the tree as read, without expanding it.
                let p = Parser::new(Lexer::new(path.to_string(), src.to_string()));
                match p.parse() {
                    Ok(ref t) => {
                        o.push_str("{\"ok\":true,\"tree\":"); tree(o, t); o.push_str(",\"fmt\":{");
                        for (i, f) in fmts.iter().enumerate() {
                            if i > 0 { o.push(','); }
                            esc(o, f.str()); o.push(':');
                            guarded(o, |o| format_tree(o, f.str(), t.clone()));
                        }
                        o.push_str("}}");
                    },
                    Err(ref e) => failure(o, &**e),
                };
            }),
            "ses" => {
                // One run for each prefix of the top-level forms.
                let mut ends = vec![];
                guarded(&mut String::new(), |_| {
                    let p = Parser::new(Lexer::new(path.to_string(), src.to_string()));
                    if let Ok(t) = p.parse() { for n in t.iter() { ends.push(end_of(n)); } };
                });
                o.push('[');
                for (i, e) in ends.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    o.push_str("{\"r\":");
                    let text = if src.is_char_boundary(*e) { &src[..*e] } else { src };
                    guarded(&mut o, |o| expand(o, path, text, &incs, &[], true));
                    o.push_str(",\"log\":"); log.put(&mut o); o.push('}');
                }
                o.push(']');
            },
            "trees" => guarded(&mut o, |o| trees(o, path, src, c.geta("finds"))),
            "lexers" => guarded(&mut o, |o| lexers(o, path, src, c.geta("ops"))),
            "parsers" => guarded(&mut o, |o| parsers(o, path, src, c.geta("ops"))),
            "feeds" => guarded(&mut o, |o| feeds(o, c.geta("pieces"), c.gets("file"))),
            "steps" => guarded(&mut o, |o| steps(o, path, src, c.geta("ops"), log)),
            "writers" => guarded(&mut o, |o| writers(o, path, src, &incs, &fmts, c.geta("rooms"))),
            _ => panic!("harness: want"),
        }
    }
    o.push('}');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cases = std::fs::read_to_string(&args[1]).unwrap();
    let first: usize = args.get(3).map_or(0, |s| s.parse().unwrap());
    let mut out = std::fs::OpenOptions::new().create(true).append(true).open(&args[2]).unwrap();
    let err = std::fs::OpenOptions::new().create(true).truncate(true).read(true).write(true).open(format!("{}.err", args[2])).unwrap();
    use std::os::fd::AsRawFd;
    unsafe { dup2(err.as_raw_fd(), 2); }
    std::panic::set_hook(Box::new(|_| {}));
    let mut log = Log { file: err, at: 0 };
    let t = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        for (i, line) in cases.lines().enumerate().skip(first) {
            out.write_all(format!("@{}\n", i).as_bytes()).unwrap();
            let c = json::parse(line);
            let mut r = run(&c, &mut log);
            r.push('\n');
            out.write_all(r.as_bytes()).unwrap();
        }
    }).unwrap();
    t.join().unwrap();
}
