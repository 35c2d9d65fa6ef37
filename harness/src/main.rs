//! Executes conformance cases against the real papyri-lang crate. Reads one
//! JSON case per line on stdin and writes one JSON observation per line on
//! stdout. A panic in the code under test is an observation, not an error of
//! the harness.

use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;

use papyri_lang::compiler::{Context, HTML};
use papyri_lang::errors::{Diagnostics, PapyriError, ReportingLevel};
use papyri_lang::utils;
use serde_json::{json, Map, Value};

thread_local! {
    static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
}

fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v.get(k).and_then(Value::as_str).unwrap_or("")
}
fn b(v: &Value, k: &str) -> bool {
    v.get(k).and_then(Value::as_bool).unwrap_or(false)
}
fn n(v: &Value, k: &str) -> i64 {
    v.get(k).and_then(Value::as_i64).unwrap_or(0)
}

fn level(v: &Value) -> ReportingLevel {
    match s(v, "level") {
        "All" => ReportingLevel::All,
        "Error" => ReportingLevel::Error,
        "IgnoreAll" => ReportingLevel::IgnoreAll,
        _ => ReportingLevel::Warning,
    }
}

/// `TypeError(ExpectedWas(..))` -> `ExpectedWas`
fn kind(e: &PapyriError) -> (String, bool) {
    let d = format!("{e:?}");
    let mut parts = d.split(|c: char| !c.is_ascii_alphanumeric()).filter(|p| !p.is_empty());
    let group = parts.next().unwrap_or("").to_string();
    let k = parts.next().unwrap_or("").to_string();
    if group == "AlreadyReported" {
        return (group, false);
    }
    (k, group == "Warning")
}

fn parse_loc(line: &str) -> Value {
    // File "PATH", line L, col C[, in @f]
    let rest = line.trim_start().strip_prefix("File \"").unwrap_or("");
    let Some(q) = rest.rfind("\", line ") else { return json!({"bad": line}); };
    let file = &rest[..q];
    let tail = &rest[q + 8..];
    let mut it = tail.splitn(3, ", ");
    let l: i64 = it.next().unwrap_or("").parse().unwrap_or(-1);
    let c: i64 = it.next().unwrap_or("").trim_start_matches("col ").parse().unwrap_or(-1);
    let f = it.next().unwrap_or("").trim_start_matches("in ").to_string();
    json!({"file": file, "line": l, "col": c, "in": f})
}

fn diags(d: &Diagnostics) -> Value {
    let items: RefCell<Vec<(String, bool, String)>> = RefCell::new(Vec::new());
    d.has_any(|e| {
        let (k, w) = kind(e);
        items.borrow_mut().push((k, w, e.to_string()));
        false
    });
    let dbg = format!("{d:?}");
    let mut rest: &str = &dbg;
    let mut out = Vec::new();
    for (k, w, msg) in items.into_inner() {
        let mut locs = Vec::new();
        let mut tb = false;
        let head = "Traceback (most recent call last):\n";
        if let Some(r) = rest.strip_prefix(head) {
            tb = true;
            rest = r;
            while rest.starts_with("    File \"") && !rest.starts_with(&msg) {
                let e = rest.find('\n').unwrap_or(rest.len());
                locs.push(parse_loc(&rest[..e]));
                rest = &rest[(e + 1).min(rest.len())..];
            }
            rest = rest.strip_prefix(msg.as_str()).unwrap_or(rest);
            rest = rest.strip_prefix('\n').unwrap_or(rest);
        } else {
            rest = rest.strip_prefix(msg.as_str()).unwrap_or(rest);
            rest = rest.strip_prefix('\n').unwrap_or(rest);
            let e = rest.find('\n').unwrap_or(rest.len());
            locs.push(parse_loc(&rest[..e]));
            rest = &rest[(e + 1).min(rest.len())..];
        }
        out.push(json!({"k": k, "w": w, "tb": tb, "locs": locs, "msg": msg}));
    }
    json!(out)
}

fn render(ctx: &Context, h: &HTML, as_html: bool) -> String {
    let mut v = Vec::new();
    ctx.render(h, as_html, &mut v).unwrap();
    String::from_utf8(v).unwrap()
}

fn obs(ctx: &Context, out: &HTML, o: &mut Map<String, Value>, text: bool) {
    o.insert("out".into(), json!(render(ctx, out, true)));
    if text {
        o.insert("txt".into(), json!(render(ctx, out, false)));
    }
    o.insert("empty".into(), json!(out.is_empty()));
    o.insert("block".into(), json!(out.is_block()));
    o.insert("nf".into(), json!(normal_form(out)));
    diag_obs(&ctx.diagnostics, o);
}

fn diag_obs(d: &Diagnostics, o: &mut Map<String, Value>) {
    o.insert("errs".into(), json!(d.num_errors));
    o.insert("warns".into(), json!(d.num_warnings));
    o.insert("sum".into(), json!(d.summary()));
    o.insert("diags".into(), diags(d));
}

/// The documented normal form of HTML values, as far as the public enum shows it.
fn normal_form(h: &HTML) -> bool {
    match h {
        HTML::Sequence(seq) => {
            let istext = |x: &HTML| matches!(x, HTML::Text(_) | HTML::Whitespace | HTML::RawNewline);
            seq.len() >= 2
                && seq.iter().all(|c| !matches!(c, HTML::Empty | HTML::Sequence(_)) && normal_form(c))
                && seq.windows(2).all(|w| !(istext(&w[0]) && istext(&w[1])))
        }
        HTML::Text(t) => !matches!(t.as_ref(), "" | " " | "\n"),
        _ => true,
    }
}

/// With access to the network if the case says so; requests go to the proxy
/// that the environment names.
fn client(c: &Value) -> Option<reqwest::blocking::Client> {
    b(c, "http").then(|| reqwest::blocking::Client::builder().build().unwrap())
}

fn op_compile(c: &Value, o: &mut Map<String, Value>) {
    let mut ctx = Context::new(level(c), None, client(c));
    let name = c.get("name").and_then(Value::as_str).unwrap_or("<string>");
    let r = ctx.compile_synthetic(name, s(c, "src"));
    obs(&ctx, &r.out, o, b(c, "text"));
}

fn op_compile_str(c: &Value, o: &mut Map<String, Value>) {
    match papyri_lang::compile_str(s(c, "src")) {
        Ok(out) => {
            o.insert("ok".into(), json!(true));
            o.insert("out".into(), json!(out));
        }
        Err(d) => {
            o.insert("ok".into(), json!(false));
            diag_obs(&d, o);
        }
    }
}

/// A history of calls on one Context.
fn op_ctx(c: &Value, o: &mut Map<String, Value>) {
    let out_dir = c.get("outdir").and_then(Value::as_str).map(Path::new);
    let mut ctx = Context::new(level(c), out_dir, client(c));
    let mut steps = Vec::new();
    for st in c.get("steps").and_then(Value::as_array).cloned().unwrap_or_default() {
        let mut r = Map::new();
        match s(&st, "op") {
            "synth" => {
                let res = ctx.compile_synthetic(s(&st, "name"), s(&st, "src"));
                obs(&ctx, &res.out, &mut r, b(&st, "text"));
            }
            "load" => match ctx.load_uncached(Path::new(s(&st, "path"))) {
                Ok(res) => {
                    r.insert("ok".into(), json!(true));
                    obs(&ctx, &res.out, &mut r, b(&st, "text"));
                }
                Err(e) => {
                    r.insert("ok".into(), json!(false));
                    r.insert("k".into(), json!(kind(&e).0));
                    diag_obs(&ctx.diagnostics, &mut r);
                }
            },
            "cached" => match ctx.load_cached(Path::new(s(&st, "path")).to_path_buf()) {
                Ok((out, ex)) => {
                    r.insert("ok".into(), json!(true));
                    r.insert("nexports".into(), json!(ex.len()));
                    obs(&ctx, &out, &mut r, b(&st, "text"));
                }
                Err(e) => {
                    r.insert("ok".into(), json!(false));
                    r.insert("k".into(), json!(kind(&e).0));
                    diag_obs(&ctx.diagnostics, &mut r);
                }
            },
            "take" => {
                let files: Vec<(std::path::PathBuf, HTML)> = match ctx.out_files.as_mut() {
                    Some(f) => f.take_iter().collect(),
                    None => Vec::new(),
                };
                let v: Vec<Value> = files
                    .iter()
                    .map(|(p, h)| json!([p.to_string_lossy(), render(&ctx, h, true)]))
                    .collect();
                r.insert("files".into(), json!(v));
            }
            "reset" => {
                ctx.reset();
                diag_obs(&ctx.diagnostics, &mut r);
            }
            x => panic!("harness: bad step {x}"),
        }
        steps.push(Value::Object(r));
    }
    o.insert("steps".into(), json!(steps));
}

fn op_uid(c: &Value, o: &mut Map<String, Value>) {
    let mut g = utils::text::UniqueIDGenerator::new();
    let mut out = Vec::new();
    for call in c.get("calls").and_then(Value::as_array).cloned().unwrap_or_default() {
        if b(&call, "clear") {
            g.clear();
            out.push(json!(""));
        } else {
            let r = catch_unwind(AssertUnwindSafe(|| g.get_unique_id(s(&call, "base"), n(&call, "max") as usize)));
            match r {
                Ok(id) => out.push(json!(id.as_ref())),
                Err(_) => out.push(json!("!panic")),
            }
        }
    }
    o.insert("ids".into(), json!(out));
}

fn op_fn(c: &Value, o: &mut Map<String, Value>) {
    let x = s(c, "s");
    let r = match s(c, "f") {
        "make_identifier" => json!(utils::text::make_identifier(x, n(c, "n") as usize)),
        "is_identifier" => json!(utils::text::is_identifier(x)),
        "is_whitespace" => json!(utils::text::is_whitespace(x)),
        "looks_like_glob" => json!(utils::text::looks_like_glob(x)),
        "encode_entities" => json!(utils::text::encode_entities(x, b(c, "q"))),
        "fix_indentation" => json!(utils::text::fix_indentation(x)),
        "lang_hint" => {
            let (l, r) = utils::text::get_source_language_hint(x, s(c, "d"));
            json!([l, r])
        }
        "make_relative" => match utils::relpath::make_relative(Path::new(s(c, "base")), Path::new(x)) {
            Some(p) => json!({"ok": true, "p": p.to_string_lossy()}),
            None => json!({"ok": false, "p": ""}),
        },
        f => panic!("harness: bad fn {f}"),
    };
    o.insert("r".into(), r);
}

fn op_outfiles(c: &Value, o: &mut Map<String, Value>) {
    let mut of: utils::OutFiles<String> = utils::OutFiles::new(s(c, "base"));
    let mut res = Vec::new();
    for call in c.get("calls").and_then(Value::as_array).cloned().unwrap_or_default() {
        if b(&call, "take") {
            let v: Vec<Value> = of.take_iter().map(|(p, t)| json!([p.to_string_lossy(), t])).collect();
            res.push(json!({"files": v}));
        } else {
            let ok = of.try_push(s(&call, "path"), s(&call, "v").to_string());
            res.push(json!({"ok": ok, "empty": of.is_empty()}));
        }
    }
    o.insert("res".into(), json!(res));
}

fn html_of(v: &Value) -> HTML {
    match v {
        Value::String(t) => match t.as_str() {
            "" => HTML::Empty,
            " " => HTML::Whitespace,
            "\n" => HTML::RawNewline,
            _ => HTML::from(t.as_str()),
        },
        Value::Array(a) => a.iter().map(html_of).collect(),
        _ => HTML::Empty,
    }
}
fn shape(h: &HTML) -> Value {
    match h {
        HTML::Empty => json!({"k": "empty"}),
        HTML::Whitespace => json!({"k": "ws"}),
        HTML::RawNewline => json!({"k": "nl"}),
        HTML::Text(t) => json!({"k": "text", "s": t.as_ref()}),
        HTML::Tag(_) => json!({"k": "tag"}),
        HTML::Sequence(q) => json!({"k": "seq", "ch": q.iter().map(shape).collect::<Vec<_>>()}),
    }
}
fn op_html(c: &Value, o: &mut Map<String, Value>) {
    let h = html_of(&c["h"]);
    o.insert("shape".into(), shape(&h));
    o.insert("preds".into(), json!([h.is_empty(), h.is_block(), h.is_inline(), h.is_whitespace()]));
}

/// Facts about code in other languages, from the highlighting library itself:
/// the pieces of every line, each with its stack of scopes.
fn op_hl(c: &Value, o: &mut Map<String, Value>) {
    use syntect::easy::ScopeRangeIterator;
    use syntect::parsing::{ParseState, ScopeStack, SyntaxSet};
    thread_local! { static SET: SyntaxSet = SyntaxSet::load_defaults_nonewlines(); }
    SET.with(|set| {
        let mut facts = Vec::new();
        for q in c["q"].as_array().cloned().unwrap_or_default() {
            let (lang, src) = (q[0].as_str().unwrap(), q[1].as_str().unwrap());
            let Some(syntax) = set.find_syntax_by_token(lang) else {
                facts.push(json!({"lang": lang, "src": src, "known": false, "lines": []}));
                continue;
            };
            let mut state = ParseState::new(syntax);
            let mut stack = ScopeStack::new();
            let mut lines = Vec::new();
            for line in src.lines() {
                let mut toks = Vec::new();
                let r = state.parse_line(line, set);
                let ok = r.is_ok();
                if let Ok(ops) = r {
                    for (range, op) in ScopeRangeIterator::new(&ops, line) {
                        stack.apply(op).unwrap();
                        if range.is_empty() { continue; }
                        let sc: Vec<String> = stack.as_slice().iter().map(|x| x.build_string()).collect();
                        toks.push(json!({"s": &line[range], "sc": sc}));
                    }
                }
                lines.push(json!({"ok": ok, "s": line, "toks": toks}));
            }
            facts.push(json!({"lang": lang, "src": src, "known": true, "lines": lines}));
        }
        o.insert("hl".into(), json!(facts));
        if b(c, "list") {
            let mut names: Vec<String> = Vec::new();
            for x in set.syntaxes() {
                names.push(x.name.to_ascii_lowercase());
                names.extend(x.file_extensions.iter().map(|e| e.to_ascii_lowercase()));
            }
            names.sort();
            names.dedup();
            o.insert("names".into(), json!(names));
        }
    });
}

/// Facts about HTML source, from the parsing library itself.
fn dom_tree(node: &markup5ever_rcdom::Node) -> Value {
    use markup5ever_rcdom::NodeData;
    let mut tmpl = Vec::new();
    let ch = || node.children.borrow().iter().map(|x| dom_tree(x)).collect::<Vec<_>>();
    match &node.data {
        NodeData::Document => json!({"k": "doc", "s": "", "as": [], "ch": ch()}),
        NodeData::Text { contents } => json!({"k": "text", "s": contents.borrow().to_string(), "as": [], "ch": []}),
        NodeData::Element { name, attrs, template_contents, .. } => {
            if let Some(t) = template_contents.borrow().as_ref() {
                t.children.borrow().iter().for_each(|x| tmpl.push(dom_tree(x)));
            }
            let attrs: Vec<Value> = attrs.borrow().iter().map(|a| json!([a.name.local.as_ref(), a.value.as_ref()])).collect();
            let mut c = ch();
            c.append(&mut tmpl);
            json!({"k": "tag", "s": name.local.as_ref(), "as": attrs, "ch": c})
        }
        NodeData::Comment { .. } => json!({"k": "comment", "s": "", "as": [], "ch": []}),
        NodeData::Doctype { .. } => json!({"k": "doctype", "s": "", "as": [], "ch": []}),
        _ => json!({"k": "other", "s": "", "as": [], "ch": []}),
    }
}
fn op_dom(c: &Value, o: &mut Map<String, Value>) {
    use html5ever::tendril::TendrilSink;
    let mut facts = Vec::new();
    for q in c["q"].as_array().cloned().unwrap_or_default() {
        let src = q.as_str().unwrap();
        let dom = html5ever::parse_document(markup5ever_rcdom::RcDom::default(), Default::default())
            .from_utf8()
            .read_from(&mut src.as_bytes())
            .unwrap();
        let errs: Vec<&str> = dom.errors.iter().map(|e| e.as_ref()).collect();
        facts.push(json!({"src": src, "errs": errs, "tree": dom_tree(&dom.document)}));
    }
    o.insert("dom".into(), json!(facts));
}

fn run(c: &Value) -> Value {
    let mut o = Map::new();
    o.insert("id".into(), c.get("id").cloned().unwrap_or(json!(0)));
    if let Some(d) = c.get("cwd").and_then(Value::as_str) {
        std::env::set_current_dir(d).expect("harness: bad cwd");
    }
    let r = {
        let om = &mut o;
        catch_unwind(AssertUnwindSafe(|| match s(c, "op") {
            "compile" => op_compile(c, om),
            "compile_str" => op_compile_str(c, om),
            "ctx" => op_ctx(c, om),
            "uid" => op_uid(c, om),
            "fn" => op_fn(c, om),
            "outfiles" => op_outfiles(c, om),
            "html" => op_html(c, om),
            "hl" => op_hl(c, om),
            "dom" => op_dom(c, om),
            x => panic!("harness: bad op {x}"),
        }))
    };
    if r.is_ok() {
        o.insert("st".into(), json!("ok"));
    } else {
        o.insert("st".into(), json!("panic"));
        o.insert("panic".into(), json!(PANIC_MSG.with(|m| m.borrow().clone())));
    }
    Value::Object(o)
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(x) = i.payload().downcast_ref::<&str>() {
            x.to_string()
        } else if let Some(x) = i.payload().downcast_ref::<String>() {
            x.clone()
        } else {
            String::new()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{m} @ {loc}"));
    }));
    // The same stack size as a main thread on Linux, whatever the limit here.
    let t = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(|| {
            let stdin = std::io::stdin();
            let stdout = std::io::stdout();
            let mut w = std::io::BufWriter::new(stdout.lock());
            for line in stdin.lock().lines() {
                let line = line.unwrap();
                if line.trim().is_empty() {
                    continue;
                }
                let c: Value = serde_json::from_str(&line).expect("harness: bad case");
                let r = run(&c);
                writeln!(w, "{r}").unwrap();
                w.flush().unwrap();
            }
        })
        .unwrap();
    t.join().unwrap();
}
