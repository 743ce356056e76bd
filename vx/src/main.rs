//! vx: extracts functions and types of the crate under verification from
//! their current source text, applies numbered mechanical rewrite rules, and
//! splices the contracts of an overlay into them.  See /verif/DESIGN.md.
//!
//! usage: vx OVERLAY REPO OUT.rs OUT.json [--baseline FILE] [--write-baseline FILE] [--trust FN]*
mod overlay;
mod passes;

use overlay::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

#[derive(Default, Clone)]
pub struct FnReport {
    pub name: String,
    pub file: String,
    pub src_line: usize,
    pub out_start: usize,
    pub out_end: usize,
    pub props: Vec<String>,
    pub lost: Vec<String>,
    pub skeleton_changed: bool,
    pub renamed: bool,
    pub missing: bool,
    pub trusted: bool,
    pub rules: BTreeMap<String, usize>,
    pub loops: Vec<String>,
    pub locals: Vec<String>,
    pub inlined: Vec<String>,
    pub calls: Vec<String>,
    pub src_lines: usize,
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jlist(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","))
}

fn main() {
    if let Err(e) = run() {
        eprintln!("vx: {}", e);
        std::process::exit(2);
    }
}

fn run() -> Result<(), String> {
    let args: Vec<String> = std::env::args().collect();
    if args.len() >= 3 && args[1] == "--items" {
        // list fns of a file
        let sf = passes::SourceFile::load(Path::new(&args[2]))?;
        for n in sf.list() {
            println!("{}", n);
        }
        return Ok(());
    }
    if args.len() >= 5 && args[1] == "--structexpr" {
        // vx --structexpr FILE FN TYPE : print the struct expression building TYPE in FN
        let sf = passes::SourceFile::load(Path::new(&args[2]))?;
        println!("{}", sf.struct_expr(&args[3], &args[4])?);
        return Ok(());
    }
    let overlay_path = Path::new(&args[1]);
    let repo = Path::new(&args[2]);
    let out_rs = &args[3];
    let out_json = &args[4];
    let mut baseline: BTreeMap<String, (Vec<String>, Vec<String>)> = BTreeMap::new();
    let mut write_baseline = None;
    let mut trust: BTreeSet<String> = BTreeSet::new();
    let mut i = 5;
    while i < args.len() {
        match args[i].as_str() {
            "--baseline" => {
                if let Ok(t) = std::fs::read_to_string(&args[i + 1]) {
                    for l in t.lines() {
                        let p: Vec<&str> = l.split('\t').collect();
                        if p.len() == 3 {
                            let sp = |s: &str| -> Vec<String> {
                                s.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()
                            };
                            baseline.insert(p[0].to_string(), (sp(p[1]), sp(p[2])));
                        }
                    }
                }
                i += 2;
            }
            "--write-baseline" => {
                write_baseline = Some(args[i + 1].clone());
                i += 2;
            }
            "--trust" => {
                trust.insert(args[i + 1].clone());
                i += 2;
            }
            x => return Err(format!("unknown argument {}", x)),
        }
    }
    let ov = Overlay::load(overlay_path)?;
    let mut files: BTreeMap<String, passes::SourceFile> = BTreeMap::new();
    for it in &ov.items {
        if let Some(f) = it.file() {
            if !files.contains_key(f) {
                files.insert(f.to_string(), passes::SourceFile::load(&repo.join(f))?);
            }
        }
    }
    let contracted: BTreeSet<String> = ov
        .items
        .iter()
        .filter_map(|i| if let Item::Fn(f) = i { Some(f.qual()) } else { None })
        .collect();
    let mut out = String::new();
    out.push_str(&ov.header);
    let mut reports: Vec<FnReport> = vec![];
    let mut notes: Vec<String> = vec![];
    let mut cur_impl: Option<String> = None;
    let mut used_consts: BTreeSet<(String, String)> = BTreeSet::new();
    let close = |out: &mut String, cur: &mut Option<String>| {
        if cur.is_some() {
            out.push_str("}\n");
            *cur = None;
        }
    };
    for it in &ov.items {
        match it {
            Item::Raw(t) => {
                close(&mut out, &mut cur_impl);
                out.push_str(t);
            }
            Item::Type(t) => {
                close(&mut out, &mut cur_impl);
                let sf = &files[&t.file];
                match passes::extract_type(sf, t, &ov) {
                    Ok(text) => out.push_str(&text),
                    Err(e) => return Err(format!("type {}: {}", t.name, e)),
                }
            }
            Item::Macros(f) => {
                close(&mut out, &mut cur_impl);
                out.push_str(&passes::extract_macros(&files[f], &ov));
            }
            Item::Use(f, name, props, text) => {
                close(&mut out, &mut cur_impl);
                let mut rep = FnReport { name: name.clone(), file: f.clone(), props: props.clone(), ..Default::default() };
                rep.trusted = trust.contains(name);
                rep.src_line = passes::macros_line(&files[f]);
                rep.rules.insert("R26-macros".into(), 1);
                let text = if rep.trusted {
                    let i = text.find("\n{").unwrap_or(text.len());
                    format!("#[verifier::external_body]\n{}\n{{ unimplemented!() }}\n", &text[..i])
                } else {
                    text.clone()
                };
                rep.out_start = out.lines().count() + 1;
                out.push_str(&text);
                rep.out_end = out.lines().count();
                reports.push(rep);
            }
            Item::Fn(f) => {
                let sf = &files[&f.file];
                let mut rep = FnReport {
                    name: f.qual(),
                    file: f.file.clone(),
                    props: f.props.clone(),
                    ..Default::default()
                };
                let hdr = f.impl_header.clone();
                if cur_impl != hdr {
                    close(&mut out, &mut cur_impl);
                    if let Some(h) = &hdr {
                        out.push_str(h);
                        out.push_str(" {\n");
                        cur_impl = Some(h.clone());
                    }
                }
                let trusted = trust.contains(&f.qual()) || f.trusted;
                let base = baseline.get(&f.qual());
                match passes::extract_fn(sf, f, &ov, &contracted, base, trusted, &mut rep) {
                    Ok(text) => {
                        rep.trusted = trusted;
                        rep.out_start = out.lines().count() + 1;
                        out.push_str(&text);
                        if !text.ends_with('\n') {
                            out.push('\n');
                        }
                        rep.out_end = out.lines().count();
                        for c in sf.consts_used(&text) {
                            used_consts.insert((f.file.clone(), c));
                        }
                    }
                    Err(e) => {
                        rep.missing = true;
                        rep.lost.push(e);
                    }
                }
                reports.push(rep);
            }
        }
    }
    close(&mut out, &mut cur_impl);
    let declared: BTreeSet<String> = ov
        .items
        .iter()
        .filter_map(|i| if let Item::Type(t) = i { Some(t.name.clone()) } else { None })
        .collect();
    for (f, c) in &used_consts {
        if declared.contains(c) || ov.provides.contains(c) {
            continue;
        }
        let t = TypeItem { file: f.clone(), name: c.clone(), ..Default::default() };
        match passes::extract_type(&files[f], &t, &ov) {
            Ok(text) => out.push_str(&text),
            Err(e) => notes.push(format!("const {}: {}", c, e)),
        }
    }
    out.push_str(&ov.footer);
    std::fs::write(out_rs, &out).map_err(|e| e.to_string())?;
    // property tags per line
    let mut tags = vec![];
    for (n, l) in out.lines().enumerate() {
        if let Some(p) = l.find("//# ") {
            tags.push(format!("{}:{}", jstr(&(n + 1).to_string()), jstr(l[p + 4..].trim())));
        }
    }
    let mut js = String::from("{\n\"fns\":[\n");
    for (n, r) in reports.iter().enumerate() {
        let rules = r
            .rules
            .iter()
            .map(|(k, v)| format!("{}:{}", jstr(k), v))
            .collect::<Vec<_>>()
            .join(",");
        js.push_str(&format!(
            "{{\"name\":{},\"file\":{},\"src_line\":{},\"src_lines\":{},\"out_start\":{},\"out_end\":{},\"props\":{},\"lost\":{},\"skeleton_changed\":{},\"renamed\":{},\"missing\":{},\"trusted\":{},\"rules\":{{{}}},\"loops\":{},\"inlined\":{},\"calls\":{}}}{}\n",
            jstr(&r.name), jstr(&r.file), r.src_line, r.src_lines, r.out_start, r.out_end,
            jlist(&r.props), jlist(&r.lost), r.skeleton_changed, r.renamed, r.missing, r.trusted, rules,
            jlist(&r.loops), jlist(&r.inlined), jlist(&r.calls),
            if n + 1 == reports.len() { "" } else { "," }
        ));
    }
    js.push_str(&format!("],\n\"tags\":{{{}}},\n\"notes\":{}\n}}\n", tags.join(","), jlist(&notes)));
    std::fs::write(out_json, js).map_err(|e| e.to_string())?;
    if let Some(w) = write_baseline {
        let mut t = String::new();
        for r in &reports {
            t.push_str(&format!("{}\t{}\t{}\n", r.name, r.loops.join(","), r.locals.join(",")));
        }
        std::fs::write(w, t).map_err(|e| e.to_string())?;
    }
    Ok(())
}
