use std::collections::BTreeSet;
use std::path::Path;

#[derive(Default, Clone, Debug)]
pub struct TypeItem {
    pub file: String,
    pub name: String,
    pub attrs: String,
    /// field name -> replacement type, or "-" to drop the field
    pub fields: Vec<(String, String)>,
    pub only: Option<Vec<String>>,
}
#[derive(Default, Clone, Debug)]
pub struct FnItem {
    pub file: String,
    /// type owning the method (None: free function)
    pub ty: Option<String>,
    pub tr: Option<String>,
    pub name: String,
    pub emit_name: Option<String>,
    pub impl_header: Option<String>,
    pub props: Vec<String>,
    pub mutself: bool,
    pub trusted: bool,
    pub noself: bool,
    pub eqs: bool,
    pub attrs: String,
    pub ret: String,
    pub generics: Option<String>,
    pub spec: String,
    pub loops: Vec<(usize, String)>,
    pub closures: Vec<(usize, String, String)>,
    pub hints: Vec<(String, String)>,
    pub sig: Option<String>,
    /// only the part of the function: "closure N" | "loop N"
    pub part: Option<String>,
    pub macros: Vec<(String, String)>,
    pub subs: Vec<(String, String)>,
}
impl FnItem {
    pub fn qual(&self) -> String {
        let n = self.emit_name.as_ref().unwrap_or(&self.name);
        match &self.ty {
            Some(t) => format!("{}::{}", t, n),
            None => n.clone(),
        }
    }
}
#[derive(Clone, Debug)]
pub enum Item {
    Raw(String),
    Type(TypeItem),
    Fn(FnItem),
    /// the macros of a file (R26)
    Macros(String),
    /// a use of them: file, name, properties, text
    Use(String, String, Vec<String>, String),
}
impl Item {
    pub fn file(&self) -> Option<&str> {
        match self {
            Item::Raw(_) => None,
            Item::Type(t) => Some(&t.file),
            Item::Fn(f) => Some(&f.file),
            Item::Macros(f) | Item::Use(f, ..) => Some(f),
        }
    }
}
#[derive(Default, Debug)]
pub struct Overlay {
    pub header: String,
    pub footer: String,
    pub items: Vec<Item>,
    pub features: BTreeSet<String>,
    pub refcells: Vec<String>,
    pub optlit: BTreeSet<String>,
    pub guards: BTreeSet<String>,
    pub types: Vec<(String, String)>,
    pub methods: Vec<(String, String)>,
    pub paths: Vec<(String, String)>,
    pub macros: Vec<(String, String)>,
    pub provides: BTreeSet<String>,
    pub nosub: bool,
}

fn split_kv(s: &str) -> Result<(String, String), String> {
    let p = s.find("=>").ok_or_else(|| format!("expected `a => b` in {:?}", s))?;
    Ok((s[..p].trim().to_string(), s[p + 2..].trim().to_string()))
}

impl Overlay {
    pub fn load(p: &Path) -> Result<Overlay, String> {
        let text = std::fs::read_to_string(p).map_err(|e| format!("{}: {}", p.display(), e))?;
        let mut ov = Overlay::default();
        for f in ["wrap", "history", "completion", "global"] {
            ov.features.insert(f.into());
        }
        let mut file = String::new();
        let mut ty: Option<String> = None;
        let mut tr: Option<String> = None;
        let mut impl_header: Option<String> = None;
        enum Sec {
            None,
            Raw,
            Header,
            Footer,
            Spec,
            Loop,
            Closure,
            Hint,
            Fields,
            Use,
        }
        let mut sec = Sec::None;
        for (ln, line) in text.lines().enumerate() {
            let err = |m: &str| format!("{}:{}: {}", p.display(), ln + 1, m);
            let tl = line.trim_start();
            if tl.starts_with("//@@") {
                continue;
            }
            if let Some(d) = tl.strip_prefix("//@") {
                let d = d.trim();
                let (cmd, rest) = match d.find(char::is_whitespace) {
                    Some(i) => (&d[..i], d[i..].trim()),
                    None => (d, ""),
                };
                macro_rules! cur {
                    () => {
                        match ov.items.last_mut() {
                            Some(Item::Fn(f)) => f,
                            _ => return Err(err("no current fn")),
                        }
                    };
                }
                match cmd {
                    "header" => sec = Sec::Header,
                    "footer" => sec = Sec::Footer,
                    "raw" => {
                        ov.items.push(Item::Raw(String::new()));
                        sec = Sec::Raw;
                    }
                    "include" => {
                        let q = p.parent().unwrap().join(rest);
                        let t = std::fs::read_to_string(&q).map_err(|e| format!("{}: {}", q.display(), e))?;
                        match sec {
                            Sec::Header => ov.header.push_str(&t),
                            Sec::Raw => {
                                if let Some(Item::Raw(r)) = ov.items.last_mut() {
                                    r.push_str(&t)
                                }
                            }
                            _ => return Err(err("include outside raw/header")),
                        }
                    }
                    "file" => file = rest.to_string(),
                    "features" => ov.features = rest.split_whitespace().map(|x| x.to_string()).collect(),
                    "refcell" => ov.refcells.push(rest.to_string()),
                    "typemap" => ov.types.push(split_kv(rest).map_err(|e| err(&e))?),
                    "method" => ov.methods.push(split_kv(rest).map_err(|e| err(&e))?),
                    "path" => ov.paths.push(split_kv(rest).map_err(|e| err(&e))?),
                    "macro" => ov.macros.push(split_kv(rest).map_err(|e| err(&e))?),
                    "provides" => {
                        for x in rest.split_whitespace() {
                            ov.provides.insert(x.to_string());
                        }
                    }
                    "nosub" => ov.nosub = true,
                    "guard" => {
                        for x in rest.split_whitespace() {
                            ov.guards.insert(x.to_string());
                        }
                    }
                    "optlit" => {
                        for x in rest.split_whitespace() {
                            ov.optlit.insert(x.to_string());
                        }
                    }
                    "type" => {
                        // //@type Name [attrs...]
                        let (n, a) = match rest.find(char::is_whitespace) {
                            Some(i) => (&rest[..i], rest[i..].trim()),
                            None => (rest, ""),
                        };
                        ov.items.push(Item::Type(TypeItem {
                            file: file.clone(),
                            name: n.to_string(),
                            attrs: a.to_string(),
                            ..Default::default()
                        }));
                        sec = Sec::Fields;
                    }
                    "impl" => {
                        // //@impl Type [for Trait] [: header]
                        let (l, h) = match rest.find(" : ") {
                            Some(i) => (rest[..i].trim(), Some(rest[i + 3..].trim().to_string())),
                            None => (rest, None),
                        };
                        let parts: Vec<&str> = l.split_whitespace().collect();
                        ty = Some(parts[0].to_string());
                        tr = if parts.len() >= 3 && parts[1] == "trait" { Some(parts[2].to_string()) } else { None };
                        impl_header = Some(h.unwrap_or_else(|| format!("impl {}", parts[0])));
                        sec = Sec::None;
                    }
                    "endimpl" => {
                        ty = None;
                        tr = None;
                        impl_header = None;
                        sec = Sec::None;
                    }
                    "fn" => {
                        let mut parts = rest.split_whitespace();
                        let name = parts.next().ok_or_else(|| err("fn name"))?;
                        let mut f = FnItem {
                            file: file.clone(),
                            ty: ty.clone(),
                            tr: tr.clone(),
                            name: name.to_string(),
                            impl_header: impl_header.clone(),
                            ret: "res".into(),
                            ..Default::default()
                        };
                        for o in parts {
                            if let Some(v) = o.strip_prefix("props=") {
                                f.props = v.split(',').map(|x| x.to_string()).collect();
                            } else if let Some(v) = o.strip_prefix("as=") {
                                f.emit_name = Some(v.to_string());
                            } else if let Some(v) = o.strip_prefix("ret=") {
                                f.ret = v.to_string();
                            } else if o == "mutself" {
                                f.mutself = true;
                            } else if o == "trusted" {
                                f.trusted = true;
                            } else if o == "eqs" {
                                f.eqs = true;
                            } else if o == "noself" {
                                f.noself = true;
                            } else if let Some(v) = o.strip_prefix("attr=") {
                                f.attrs.push_str(v);
                                f.attrs.push(' ');
                            } else {
                                return Err(err(&format!("unknown fn option {}", o)));
                            }
                        }
                        ov.items.push(Item::Fn(f));
                        sec = Sec::Spec;
                    }
                    "macros" => {
                        ov.items.push(Item::Macros(file.clone()));
                        sec = Sec::None;
                    }
                    "use" => {
                        let mut q = rest.split_whitespace();
                        let name = q.next().ok_or_else(|| err("use name"))?.to_string();
                        let props = q.next().and_then(|x| x.strip_prefix("props=")).unwrap_or("").split(',').map(|x| x.to_string()).collect();
                        ov.items.push(Item::Use(file.clone(), name, props, String::new()));
                        sec = Sec::Use;
                    }
                    "sig" => {
                        cur!().sig = Some(rest.to_string());
                    }
                    "part" => {
                        cur!().part = Some(rest.to_string());
                    }
                    "fnmacro" => {
                        let kv = split_kv(rest).map_err(|e| err(&e))?;
                        cur!().macros.push(kv);
                    }
                    "sub" => {
                        let kv = split_kv(rest).map_err(|e| err(&e))?;
                        cur!().subs.push(kv);
                    }
                    "generics" => {
                        cur!().generics = Some(rest.to_string());
                    }
                    "loop" => {
                        let n: usize = rest.parse().map_err(|_| err("loop number"))?;
                        cur!().loops.push((n, String::new()));
                        sec = Sec::Loop;
                    }
                    "closure" => {
                        let (n, h) = match rest.find(char::is_whitespace) {
                            Some(i) => (&rest[..i], rest[i..].trim()),
                            None => (rest, ""),
                        };
                        let n: usize = n.parse().map_err(|_| err("closure number"))?;
                        cur!().closures.push((n, h.to_string(), String::new()));
                        sec = Sec::Closure;
                    }
                    "hint" => {
                        cur!().hints.push((rest.to_string(), String::new()));
                        sec = Sec::Hint;
                    }
                    _ => return Err(err(&format!("unknown directive {}", cmd))),
                }
                continue;
            }
            let push = |s: &mut String| {
                s.push_str(line);
                s.push('\n');
            };
            match sec {
                Sec::None => {
                    if !line.trim().is_empty() {
                        return Err(err("text outside of a section"));
                    }
                }
                Sec::Header => push(&mut ov.header),
                Sec::Footer => push(&mut ov.footer),
                Sec::Raw => {
                    if let Some(Item::Raw(t)) = ov.items.last_mut() {
                        push(t)
                    }
                }
                Sec::Fields => {
                    if let Some(Item::Type(t)) = ov.items.last_mut() {
                        let l = line.trim();
                        if l.is_empty() {
                        } else if let Some(o) = l.strip_prefix("only:") {
                            t.only = Some(o.split_whitespace().map(|x| x.to_string()).collect());
                        } else {
                            let i = l.find(':').ok_or_else(|| err("field: type"))?;
                            t.fields.push((l[..i].trim().to_string(), l[i + 1..].trim().to_string()));
                        }
                    }
                }
                Sec::Spec => {
                    if let Some(Item::Fn(f)) = ov.items.last_mut() {
                        push(&mut f.spec)
                    }
                }
                Sec::Use => {
                    if let Some(Item::Use(_, _, _, t)) = ov.items.last_mut() {
                        push(t)
                    }
                }
                Sec::Loop => {
                    if let Some(Item::Fn(f)) = ov.items.last_mut() {
                        push(&mut f.loops.last_mut().unwrap().1)
                    }
                }
                Sec::Closure => {
                    if let Some(Item::Fn(f)) = ov.items.last_mut() {
                        push(&mut f.closures.last_mut().unwrap().2)
                    }
                }
                Sec::Hint => {
                    if let Some(Item::Fn(f)) = ov.items.last_mut() {
                        push(&mut f.hints.last_mut().unwrap().1)
                    }
                }
            }
        }
        Ok(ov)
    }
}
