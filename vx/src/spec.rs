use std::collections::HashMap;
use std::path::Path;

#[derive(Default, Debug, Clone)]
pub struct LoopSpec {
    pub clauses: String, // raw text: invariant ... ensures ... decreases ...
    pub start: String,
    pub end: String,
    pub after: String,
    pub before: String,
}
#[derive(Default, Debug, Clone)]
pub struct FnSpec {
    pub key: String,
    pub opts: HashMap<String, String>,
    pub requires: String,
    pub ensures: String,
    pub decreases: String,
    pub start: String,
    pub attr: String,
    pub locals: Vec<String>,
    pub loops: HashMap<usize, LoopSpec>,
    pub rewrites: Vec<(String, String)>,
    pub hints: Vec<(String, bool, String)>, // (anchor text, before?, text)
}
#[derive(Default, Debug)]
pub struct FileSpec {
    pub path: String,
    pub all: bool,
    pub optional: bool,
    pub flags: Vec<String>,
    pub take: Vec<String>,
    pub skip: Vec<String>,
    pub derives: HashMap<String, String>,
    pub implextra: HashMap<String, String>,
    pub fns: HashMap<String, FnSpec>,
}
#[derive(Default, Debug)]
pub struct Unit {
    pub outside: String,
    pub prelude: String,
    pub postlude: String,
    pub modprelude: String,
    pub files: Vec<FileSpec>,
    pub defaults: HashMap<String, (String, String)>, // "Type mut" -> (requires, ensures)
    pub default_loop: HashMap<String, String>,       // "Type" -> invariant text for unspecified loops
    pub props: String,
}

fn read_with_includes(p: &Path) -> Vec<String> {
    let mut v = vec![];
    for l in std::fs::read_to_string(p).unwrap_or_else(|e| panic!("{:?}: {}", p, e)).lines() {
        if let Some(inc) = l.strip_prefix("@include ") {
            v.extend(read_with_includes(&p.parent().unwrap().join(inc.trim())));
        } else if let Some(inc) = l.strip_prefix("@import ") {
            v.push("@importbegin".into());
            v.extend(read_with_includes(&p.parent().unwrap().join(inc.trim())));
            v.push("@importend".into());
        } else {
            v.push(l.to_string());
        }
    }
    v
}
/// contracts proved in another unit: its lemmas are taken over, and what it marks hidden is opaque here
fn imported_text(t: String) -> String {
    t.replace("/*hidden*/ ", "#[verifier::opaque] ").lines().map(|l| {
        if l.starts_with("proof fn ") || l.starts_with("pub proof fn ") { format!("#[verifier::external_body]\n{l}\n") } else { format!("{l}\n") }
    }).collect()
}

pub fn parse(p: &Path) -> Unit {
    let lines = read_with_includes(p);
    let mut u = Unit::default();
    let mut i = 0;
    let mut curfn: Option<String> = None;
    let mut importing = false;
    let mut curloop: Option<usize> = None;
    // collects raw lines until next line starting with '@'
    let raw = |i: &mut usize| -> String {
        let mut s = String::new();
        while *i < lines.len() && !lines[*i].starts_with('@') {
            s.push_str(&lines[*i]);
            s.push('\n');
            *i += 1;
        }
        s
    };
    while i < lines.len() {
        let l = lines[i].clone();
        i += 1;
        if !l.starts_with('@') {
            if l.trim().is_empty() || l.trim_start().starts_with("//") {
                continue;
            }
            panic!("spec: stray line {}: {}", i, l);
        }
        let (d, rest) = match l.find(' ') {
            Some(n) => (l[..n].to_string(), l[n + 1..].trim().to_string()),
            None => (l.clone(), String::new()),
        };
        macro_rules! f { () => { u.files.last_mut().unwrap() } }
        macro_rules! cf { () => { { let k = curfn.clone().expect("no fn"); f!().fns.get_mut(&k).unwrap() } } }
        match d.as_str() {
            "@end" => {}
            "@importbegin" => importing = true,
            "@importend" => importing = false,
            "@props" => u.props = rest,
            "@outside" => { let t = raw(&mut i); u.outside.push_str(&t) }
            "@prelude" => { let t = raw(&mut i); u.prelude.push_str(&if importing { imported_text(t) } else { t }) }
            "@modprelude" => { let t = raw(&mut i); u.modprelude.push_str(&t) }
            "@postlude" => { let t = raw(&mut i); u.postlude.push_str(&t) }
            "@default" => {
                let t = raw(&mut i);
                let mut req = String::new();
                let mut ens = String::new();
                let mut mode = 0;
                for l in t.lines() {
                    match l.trim() { "requires" => mode = 1, "ensures" => mode = 2, x => {
                        if mode == 1 { req.push_str(x); req.push('\n') } else if mode == 2 { ens.push_str(x); ens.push('\n') }
                    } }
                }
                u.defaults.insert(rest, (req, ens));
            }
            "@defaultloop" => { let t = raw(&mut i); u.default_loop.insert(rest, t); }
            "@file" => {
                let mut it = rest.split_whitespace();
                let path = it.next().unwrap().to_string();
                let mut flags: Vec<String> = it.map(|s| s.to_string()).collect();
                if importing { flags.push("imported".into()); }
                u.files.push(FileSpec { path, all: flags.iter().any(|x| x == "all"), optional: flags.iter().any(|x| x == "optional"), flags, ..Default::default() });
                curfn = None;
                curloop = None;
            }
            "@take" => f!().take.extend(rest.split_whitespace().map(|s| s.to_string())),
            "@skip" => f!().skip.extend(rest.split_whitespace().map(|s| s.to_string())),
            "@derive" => {
                let (n, dv) = rest.split_once(' ').unwrap();
                f!().derives.insert(n.to_string(), dv.to_string());
            }
            "@implextra" => { let t = raw(&mut i); f!().implextra.insert(rest, t); }
            "@fn" => {
                let mut it = rest.split_whitespace();
                let key = it.next().unwrap().to_string();
                let mut fs = FnSpec { key: key.clone(), ..Default::default() };
                for o in it {
                    match o.split_once('=') {
                        Some((a, b)) => { fs.opts.insert(a.into(), b.into()); }
                        None => { fs.opts.insert(o.into(), "1".into()); }
                    }
                }
                f!().fns.insert(key.clone(), fs);
                curfn = Some(key);
                curloop = None;
            }
            "@requires" => { let t = raw(&mut i); cf!().requires.push_str(&t); curloop = None; }
            "@ensures" => { let t = raw(&mut i); cf!().ensures.push_str(&t); curloop = None; }
            "@decreases" => { let t = raw(&mut i); cf!().decreases.push_str(&t); }
            "@start" => { let t = raw(&mut i); match curloop { Some(n) => cf!().loops.get_mut(&n).unwrap().start.push_str(&t), None => cf!().start.push_str(&t) } }
            "@loopend" => { let t = raw(&mut i); let n = curloop.unwrap(); cf!().loops.get_mut(&n).unwrap().end.push_str(&t) }
            "@after" => { let t = raw(&mut i); let n = curloop.unwrap(); cf!().loops.get_mut(&n).unwrap().after.push_str(&t) }
            "@before" => { let t = raw(&mut i); let n = curloop.unwrap(); cf!().loops.get_mut(&n).unwrap().before.push_str(&t) }
            "@fnstart" => { let t = raw(&mut i); cf!().start.push_str(&t) }
            "@attr" => { let t = raw(&mut i); cf!().attr.push_str(&format!("{}\n{}", rest, t)) }
            "@locals" => cf!().locals = rest.split_whitespace().map(|s| s.to_string()).collect(),
            "@loop" => {
                let n: usize = rest.parse().unwrap();
                let t = raw(&mut i);
                cf!().loops.entry(n).or_default().clauses.push_str(&t);
                curloop = Some(n);
            }
            "@hint" => {
                // @hint before|after <anchor text up to end of line>
                let (pos, anchor) = rest.split_once(' ').unwrap();
                let t = raw(&mut i);
                cf!().hints.push((anchor.to_string(), pos == "before", t));
            }
            "@rewrite" => {
                let (a, b) = rest.split_once(" ==> ").expect("rewrite a ==> b");
                cf!().rewrites.push((a.to_string(), b.to_string()));
            }
            x => panic!("spec: unknown directive {} at {}", x, i),
        }
    }
    u
}
