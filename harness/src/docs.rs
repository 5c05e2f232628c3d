//! Edited JSON documents of the data types (D21).
use crate::json::{encode, infinite};
use crate::obs::*;
use crate::rng::Rng;
use crate::stable::{make, Any};
use crate::tree::tree;
use crate::gen::Cfg;
use crate::low::{file_tree, gen_file, gen_meshex, kinds, vary};
use serde_json::{json, Value};
use ssbh_lib::formats::{adj::Adj, meshex::MeshEx};
use ssbh_data::prelude::*;
use ssbh_data::SsbhData;
use std::io::Cursor;

#[derive(Clone)]
pub enum Step {
    Key(String),
    At(usize),
}
fn places(v: &Value, shape: &str, path: &mut Vec<Step>, out: &mut Vec<(String, Vec<Step>)>) {
    out.push((shape.to_string(), path.clone()));
    match v {
        Value::Object(o) => {
            for (k, x) in o {
                path.push(Step::Key(k.clone()));
                places(x, &format!("{shape}.{k}"), path, out);
                path.pop();
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                path.push(Step::At(i));
                places(x, &format!("{shape}[]"), path, out);
                path.pop();
            }
        }
        _ => {}
    }
}
fn at<'a>(v: &'a mut Value, path: &[Step]) -> &'a mut Value {
    path.iter().fold(v, |v, s| match s {
        Step::Key(k) => v.get_mut(k).unwrap(),
        Step::At(i) => v.get_mut(*i).unwrap(),
    })
}
/// Every kind of place with the same chance, whatever their numbers.
fn choose(r: &mut Rng, v: &mut Value, fits: impl Fn(&Value) -> bool) -> Option<Vec<Step>> {
    let mut all = vec![];
    places(v, "", &mut vec![], &mut all);
    all.retain(|x| fits(at(v, &x.1)));
    let mut shapes: Vec<&String> = all.iter().map(|x| &x.0).collect();
    shapes.sort();
    shapes.dedup();
    if shapes.is_empty() {
        return None;
    }
    let s = shapes[r.below(shapes.len())].clone();
    all.retain(|x| x.0 == s);
    Some(all.swap_remove(r.below(all.len())).1)
}
const NAMES: [&str; 14] = ["One", "Zero", "Two", "ClampToEdge", "Repeat", "Solid", "Line", "Back", "Disabled", "Transform", "Texture0", "CustomVector0", "Add", "LinearMipmapLinear"];
pub fn number(r: &mut Rng) -> Value {
    match r.below(24) {
        0 => json!(0), 1 => json!(1), 2 => json!(-1), 3 => json!(127), 4 => json!(128), 5 => json!(255), 6 => json!(256),
        7 => json!(32767), 8 => json!(32768), 9 => json!(-32768), 10 => json!(-32769), 11 => json!(65535), 12 => json!(65536),
        13 => json!(2147483647u32), 14 => json!(2147483648u32), 15 => json!(-2147483648i64), 16 => json!(-2147483649i64),
        17 => json!(4294967295u32), 18 => json!(4294967296u64), 19 => json!(i64::MIN), 20 => json!(i64::MAX as u64 + r.below(2) as u64), 21 => json!(u64::MAX),
        22 => json!(1.5), _ => json!(1000.0),
    }
}
fn kind(v: &Value) -> usize {
    match v {
        Value::Null => 0, Value::Bool(_) => 1, Value::Number(_) => 2, Value::String(_) => 3, Value::Array(_) => 4, Value::Object(_) => 5,
    }
}
pub fn edit(r: &mut Rng, doc: &mut Value, how: &str) {
    let object = |v: &Value| v.as_object().map_or(false, |o| !o.is_empty());
    match how {
        "drop" | "rename" => {
            // a field of an object
            let mut inner = vec![];
            places(doc, "", &mut vec![], &mut inner);
            inner.retain(|x| matches!(x.1.last(), Some(Step::Key(_))));
            let mut shapes: Vec<String> = inner.iter().map(|x| x.0.clone()).collect();
            shapes.sort();
            shapes.dedup();
            if shapes.is_empty() {
                return;
            }
            let s = shapes[r.below(shapes.len())].clone();
            inner.retain(|x| x.0 == s);
            let p = inner.swap_remove(r.below(inner.len())).1;
            let Some(Step::Key(k)) = p.last().cloned() else { return };
            let o = at(doc, &p[..p.len() - 1]).as_object_mut().unwrap();
            let x = o.remove(&k).unwrap();
            if how == "rename" {
                let k = match r.below(3) { 0 => k.to_uppercase(), 1 => format!("{k}_"), _ => k.replace('_', "") };
                o.insert(k, x);
            }
        }
        "add" => {
            if let Some(p) = choose(r, doc, object) {
                let x = match r.below(3) { 0 => json!(null), 1 => json!({"a": [1]}), _ => json!("x") };
                at(doc, &p).as_object_mut().unwrap().insert(["extra", "", "type", "unk99"][r.below(4)].into(), x);
            }
        }
        "empty" => {
            if let Some(p) = choose(r, doc, object) {
                *at(doc, &p) = json!({});
            }
        }
        "case" => {
            if let Some(p) = choose(r, doc, |v| v.is_string()) {
                let x = at(doc, &p);
                let s = x.as_str().unwrap();
                *x = json!(if r.chance(1, 2) { s.to_lowercase() } else { s.to_uppercase() });
            }
        }
        "letter" => {
            if let Some(p) = choose(r, doc, |v| v.is_string()) {
                let x = at(doc, &p);
                let mut s = x.as_str().unwrap().to_string();
                let mut n = r.below(s.len() + 1);
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.insert_str(n, *r.pick(&["\0", "g", "a", "F0", "\u{e9}", "\"", " "]));
                *x = json!(s);
            }
        }
        "more" | "less" => {
            if let Some(p) = choose(r, doc, |v| v.is_array()) {
                let a = at(doc, &p).as_array_mut().unwrap();
                if how == "less" {
                    let n = a.len();
                    if n > 0 {
                        a.remove(r.below(n));
                    }
                } else {
                    let x = a.last().cloned().unwrap_or(json!(0));
                    let n = a.len() + 1;
                    a.insert(r.below(n), x);
                }
            }
        }
        "number" => {
            if let Some(p) = choose(r, doc, |v| v.is_number()) {
                *at(doc, &p) = number(r);
            }
        }
        "name" => {
            if let Some(p) = choose(r, doc, |v| v.is_string()) {
                *at(doc, &p) = json!(*r.pick(&NAMES));
            }
        }
        "null" => {
            if let Some(p) = choose(r, doc, |_| true) {
                *at(doc, &p) = json!(null);
            }
        }
        "swap" => {
            if let Some(p) = choose(r, doc, |v| !v.is_object()) {
                let k = kind(at(doc, &p));
                if let Some(q) = choose(r, doc, |v| kind(v) == k) {
                    let x = at(doc, &q).clone();
                    *at(doc, &p) = x;
                }
            }
        }
        "wrong" => {
            if let Some(p) = choose(r, doc, |_| true) {
                let x = at(doc, &p);
                let was = kind(x);
                // what a list in the place of an object means is not specified
                let pool = [json!(null), json!(true), json!(0), json!(1.5), json!("x"), json!([]), json!({})];
                let fits: Vec<&Value> = pool.iter().filter(|y| kind(y) != was && !(was == 5 && kind(y) == 4)).collect();
                *x = (*r.pick(&fits)).clone();
            }
        }
        _ => panic!("edit {how}"),
    }
}
fn text(r: &mut Rng, s: &str) -> String {
    if r.chance(1, 4) {
        let u: String = s.encode_utf16().map(|x| format!("\\u{x:04x}")).collect();
        format!("\"{u}\"")
    } else {
        serde_json::to_string(s).unwrap()
    }
}
/// The document with fields in any order and any space between.
pub fn render(r: &mut Rng, v: &Value) -> String {
    let gap = |r: &mut Rng| *r.pick(&["", "", "", " ", "\n\t", "\r\n"]);
    match v {
        Value::Object(o) => {
            let mut keys: Vec<&String> = o.keys().collect();
            for i in (1..keys.len()).rev() {
                let j = r.below(i + 1);
                keys.swap(i, j);
            }
            let fields: Vec<String> = keys.iter().map(|k| format!("{}{}{}:{}{}{}", gap(r), text(r, k), gap(r), gap(r), render(r, &o[*k]), gap(r))).collect();
            format!("{{{}}}", fields.join(","))
        }
        Value::Array(a) => {
            let items: Vec<String> = a.iter().map(|x| format!("{}{}{}", gap(r), render(r, x), gap(r))).collect();
            format!("[{}]", items.join(","))
        }
        Value::String(s) => text(r, s),
        v => v.to_string(),
    }
}
fn parsed(v: &str) -> Value {
    serde_json::from_str(v).unwrap()
}
fn saved<D: SsbhData>(d: &D) -> Option<Vec<u8>> {
    let mut c = Cursor::new(vec![]);
    attempt(|| d.write(&mut c).map_err(|e| e.to_string())).ok()?;
    Some(c.into_inner())
}
fn one<D: SsbhData + serde::Serialize + serde::de::DeserializeOwned>(r: &mut Rng, kind: &str, d: &D, edits: &[Value]) -> Value {
    let mut doc = parsed(&serde_json::to_string(d).unwrap());
    for e in edits {
        edit(r, &mut doc, e.as_str().unwrap());
    }
    let mut t = render(r, &doc);
    let broken = edits.len() == 1 && r.chance(1, 6);
    if broken {
        if r.chance(1, 2) {
            t.push_str(["x", "{}", ",", "]", "null"][r.below(5)]);
        } else {
            let mut n = r.below(t.len());
            while !t.is_char_boundary(n) {
                n -= 1;
            }
            t.truncate(n);
        }
    } else if r.chance(1, 4) {
        t.push('\n');
    }
    let way = r.below(3);
    let got = attempt(|| match way {
        0 => serde_json::from_str::<D>(&t).map_err(|e| e.to_string()),
        1 => serde_json::from_slice::<D>(t.as_bytes()).map_err(|e| e.to_string()),
        _ => serde_json::from_reader::<_, D>(Cursor::new(&t)).map_err(|e| e.to_string()),
    });
    let mut bin = if edits.is_empty() { "same" } else { "edited" };
    let mut again = json!({"t": "null"});
    if let Ok(x) = &got {
        again = encode(&parsed(&serde_json::to_string(x).unwrap()));
        if edits.is_empty() && saved(d) != saved(x) {
            bin = "differs";
        }
    }
    let res = got.map_or_else(|e| e, |_| ok(json!(0)));
    json!({"op": "d21", "kind": kind, "doc": encode(&doc), "broken": broken, "bin": bin, "r": res, "again": again})
}
pub fn d21(out: &mut Out, r: &mut Rng, scen: &[Value], n: usize) {
    for i in 0..n {
        // a fifth as they are, two fifths with one edit, the rest with any of the edits
        let most = [0, 1, 1, 9, 9][i / 8 % 5];
        let fits: Vec<&Value> = scen.iter().filter(|s| s["edits"].as_array().unwrap().len() <= most).collect();
        let edits = fits[(i / 40) % fits.len()]["edits"].as_array().unwrap();
        let e = loop {
            let k = if r.chance(1, 4) { 3 } else { i % 8 };
            let x = make(r, k, &[2, 3]);
            let size = |t: String| t.len() < 12_000;
            macro_rules! on {
                ($d:expr, $k:expr) => {{
                    // a float that is no number has no place in JSON
                    if !size(serde_json::to_string($d).unwrap()) || infinite(&tree($d)) {
                        continue;
                    }
                    one(r, $k, $d, edits)
                }};
            }
            break match &x {
                Any::Mesh(d) => on!(d, "Mesh"),
                Any::Skel(d) => on!(d, "Skel"),
                Any::Anim(d) => on!(d, "Anim"),
                Any::Matl(d) => on!(d, "Matl"),
                Any::Modl(d) => on!(d, "Modl"),
                Any::Hlpb(d) => on!(d, "Hlpb"),
                Any::Adj(d) => on!(d, "Adj"),
                Any::MeshEx(d) => on!(d, "MeshEx"),
            };
        };
        out.emit(e);
    }
}

// ---- the documents of ssbh_lib_json (L12)
fn lib_doc(r: &mut Rng, dir: &std::path::Path, i: usize) -> Option<(String, Value)> {
    let ks = kinds();
    let c = Cfg { floats: 1, ..vary(r, i % 60 == 59) };
    let k = i % (ks.len() + 2);
    let written = |f: &dyn Fn(&mut Cursor<Vec<u8>>) -> std::io::Result<()>| -> Option<Vec<u8>> {
        let mut c = Cursor::new(vec![]);
        attempt(|| f(&mut c)).ok()?;
        Some(c.into_inner())
    };
    let (fmt, val, b) = if k < ks.len() {
        let f = gen_file(r, &c, ks[k]);
        let mut t = file_tree(&f);
        (t["fmt"].as_str().unwrap().to_string(), t["val"].take(), written(&|c| f.write(c))?)
    } else if k == ks.len() {
        let m: MeshEx = gen_meshex(r, &c);
        ("MeshEx".into(), tree(&m), written(&|c| m.write(c))?)
    } else {
        let a: Adj = crate::gen::gen(r, &c);
        ("Adj".into(), tree(&a), written(&|c| a.write(c))?)
    };
    if infinite(&val) {
        return None;
    }
    // the document is the one the tool makes
    let name = format!("m.{}", crate::json::ext(&fmt));
    std::fs::create_dir_all(dir).unwrap();
    std::fs::write(dir.join(&name), b).unwrap();
    crate::json::tool("lib", dir, false, &name, Some("doc"));
    let t = std::fs::read_to_string(dir.join("doc")).ok()?;
    if t.len() > 30_000 {
        return None;
    }
    Some((fmt, serde_json::from_str(&t).ok()?))
}
fn lib_one(r: &mut Rng, dir: &std::path::Path, i: usize, edits: &[Value]) -> Value {
    let (kind, mut doc) = loop {
        if let Some(x) = lib_doc(r, dir, i) {
            break x;
        }
    };
    for e in edits {
        edit(r, &mut doc, e.as_str().unwrap());
    }
    let mut t = render(r, &doc);
    let broken = edits.len() == 1 && r.chance(1, 10);
    if broken {
        t.push_str(["x", "{}", ",", "]", "null"][r.below(5)]);
    }
    std::fs::create_dir_all(dir).unwrap();
    std::fs::write(dir.join("m.json"), &t).unwrap();
    crate::json::tool("lib", dir, false, "m.json", Some("made"));
    let res = match std::fs::read(dir.join("made")) {
        Err(_) => json!({"k": "none"}),
        Ok(b) => {
            let mut c = Cursor::new(&b);
            match kind.as_str() {
                "MeshEx" => run(|| MeshEx::read(&mut c).map(|x| json!({"fmt": "MeshEx", "ver": "", "val": tree(&x)}))),
                "Adj" => run(|| Adj::read(&mut c).map(|x| json!({"fmt": "Adj", "ver": "", "val": tree(&x)}))),
                _ => run(|| ssbh_lib::SsbhFile::read(&mut c).map_err(|e| e.to_string()).map(|x| file_tree(&x))),
            }
        }
    };
    std::fs::remove_dir_all(dir).unwrap();
    json!({"op": "l12", "kind": kind, "doc": encode(&doc), "broken": broken, "r": res})
}
pub fn l12(out: &mut Out, r: &mut Rng, scen: &[Value], n: usize) {
    let root = std::env::current_dir().unwrap().join("docs");
    let _ = std::fs::remove_dir_all(&root);
    let seeds: Vec<u64> = (0..8).map(|_| r.next()).collect();
    let (root, seeds) = (&root, &seeds);
    let work = move |t: usize| -> Vec<Value> {
        let mut r = Rng::new(seeds[t], "L12");
        let mut events = vec![];
        for i in 0..n / 8 {
            let most = [0, 1, 1, 9][i % 4];
            let fits: Vec<&Value> = scen.iter().filter(|s| s["edits"].as_array().unwrap().len() <= most).collect();
            let edits = fits[r.below(fits.len())]["edits"].as_array().unwrap();
            events.push(lib_one(&mut r, &root.join(format!("t{t}")), i * 3 + t, edits));
        }
        events
    };
    let all: Vec<Vec<Value>> = std::thread::scope(|s| (0..8).map(|t| s.spawn(move || work(t))).collect::<Vec<_>>().into_iter().map(|h| h.join().unwrap()).collect());
    all.into_iter().flatten().for_each(|e| out.emit(e));
    let _ = std::fs::remove_dir_all(root);
}
