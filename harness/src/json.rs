//! The command line tools (L09).
use crate::gen::Cfg;
use crate::low::{file_tree, gen_file, gen_meshex, kinds, vary};
use crate::obs::*;
use crate::rng::Rng;
use crate::stable::{make, Any};
use crate::tree::{bytes, tree};
use serde_json::{json, Map, Value};
use ssbh_data::prelude::*;
use ssbh_data::SsbhData;
use ssbh_lib::formats::{adj::Adj, meshex::MeshEx};
use std::collections::{BTreeMap, HashMap};
use std::io::Cursor;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

const EXT: [(&str, &str); 12] = [
    ("Hlpb", "nuhlpb"), ("Matl", "numatb"), ("Modl", "numdlb"), ("Mesh", "numshb"), ("Skel", "nusktb"), ("Anim", "nuanmb"),
    ("Nlst", "nulstb"), ("Nrpd", "nurpdb"), ("Nufx", "nufxlb"), ("Shdr", "nushdb"), ("MeshEx", "numshexb"), ("Adj", "adjb"),
];
pub fn ext(fmt: &str) -> &'static str {
    EXT.iter().find(|x| x.0 == fmt).unwrap().1
}
pub fn tool(name: &str, dir: &Path, absolute: bool, input: &str, output: Option<&str>) -> i32 {
    let cli = std::env::var("VERIF_CLI").expect("VERIF_CLI");
    let p = |x: &str| if absolute { dir.join(x) } else { PathBuf::from(x) };
    let mut c = Command::new(format!("{cli}/ssbh_{name}_json"));
    c.arg(p(input));
    if let Some(o) = output {
        c.arg(p(o));
    }
    c.current_dir(dir).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    c.status().expect("tool").code().unwrap_or(-1)
}
/// JSON in the form of Convert.tla.
pub fn encode(v: &Value) -> Value {
    match v {
        Value::Null => json!({"t": "null"}),
        Value::Bool(b) => json!({"t": "bool", "v": b}),
        Value::Number(n) => {
            let i = n.as_u64().map(|x| x.to_le_bytes()).or(n.as_i64().map(|x| x.to_le_bytes())).map_or(json!([]), |x| bytes(&x));
            let f = n.to_string().parse::<f32>().map_or(json!([]), |x| bytes(&x.to_le_bytes()));
            json!({"t": "n", "i": i, "f": f, "neg": n.as_i64().map_or(false, |x| x < 0)})
        }
        Value::String(s) => {
            // variants of enumerations are compared by name
            let plain = s.len() < 40 && s.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_');
            json!({"t": "s", "v": bytes(s.as_bytes()), "name": if plain { s.as_str() } else { "" }})
        }
        Value::Array(a) => json!({"t": "a", "v": a.iter().map(encode).collect::<Vec<_>>()}),
        Value::Object(o) => json!({"t": "o", "v": o.iter().map(|(k, v)| (k.clone(), encode(v))).collect::<Map<_, _>>()}),
    }
}
fn nested_null(t: &Value) -> bool {
    t["animation_file_name"] == json!([[]])
}
fn written(f: impl FnOnce(&mut Cursor<Vec<u8>>) -> std::io::Result<()>) -> Option<Vec<u8>> {
    let mut c = Cursor::new(vec![]);
    attempt(|| f(&mut c).map_err(|e| e.to_string())).ok()?;
    Some(c.into_inner())
}

// ---- one value: to JSON and back
fn shown(r: &mut Rng, dir: &Path, i: usize) -> Option<Value> {
    let ks = kinds();
    let c = Cfg { floats: 1, ..vary(r, i % 60 == 59) };
    let k = i % (ks.len() + 2);
    let (fmt, ver, val, b) = if k < ks.len() {
        let mut f = gen_file(r, &c, ks[k]);
        // the known finding, in every run
        while i < ks.len() && crate::low::FMTS[ks[k].0].0 == "Modl" && !nested_null(&file_tree(&f)["val"]) {
            let c = Cfg { floats: 1, ..vary(r, false) };
            f = gen_file(r, &c, ks[k]);
        }
        let t = file_tree(&f);
        (t["fmt"].as_str().unwrap().to_string(), t["ver"].as_str().unwrap().to_string(), t["val"].clone(), written(|c| f.write(c))?)
    } else if k == ks.len() {
        let m: MeshEx = gen_meshex(r, &c);
        ("MeshEx".into(), String::new(), tree(&m), written(|c| m.write(c))?)
    } else {
        let a: Adj = crate::gen::gen(r, &c);
        ("Adj".into(), String::new(), tree(&a), written(|c| a.write(c))?)
    };
    let x = ext(&fmt);
    std::fs::create_dir_all(dir).unwrap();
    let stem = *r.pick(&["m", "model.2", "a b", "\u{e9}"]);
    let (input, mid) = (format!("{stem}.{x}"), format!("{stem}.{x}.json"));
    std::fs::write(dir.join(&input), &b).unwrap();
    let abs = r.chance(1, 2);
    tool("lib", dir, abs, &input, None);
    let text = std::fs::read_to_string(dir.join(&mid)).unwrap_or_default();
    let j = serde_json::from_str::<Value>(&text).unwrap_or(json!(null));
    tool("lib", dir, abs, &mid, Some("back"));
    let back = match std::fs::read(dir.join("back")) {
        Ok(y) if y == b => "same",
        Ok(_) => "differs",
        Err(_) => "missing",
    };
    let mut e = json!({"op": "l09j", "kind": fmt, "fmt": fmt, "ver": ver, "val": val, "j": encode(&j), "back": back});
    if fmt == "Modl" && nested_null(&e["val"]) {
        e["case"] = json!("modl-pointer-to-null-name");
    }
    Some(e)
}

// ---- sessions
struct Subject {
    fmt: &'static str,
    bins: Vec<Vec<u8>>,
    loads: Vec<Value>,
    parse: fn(&str) -> Value,
}
macro_rules! each {
    ($x:expr, $d:ident => $e:expr) => {
        match $x {
            Any::Mesh($d) => $e, Any::Skel($d) => $e, Any::Anim($d) => $e, Any::Matl($d) => $e,
            Any::Modl($d) => $e, Any::Hlpb($d) => $e, Any::Adj($d) => $e, Any::MeshEx($d) => $e,
        }
    };
}
fn save<D: SsbhData>(d: &D) -> Option<Vec<u8>> {
    let mut c = Cursor::new(vec![]);
    attempt(|| d.write(&mut c).map_err(|e| e.to_string())).ok()?;
    Some(c.into_inner())
}
/// JSON has no infinities and no NaN: four bytes that look like one.
pub fn infinite(t: &Value) -> bool {
    match t {
        Value::Array(a) if a.len() == 4 && a.iter().all(|x| x.is_u64()) => a[3].as_u64().unwrap() & 127 == 127 && a[2].as_u64().unwrap() >= 128,
        Value::Array(a) => a.iter().any(infinite),
        Value::Object(o) => o.values().any(infinite),
        _ => false,
    }
}
fn chain<D: SsbhData + serde::Serialize + serde::de::DeserializeOwned>(d: &D, fmt: &'static str) -> Option<Subject> {
    let mut bins = vec![save(d)?];
    let mut loads = vec![];
    for _ in 0..4 {
        let x = attempt(|| D::read(&mut Cursor::new(bins.last().unwrap())).map_err(|e| e.to_string())).ok()?;
        loads.push(tree(&x));
        let mut c = Cursor::new(bins.last().unwrap());
        let low = match fmt {
            "MeshEx" => MeshEx::read(&mut c).map_or(json!([]), |x| tree(&x)),
            "Adj" => json!([]),
            _ => ssbh_lib::SsbhFile::read(&mut c).map_or(json!([]), |x| file_tree(&x)),
        };
        if infinite(loads.last().unwrap()) || infinite(&low) {
            return None;
        }
        bins.push(save(&x)?);
    }
    Some(Subject { fmt, bins, loads, parse: |s| serde_json::from_str::<D>(s).map_or(json!({"failed": 1}), |d| tree(&d)) })
}
fn subject(r: &mut Rng, k: usize) -> Subject {
    loop {
        if k >= 8 {
            // formats without data type
            let fmt = ["Nlst", "Nrpd", "Nufx", "Shdr"][k - 8];
            let ks = kinds();
            let of: Vec<_> = ks.iter().filter(|x| crate::low::FMTS[x.0].0 == fmt).collect();
            let c = Cfg { floats: 1, ..vary(r, false) };
            let kind = **r.pick(&of);
            let f = gen_file(r, &c, kind);
            if let Some(b) = written(|c| f.write(c)) {
                return Subject { fmt, bins: vec![b], loads: vec![], parse: |_| json!({"failed": 1}) };
            }
            continue;
        }
        let names = ["Mesh", "Skel", "Anim", "Matl", "Modl", "Hlpb", "Adj", "MeshEx"];
        if let Some(s) = each!(&make(r, k, &[2, 3]), d => chain(d, names[k])) {
            return s;
        }
    }
}
fn file_name(n: &Value, x: &str, stem: &str) -> String {
    let parts: Vec<&str> = n.as_array().unwrap().iter().enumerate().map(|(i, p)| match p.as_str().unwrap() { "EXT" => x, "m" if i == 0 => stem, p => p }).collect();
    parts.join(".")
}
fn session(r: &mut Rng, dir: &Path, s: &Value, sub: &Subject) -> Value {
    std::fs::create_dir_all(dir).unwrap();
    let x = ext(sub.fmt);
    let stem = *r.pick(&["m", "a b", "\u{e9}", "model.body"]);
    let mut blobs: Vec<Vec<u8>> = vec![];
    let mut ids: HashMap<Vec<u8>, usize> = HashMap::new();
    let mut id = |b: Vec<u8>| *ids.entry(b.clone()).or_insert_with(|| { blobs.push(b); blobs.len() });
    let bins: Vec<usize> = sub.bins.iter().map(|b| id(b.clone())).collect();
    // names as in the specification
    let mut names: BTreeMap<String, Value> = BTreeMap::new();
    let mut learn = |n: Value| { names.insert(file_name(&n, x, stem), n); };
    let mut start = vec![];
    for f in s["start"].as_array().unwrap() {
        let content = match f["c"]["t"].as_str().unwrap() {
            "bin" => sub.bins[0].clone(),
            _ => { let n = if r.chance(1, 2) { r.below(9) } else { 100_000 }; r.bytes(n) }
        };
        std::fs::write(dir.join(file_name(&f["name"], x, stem)), content).unwrap();
        learn(f["name"].clone());
        start.push(f.clone());
    }
    for run in s["runs"].as_array().unwrap() {
        learn(run["in"].clone());
        if run["out"] == json!([]) {
            let mut n = run["in"].as_array().unwrap().clone();
            if n.last().unwrap() == "json" {
                n.pop();
                n.push(json!("EXT"));
            } else {
                n.push(json!("json"));
            }
            learn(Value::Array(n));
        } else {
            learn(run["out"].clone());
        }
    }
    let mut look = || -> Value {
        let mut l = vec![];
        for e in std::fs::read_dir(dir).unwrap() {
            let e = e.unwrap();
            let n = e.file_name().to_string_lossy().to_string();
            let b = std::fs::read(e.path()).unwrap();
            l.push(json!({"name": names.get(&n).cloned().unwrap_or(json!([n])), "c": id(b)}));
        }
        Value::Array(l)
    };
    let first = look();
    let abs = r.chance(1, 2);
    let mut disks = vec![];
    let mut shown = vec![];
    let mut runs = vec![];
    for run in s["runs"].as_array().unwrap() {
        let out = run["out"].as_array().filter(|o| !o.is_empty()).map(|_| file_name(&run["out"], x, stem));
        let input = file_name(&run["in"], x, stem);
        let before = std::fs::read(dir.join(&input)).ok();
        tool(run["tool"].as_str().unwrap(), dir, abs, &input, out.as_deref());
        runs.push(run.clone());
        disks.push(look());
        // what the JSON of a data type says
        if run["tool"] == "data" && !input.ends_with(".json") {
            if let Some(g) = before.and_then(|b| sub.bins.iter().position(|x| *x == b)) {
                let p = out.unwrap_or(format!("{input}.json"));
                if let (Ok(t), true) = (std::fs::read_to_string(dir.join(p)), input.ends_with(x) && g < sub.loads.len()) {
                    shown.push(json!({"g": g + 1, "v": (sub.parse)(&t)}));
                }
            }
        }
    }
    let loads = if shown.is_empty() { vec![] } else { sub.loads.clone() };
    let e = json!({"op": "l09s", "kind": format!("session {}", sub.fmt), "ext": "EXT", "class": s["class"], "start": start, "first": first, "runs": runs,
        "disks": disks, "bins": bins, "loads": loads, "texts": shown});
    std::fs::remove_dir_all(dir).unwrap();
    e
}
pub fn l09(out: &mut Out, r: &mut Rng, scen: &[Value], part: usize, n: usize) {
    let root = std::env::current_dir().unwrap().join("convert");
    let _ = std::fs::remove_dir_all(&root);
    let seeds: Vec<u64> = (0..8).map(|_| r.next()).collect();
    let (root, seeds) = (&root, &seeds);
    let work = move |t: usize| {
        let mut r = Rng::new(seeds[t], "L09");
        let dir = root.join(format!("t{t}"));
        let mut events = vec![];
        let mut pool: Vec<Subject> = vec![];
        for (i, s) in scen.iter().enumerate().filter(|x| x.0 % 8 == t) {
            if (i / 8 + seeds[0] as usize) % part != 0 {
                continue;
            }
            if i / 8 / part % 40 == 0 || pool.is_empty() {
                pool = (0..12).map(|k| subject(&mut r, k)).collect();
            }
            let own = s["class"] == "own";
            let data = s["runs"].as_array().unwrap().iter().any(|x| x["tool"] == "data");
            let fits: Vec<&Subject> = pool.iter().enumerate().filter(|(k, _)| (*k == 6 || *k == 7) == own && (*k < 8 || !data)).map(|x| x.1).collect();
            let k = r.below(fits.len());
            events.push(session(&mut r, &dir, s, fits[k]));
        }
        // data of every kind through the text and back
        let through: Vec<&Value> = scen.iter().filter(|s| s["runs"].as_array().unwrap().iter().filter(|x| x["tool"] == "data").count() > 1).collect();
        for i in 0..n / 16 {
            let k = i % 8;
            let fits: Vec<&&Value> = through.iter().filter(|s| (s["class"] == "own") == (k == 6 || k == 7)).collect();
            if !fits.is_empty() {
                let one = subject(&mut r, k);
                let s = fits[r.below(fits.len())];
                events.push(session(&mut r, &dir, s, &one));
            }
        }
        for i in (0..n).filter(|i| i % 8 == t) {
            let i = i / 8 * 8 + (i + i / 8) % 8;
            events.extend(shown(&mut r, &dir, i));
            let _ = std::fs::remove_dir_all(&dir);
        }
        events
    };
    let all: Vec<Vec<Value>> = std::thread::scope(|s| (0..8).map(|t| s.spawn(move || work(t))).collect::<Vec<_>>().into_iter().map(|h| h.join().unwrap()).collect());
    all.into_iter().flatten().for_each(|e| out.emit(e));
    let _ = std::fs::remove_dir_all(root);
}
