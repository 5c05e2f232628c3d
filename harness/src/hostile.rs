//! Values and files nobody would save (D15).
use crate::data::{self, AnimCfg, MeshCfg};
use crate::gen::{from_tree, gen, Cfg};
use crate::low::{damage, vary};
use crate::obs::*;
use crate::rng::Rng;
use crate::tree::tree;
use crate::{anim, matl, mesh, shader};
use serde_json::{json, Value};
use ssbh_data::prelude::*;
use ssbh_data::shdr_data::ShdrData;
use ssbh_data::SsbhData;
use ssbh_lib::formats::{adj::Adj, anim::Anim, hlpb::Hlpb, matl::Matl, mesh::Mesh, meshex::MeshEx, modl::Modl, shdr::Shdr, skel::Skel};
use std::io::Cursor;

fn outcome<T>(x: &Result<T, Value>) -> Value {
    match x {
        Ok(_) => json!({"k": "ok"}),
        Err(e) => e.clone(),
    }
}
fn none() -> Value {
    json!({"k": "none"})
}
/// Saves loaded data and computes what can be derived from it.
trait Use: serde::Serialize {
    fn save(&self) -> Value;
    fn derive(&self) {}
}
macro_rules! used {
    ($d:ty, $x:ident => $e:expr) => {
        impl Use for $d {
            fn save(&self) -> Value {
                outcome(&attempt(|| SsbhData::write(self, &mut Cursor::new(vec![])).map_err(|e| e.to_string())))
            }
            fn derive(&self) {
                let $x = self;
                $e;
            }
        }
    };
}
used!(MeshData, m => for o in &m.objects { let _ = o.vertex_count(); });
used!(SkelData, s => for b in &s.bones { let _ = s.calculate_world_transform(b); });
used!(AnimData, a => a);
used!(MatlData, m => m);
used!(ModlData, m => m);
used!(HlpbData, m => m);
used!(AdjData, m => m);
used!(MeshExData, m => m);
impl Use for ShdrData {
    fn save(&self) -> Value {
        none()
    }
}

struct Kind {
    fmt: &'static str,
    ver: &'static str,
    /// A rich value of the kind.
    base: fn(&mut Rng, &str) -> Value,
    /// Everything that happens to a value; None if it is not a value of the library.
    value: fn(&Value, &str, &mut dyn FnMut(usize)) -> Option<Value>,
    /// The bytes of its file, if it has one.
    file: fn(&Value, &str) -> Option<Vec<u8>>,
    /// Everything that happens to a file.
    bytes: fn(&[u8]) -> Value,
}
fn rest<D: Use>(d: &Result<D, Value>) -> (Value, Value) {
    match d {
        Ok(d) => (d.save(), run(|| -> Result<Value, String> {
            d.derive();
            Ok(json!([]))
        })),
        Err(_) => (none(), none()),
    }
}
macro_rules! kind {
    ($fmt:literal, $ver:literal, $l:ty, $d:ty, $lib:expr, $base:expr) => {
        Kind {
            fmt: $fmt,
            ver: $ver,
            base: $base,
            value: |t, ver, started| {
                let l: $l = from_tree(&$lib(t, ver)).ok()?;
                let mut c = Cursor::new(vec![]);
                let written = attempt(|| l.write(&mut c).map_err(|e| e.to_string())).is_ok();
                let size = c.get_ref().len();
                started(size);
                let (conv, kib) = peak(|| attempt(|| <$d>::try_from(&l).map_err(|e| e.to_string())));
                let (read, kib2) = peak(|| if written { Some(attempt(|| <$d>::read(&mut Cursor::new(c.get_ref())).map_err(|e| e.to_string()))) } else { None });
                let same = match (&conv, &read) {
                    (Ok(a), Some(Ok(b))) => if tree(a) == tree(b) { "yes" } else { "no" },
                    _ => "-",
                };
                let (save, used) = rest(&conv);
                Some(json!({"conv": outcome(&conv), "file": read.map(|x| outcome(&x)).unwrap_or(none()), "same": same, "save": save, "use": used, "kib": kib.max(kib2) / 1024, "size": size}))
            },
            file: |t, ver| {
                let l: $l = from_tree(&$lib(t, ver)).unwrap();
                let mut c = Cursor::new(vec![]);
                l.write(&mut c).ok()?;
                Some(c.into_inner())
            },
            bytes: |b| {
                let (read, kib) = peak(|| attempt(|| <$d>::read(&mut Cursor::new(b)).map_err(|e| e.to_string())));
                let (save, used) = rest(&read);
                json!({"conv": outcome(&read), "file": none(), "same": "-", "save": save, "use": used, "kib": kib / 1024, "size": b.len()})
            },
        }
    };
}
fn versioned(t: &Value, ver: &str) -> Value {
    json!({"v": ver, "d": t})
}
fn plain(t: &Value, _: &str) -> Value {
    t.clone()
}
fn inner<T: serde::Serialize>(x: &T) -> Value {
    tree(x)["d"].clone()
}
fn rich(r: &mut Rng) -> Cfg {
    Cfg { floats: 1, len: 3, none: 10, budget: 40, ..vary(r, false) }
}
fn mesh_base(r: &mut Rng, ver: &str) -> Value {
    if r.chance(1, 2) {
        return inner(&mesh::to_mesh(&mesh::foreign(r, ver), ver));
    }
    loop {
        let c = MeshCfg::vary(r, 3);
        let v = match ver {
            "V8" => (1, 8),
            "V9" => (1, 9),
            _ => (1, 10),
        };
        if let Ok(m) = mesh::convert(&data::mesh(r, &c, v)) {
            return inner(&m);
        }
    }
}
fn anim_base(r: &mut Rng, ver: &str) -> Value {
    if ver == "V12" {
        return inner(&anim::old_file(r, false));
    }
    loop {
        let a = if r.chance(1, 2) {
            anim::foreign_file(r, false)
        } else {
            let c = AnimCfg::vary(r, 3);
            match anim::convert(&data::anim(r, &c, (2, if ver == "V20" { 0 } else { 1 }))) {
                Ok(a) => a,
                Err(_) => continue,
            }
        };
        let t = tree(&a);
        if t["v"] == ver {
            return t["d"].clone();
        }
    }
}
fn skel_base(r: &mut Rng, _: &str) -> Value {
    loop {
        let n = r.below(6);
        if let Ok(s) = attempt(|| Skel::try_from(&data::skel(r, n, 3)).map_err(|e| e.to_string())) {
            return inner(&s);
        }
    }
}
fn matl_base(r: &mut Rng, ver: &str) -> Value {
    let c = Cfg { force: vec![("Matl", if ver == "V15" { 0 } else { 1 })], ..matl::cfg(r) };
    inner(&gen::<Matl>(r, &c))
}
fn adj_base(r: &mut Rng, _: &str) -> Value {
    let d = AdjData {
        entries: (0..r.below(5))
            .map(|i| ssbh_data::adj_data::AdjEntryData { mesh_object_index: i, vertex_adjacency: (0..r.below(9)).map(|_| r.next() as i16).collect() })
            .collect(),
    };
    tree(&Adj::try_from(&d).unwrap())
}
fn meshex_base(r: &mut Rng, _: &str) -> Value {
    let c = rich(r);
    if r.chance(1, 2) {
        tree(&crate::low::gen_meshex(r, &c))
    } else {
        tree(&MeshEx::from(data::meshex(r, &c)))
    }
}
fn shdr_base(r: &mut Rng, _: &str) -> Value {
    let b = (0..r.below(3)).map(|_| shader::binary(r).0).collect();
    inner(&shader::shdr(r, b))
}
fn kinds() -> Vec<Kind> {
    vec![
        kind!("Mesh", "V8", Mesh, MeshData, versioned, mesh_base),
        kind!("Mesh", "V9", Mesh, MeshData, versioned, mesh_base),
        kind!("Mesh", "V10", Mesh, MeshData, versioned, mesh_base),
        kind!("Anim", "V12", Anim, AnimData, versioned, anim_base),
        kind!("Anim", "V20", Anim, AnimData, versioned, anim_base),
        kind!("Anim", "V21", Anim, AnimData, versioned, anim_base),
        kind!("Skel", "V10", Skel, SkelData, versioned, skel_base),
        kind!("Matl", "V15", Matl, MatlData, versioned, matl_base),
        kind!("Matl", "V16", Matl, MatlData, versioned, matl_base),
        kind!("Modl", "V17", Modl, ModlData, versioned, |r, _| { let c = rich(r); inner(&gen::<Modl>(r, &c)) }),
        kind!("Hlpb", "V11", Hlpb, HlpbData, versioned, |r, _| { let c = rich(r); inner(&gen::<Hlpb>(r, &c)) }),
        kind!("Shdr", "V12", Shdr, ShdrData, versioned, shdr_base),
        kind!("Adj", "", Adj, AdjData, plain, adj_base),
        kind!("MeshEx", "", MeshEx, MeshExData, plain, meshex_base),
    ]
}

/// The places in t that the path leads to.
fn places(t: &Value, path: &[Value], at: String, out: &mut Vec<String>) {
    let Some(step) = path.first() else {
        out.push(at);
        return;
    };
    match step["s"].as_str().unwrap() {
        "f" => {
            let n = step["n"].as_str().unwrap();
            if let Some(x) = t.get(n) {
                places(x, &path[1..], format!("{at}/{n}"), out);
            }
        }
        "v" => {
            if t["data"].get(0).is_some_and(|x| x["v"] == step["n"]) {
                places(&t["data"][0]["d"], &path[1..], format!("{at}/data/0/d"), out);
            }
        }
        _ => {
            for (i, x) in t.as_array().into_iter().flatten().enumerate() {
                places(x, &path[1..], format!("{at}/{i}"), out);
            }
        }
    }
}
fn byte_list(v: &Value) -> Option<Vec<u8>> {
    v.as_array()?.iter().map(|x| x.as_u64().map(|x| x as u8)).collect()
}
fn number(v: &[u8], f: impl Fn(u64) -> u64) -> Vec<u8> {
    let x = v.iter().rev().fold(0u64, |a, b| a << 8 | *b as u64);
    f(x).to_le_bytes()[..v.len()].to_vec()
}
/// Applies the replacement of scenario s to one place of t, chosen at random.
fn edit(r: &mut Rng, t: &mut Value, s: &Value) -> bool {
    let path = s["path"].as_array().unwrap();
    let mut ps = vec![];
    places(t, path, String::new(), &mut ps);
    if ps.is_empty() {
        return false;
    }
    let p = r.pick(&ps).clone();
    let how = s["edit"].as_str().unwrap();
    let old = t.pointer(&p).unwrap().clone();
    let new = match how {
        "swap" => {
            let q = r.pick(&ps).clone();
            let other = t.pointer(&q).unwrap().clone();
            *t.pointer_mut(&q).unwrap() = old;
            other
        }
        "other" => {
            // the one the specification chose, or that of another place
            let mut qs = vec![];
            places(&s["val"], path, String::new(), &mut qs);
            s["val"].pointer(&qs[0]).unwrap().clone()
        }
        _ => {
            let list = old.as_array().cloned();
            if let Some(bits) = old.get("bytes") {
                let n = bits.as_array().unwrap().len();
                json!({"bytes": vec![json!([if how == "zero" { 0 } else { 255 }]); n]})
            } else if old.get("data").is_some() {
                json!({"data": []})
            } else if let (Some(b), true) = (byte_list(&old), ["zero", "one", "max", "half", "top", "plus", "minus", "twice", "inf", "nan"].contains(&how)) {
                let n = b.len();
                let x = match how {
                    "zero" => vec![0; n],
                    "max" => vec![255; n],
                    "one" => number(&b, |_| 1),
                    "half" => { let mut x = vec![255; n]; if n > 0 { x[n - 1] = 127 } x }
                    "top" => { let mut x = vec![0; n]; if n > 0 { x[n - 1] = 128 } x }
                    "plus" => number(&b, |x| x.wrapping_add(1)),
                    "minus" => number(&b, |x| x.wrapping_sub(1)),
                    "twice" => number(&b, |x| x << 1),
                    "inf" => vec![0, 0, 128, 127],
                    _ => vec![0, 0, 192, 127],
                };
                crate::tree::bytes(&x)
            } else {
                let mut l = list.unwrap_or_default();
                match how {
                    "none" => l.clear(),
                    "drop" => { l.pop(); }
                    "first" => { if !l.is_empty() { l.remove(0); } }
                    "again" => {
                        if byte_list(&old).is_some() {
                            l.extend(l.clone())
                        } else if let Some(x) = l.last().cloned() {
                            l.push(x)
                        }
                    }
                    "reverse" => l.reverse(),
                    _ => (),
                }
                Value::Array(l)
            }
        }
    };
    *t.pointer_mut(&p).unwrap() = new;
    true
}
fn name(s: &Value) -> String {
    let p: Vec<&str> = s["path"].as_array().unwrap().iter().map(|x| if x["s"] == "e" { "*" } else { x["n"].as_str().unwrap() }).collect();
    format!("{} {}", p.join("."), s["edit"].as_str().unwrap())
}

pub fn d15(out: &mut Out, r: &mut Rng, scen: &[Value], rounds: usize, files: usize, cur: &str) {
    let ks = kinds();
    let pools: Vec<Vec<Value>> = ks.iter().map(|k| (0..24).map(|_| (k.base)(r, k.ver)).collect()).collect();
    let try_value = |out: &mut Out, k: &Kind, src: &str, kind: String, t: &Value| {
        let mut head = json!({"op": "d15", "kind": kind, "src": src, "fmt": k.fmt, "ver": k.ver, "val": t});
        let mut note = |size: usize| std::fs::write(cur, json!({"op": "d15", "kind": kind, "size": size, "val": t}).to_string()).unwrap();
        let Some(e) = (k.value)(t, k.ver, &mut note) else { return };
        head.as_object_mut().unwrap().extend(e.as_object().unwrap().clone());
        // the value itself is only judged where the specification made it
        if src != "spec" && [&head["conv"], &head["file"], &head["save"], &head["use"]].iter().all(|x| x["k"] != "panic") {
            head["val"] = json!([]);
        }
        out.emit(head);
    };
    for (i, k) in ks.iter().enumerate() {
        for (j, b) in pools[i].iter().enumerate() {
            try_value(out, k, "value", format!("unchanged {j}"), b);
        }
        let mine: Vec<&Value> = scen.iter().filter(|s| s["fmt"] == k.fmt && s["ver"] == k.ver).collect();
        for s in &mine {
            try_value(out, k, "spec", name(s), &s["val"]);
            for _ in 0..rounds {
                // a rich value that has such a part
                let n = pools[i].len();
                let first = r.below(n);
                for q in 0..n {
                    let mut t = pools[i][(first + q) % n].clone();
                    if edit(r, &mut t, s) {
                        let mut kind = name(s);
                        while r.chance(1, 3) {
                            let s2 = *r.pick(&mine);
                            if edit(r, &mut t, s2) {
                                kind += "; ";
                                kind += &name(s2);
                            }
                        }
                        try_value(out, k, "value", kind, &t);
                        break;
                    }
                }
            }
        }
        // damaged files
        for j in 0..files {
            let Some(mut b) = (k.file)(&pools[i][j % pools[i].len()], k.ver) else { continue };
            let step = if k.fmt == "Adj" { 2 } else { 4 };
            let words: Vec<(usize, usize)> = (0..b.len() / step * step).step_by(step).filter(|p| p + step <= b.len()).map(|p| (p, step)).collect();
            let how = damage(r, &mut b, &words);
            std::fs::write(cur, json!({"op": "d15", "kind": how, "fmt": k.fmt, "bytes": crate::tree::bytes(&b)}).to_string()).unwrap();
            let mut e = (k.bytes)(&b);
            let o = e.as_object_mut().unwrap();
            o.insert("op".into(), json!("d15"));
            o.insert("kind".into(), json!(how));
            o.insert("src".into(), json!("bytes"));
            o.insert("fmt".into(), json!(k.fmt));
            o.insert("ver".into(), json!(k.ver));
            let quiet = ["conv", "save", "use"].iter().all(|x| o[*x]["k"] != "panic");
            o.insert("val".into(), if quiet { json!([]) } else { crate::tree::bytes(&b) });
            out.emit(e);
        }
    }
    std::fs::remove_file(cur).ok();
}
