//! L08: saving to and loading from paths.
use crate::data;
use crate::gen::{gen, Cfg};
use crate::low::{gen_file, gen_meshex, kinds, FMTS};
use crate::obs::*;
use crate::rng::Rng;
use crate::streams::Faulty;
use crate::tree::tree;
use serde_json::{json, Value};
use ssbh_data::prelude::*;
use ssbh_lib::{formats::*, Ssbh, SsbhFile};
use std::collections::HashMap;
use std::io::Cursor;
use std::path::Path;

type R<T> = Result<T, Value>;
/// One type with two values of different size and perhaps one that cannot be written.
pub struct Kind {
    pub name: String,
    bad: bool,
    pub bytes: Box<dyn Fn(&str) -> R<Vec<u8>>>,
    pub save: Box<dyn Fn(&str, &Path) -> R<()>>,
    load: Box<dyn Fn(&Path) -> R<Value>>,
    pub read: Box<dyn Fn(&[u8]) -> R<Value>>,
    pub write_to: Box<dyn Fn(&str, &mut Faulty) -> R<()>>,
    pub read_from: Box<dyn Fn(&mut Faulty) -> R<Value>>,
}
macro_rules! kind {
    ($name:expr, $t:ty, $small:expr, $large:expr, $bad:expr) => {{
        let bad: Option<$t> = $bad;
        let has_bad = bad.is_some();
        let m: std::rc::Rc<HashMap<&'static str, $t>> = std::rc::Rc::new([Some(("small", $small)), Some(("large", $large)), bad.map(|b| ("bad", b))].into_iter().flatten().collect());
        let (m2, m3) = (m.clone(), m.clone());
        Kind {
            name: $name.to_string(),
            bad: has_bad,
            bytes: Box::new(move |w| {
                attempt(|| {
                    let mut c = Cursor::new(Vec::new());
                    m[w].write(&mut c).map(|_| c.into_inner())
                })
            }),
            save: Box::new(move |w, p| attempt(|| m2[w].write_to_file(p))),
            load: Box::new(|p| attempt(|| <$t>::from_file(p).map(|v| tree(&v)).map_err(|e| e.to_string()))),
            read: Box::new(|b| attempt(|| <$t>::read(&mut Cursor::new(b)).map(|v| tree(&v)).map_err(|e| e.to_string()))),
            write_to: Box::new(move |w, f| attempt(|| m3[w].write(f))),
            read_from: Box::new(|f| attempt(|| <$t>::read(f).map(|v| tree(&v)).map_err(|e| e.to_string()))),
        }
    }};
}
pub fn kinds_of(r: &mut Rng) -> Vec<Kind> {
    let small = Cfg { budget: 2, len: 1, floats: 1, ascii: true, ..Cfg::default() };
    // sometimes larger than the buffers in between
    let n = if r.chance(1, 3) { *r.pick(&[4_000, 9_000, 70_000]) } else { 0 };
    let large = Cfg { budget: 60, len: 4, floats: 1, ascii: true, none: 5, slong: ((n > 0) as usize, n), blong: ((n > 0) as usize, n), ..Cfg::default() };
    let mut k = vec![];
    let all = kinds();
    let x = *r.pick(&all);
    k.push(kind!("SsbhFile", SsbhFile, gen_file(r, &small, x), gen_file(r, &large, x), None));
    macro_rules! typed {
        ($($v:ident $t:ty),*) => { $({
            let f = FMTS.iter().position(|f| f.0 == stringify!($v)).unwrap();
            let mut one = |c: &Cfg| loop {
                let n = r.below(FMTS[f].1.len());
                if let Ssbh::$v(x) = gen_file(r, c, (f, n)).data { break x.data; }
            };
            k.push(kind!(stringify!($v), $t, one(&small), one(&large), None));
        })* };
    }
    typed!(Hlpb hlpb::Hlpb, Matl matl::Matl, Modl modl::Modl, Mesh mesh::Mesh, Skel skel::Skel, Anim anim::Anim, Nlst nlst::Nlst, Nrpd nrpd::Nrpd, Nufx nufx::Nufx, Shdr shdr::Shdr);
    let good = |m: &meshex::MeshEx| tree(m)["entries"].get(0).map_or(0, |e| e.as_array().unwrap().len()) == tree(m)["entry_flags"].get(0).map_or(0, |e| e.as_array().unwrap().len());
    let mut ex = |c: &Cfg, want: bool| loop {
        let m = if want { gen_meshex(r, c) } else { gen(r, c) };
        if good(&m) == want {
            break m;
        }
    };
    k.push(kind!("MeshEx", meshex::MeshEx, ex(&small, true), ex(&large, true), Some(ex(&large, false))));
    k.push(kind!("Adj", adj::Adj, gen(r, &small), gen(r, &large), None));
    // ssbh_data
    let v = *r.pick(&data::MESH_VERSIONS);
    let mc = |n| data::MeshCfg { mode: 2, objects: n, verts: 4, attrs: 2, influences: 2 };
    let mut bad = loop {
        let m = data::mesh(r, &mc(4), v);
        if !m.objects.is_empty() {
            break m;
        }
    };
    bad.objects[0].vertex_indices = vec![70000, 1, 2];
    k.push(kind!("MeshData", MeshData, data::mesh(r, &mc(1), v), data::mesh(r, &mc(5), v), Some(bad)));
    let mut bad = data::skel(r, 2, 2);
    bad.bones[0].parent_index = Some(1);
    bad.bones[1].parent_index = Some(0);
    k.push(kind!("SkelData", SkelData, data::skel(r, 1, 2), data::skel(r, 6, 2), Some(bad)));
    let ac = |n| data::AnimCfg { mode: 2, groups: n, nodes: n, tracks: 2, frames: 3 * n };
    let av = *r.pick(&[(2, 0), (2, 1)]);
    let mut bad = data::anim(r, &ac(2), av);
    bad.final_frame_index = -1.0;
    k.push(kind!("AnimData", AnimData, data::anim(r, &ac(1), av), data::anim(r, &ac(3), av), Some(bad)));
    let mut bad = data::matl(r, &large);
    bad.minor_version = 9;
    k.push(kind!("MatlData", MatlData, data::matl(r, &small), data::matl(r, &large), Some(bad)));
    k.push(kind!("ModlData", ModlData, gen(r, &small), gen(r, &large), None));
    k.push(kind!("HlpbData", HlpbData, gen(r, &small), gen(r, &large), None));
    k.push(kind!("MeshExData", MeshExData, data::meshex(r, &small), data::meshex(r, &large), None));
    let more = n / 2;
    let mut adj = |n| AdjData {
        entries: (0..n).map(|i| ssbh_data::adj_data::AdjEntryData { mesh_object_index: i, vertex_adjacency: (0..n + r.below(4) + if n > 2 { more } else { 0 }).map(|_| r.next() as i16).collect() }).collect(),
    };
    let mut bad = adj(2);
    bad.entries[1].mesh_object_index = usize::MAX;
    k.push(kind!("AdjData", AdjData, adj(1), adj(5), Some(bad)));
    k
}

/// Numbers for things that are compared; 0 is "none".
#[derive(Default)]
pub struct Intern(HashMap<Vec<u8>, usize>, Vec<Vec<u8>>);
impl Intern {
    pub fn id(&mut self, b: &[u8]) -> usize {
        if let Some(i) = self.0.get(b) {
            return *i;
        }
        self.1.push(b.to_vec());
        self.0.insert(b.to_vec(), self.1.len());
        self.1.len()
    }
}
fn content(p: &Path, blobs: &mut Intern) -> usize {
    std::fs::read(p).map_or(0, |b| blobs.id(&b))
}

fn replay(k: &Kind, s: &Value, dir: &Path, r: &mut Rng) -> Value {
    let mut blobs = Intern::default();
    let mut vals = Intern::default();
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir.join("dir")).unwrap();
    let by = |w: &str| (k.bytes)(w);
    let bytes_of: HashMap<&str, usize> = ["small", "large", "bad"].iter().map(|w| (*w, if *w == "bad" && !k.bad { 0 } else { by(w).map_or(0, |b| blobs.id(&b)) })).collect();
    let big = by("large").map_or(100, |b| b.len()) + by("small").map_or(0, |b| b.len());
    for p in ["a", "b"] {
        let q = dir.join(p);
        match s["start"][p].as_str().unwrap() {
            "none" => {}
            "short" => std::fs::write(q, r.bytes(3)).unwrap(),
            "long" => std::fs::write(q, r.bytes(big + 37)).unwrap(),
            "other" => std::fs::write(q, b"HBSS@\0\0\0\0\0\0\0\0\0\0\0EPYT\x01\0\x01\0").unwrap(),
            // as long as what is saved later, but not the same
            "like" => {
                let w = *r.pick(&["small", "large"]);
                let mut b = by(w).unwrap_or_default();
                let at = match r.below(3) { 0 => 0, 1 => b.len().saturating_sub(1), _ => r.below(b.len().max(1)) };
                if let Some(x) = b.get_mut(at) {
                    *x ^= 1 << r.below(8);
                }
                std::fs::write(q, b).unwrap()
            }
            w => std::fs::write(q, by(w).unwrap_or_default()).unwrap(),
        }
    }
    let start = json!({"a": content(&dir.join("a"), &mut blobs), "b": content(&dir.join("b"), &mut blobs)});
    let mut steps = vec![];
    for op in s["ops"].as_array().unwrap() {
        let p = match op["path"].as_str().unwrap() {
            "gone" => dir.join("nodir").join("x"),
            p => dir.join(p),
        };
        let (res, v) = if op["do"] == "save" {
            ((k.save)(op["val"].as_str().unwrap(), &p).map(|_| ()), 0)
        } else {
            match (k.load)(&p) {
                Ok(t) => (Ok(()), vals.id(t.to_string().as_bytes())),
                Err(e) => (Err(e), 0),
            }
        };
        let mut others: Vec<String> = vec![];
        for e in std::fs::read_dir(dir).unwrap() {
            let n = e.unwrap().file_name().to_string_lossy().to_string();
            if !["a", "b", "dir"].contains(&n.as_str()) {
                others.push(n);
            }
        }
        others.extend(std::fs::read_dir(dir.join("dir")).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().to_string()));
        steps.push(json!({"op": op, "r": match res { Ok(_) => json!({"k": "ok"}), Err(e) => e }, "v": v,
            "disk": {"a": content(&dir.join("a"), &mut blobs), "b": content(&dir.join("b"), &mut blobs)}, "others": others}));
    }
    let denotes: Vec<usize> = blobs.1.iter().map(|b| (k.read)(b).map_or(0, |t| vals.id(t.to_string().as_bytes()))).collect();
    json!({"op": "l08", "kind": k.name, "bytesOf": bytes_of, "denotes": denotes, "start": start, "steps": steps})
}

pub fn l08(out: &mut Out, r: &mut Rng, scen: &[Value], rounds: usize) {
    let dir = std::env::current_dir().unwrap().join("files");
    for _ in 0..rounds {
        // every type goes through every behaviour once, with new values every 30 behaviours
        let mut ks = vec![];
        for (i, s) in scen.iter().enumerate() {
            if i % 30 == 0 {
                ks = kinds_of(r);
            }
            let bad = s["ops"].as_array().unwrap().iter().any(|o| o["val"] == "bad");
            for k in ks.iter().filter(|k| k.bad || !bad) {
                out.emit(replay(k, s, &dir, r));
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}
