//! Repeated saving and loading (D17).
use crate::data::{self, AnimCfg, MeshCfg};
use crate::gen::{gen, Cfg};
use crate::obs::*;
use crate::rng::Rng;
use crate::tree::{bytes, tree};
use serde::Serialize;
use serde_json::{json, Value};
use ssbh_data::adj_data::AdjEntryData;
use ssbh_data::prelude::*;
use ssbh_data::SsbhData;
use std::io::{self, Cursor, Seek, SeekFrom, Write};

struct Limited(Cursor<Vec<u8>>, usize);
impl Write for Limited {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.1 == 0 {
            return Err(io::Error::other("full"));
        }
        let n = b.len().min(self.1);
        self.1 -= n;
        self.0.write(&b[..n])
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for Limited {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.0.seek(p)
    }
}
pub fn digest(b: &[u8]) -> Value {
    let fnv = |seed: u64, k: u64| b.iter().fold(seed, |h, x| (h ^ *x as u64).wrapping_mul(k));
    let mut v = fnv(0xcbf2_9ce4_8422_2325, 0x100_0000_01b3).to_le_bytes().to_vec();
    v.extend(fnv(0x8422_2325_cbf2_9ce4, 0x9E37_79B9_7F4A_7C15).to_le_bytes());
    v.extend((b.len() as u64).to_le_bytes());
    bytes(&v)
}
fn save<D: SsbhData>(d: &D) -> Result<Vec<u8>, Value> {
    attempt(|| {
        let mut c = Cursor::new(vec![]);
        d.write(&mut c).map(|_| c.into_inner())
    })
}
fn outcome(x: &Result<Vec<u8>, Value>) -> Value {
    match x {
        Ok(b) => json!({"k": "ok", "h": digest(b)}),
        Err(e) => json!({"k": e["k"], "h": []}),
    }
}
fn load<D: SsbhData>(b: &[u8]) -> Result<D, Value> {
    attempt(|| D::read(&mut Cursor::new(b)).map_err(|e| e.to_string()))
}
fn history<D: SsbhData + Sync>(fmt: &str, a: &D, b: &D, ops: &[&str], r: &mut Rng, earlier: &[Value]) -> Value {
    let mut hist: Vec<Value> = earlier.iter().zip(["a", "b"]).map(|(o, v)| json!({"v": v, "out": o})).collect();
    let mut last: Option<Vec<u8>> = None;
    for op in ops {
        let x = match *op {
            "a" => save(a),
            "b" => save(b),
            "failed" => {
                let _ = attempt(|| b.write(&mut Limited(Cursor::new(vec![]), r.below(400))).map_err(|e| e.to_string()));
                continue;
            }
            "load" => {
                if let Some(x) = &last {
                    let _ = load::<D>(x);
                }
                continue;
            }
            _ => std::thread::scope(|s| s.spawn(|| save(a)).join().unwrap()),
        };
        hist.push(json!({"v": if *op == "b" { "b" } else { "a" }, "out": outcome(&x)}));
        last = x.ok();
    }
    for (v, d) in [("a", a), ("b", b)] {
        hist.push(json!({"v": v, "out": outcome(&save(d))}));
    }
    json!({"op": "d17h", "kind": format!("history {}", ops.join(" ")), "fmt": fmt, "hist": hist})
}
fn generations<D: SsbhData + Serialize>(fmt: &str, d: &D, n: usize) -> Value {
    let mut g = vec![];
    let mut out = vec![];
    let mut file = save(d);
    for _ in 0..n {
        out.push(outcome(&file));
        let next = file.and_then(|b| load::<D>(&b));
        match next {
            Ok(x) => {
                g.push(ok(tree(&x)));
                file = save(&x);
            }
            Err(e) => {
                g.push(e);
                break;
            }
        }
    }
    json!({"op": "d17g", "kind": "generations", "fmt": fmt, "data": tree(d), "g": g, "out": out})
}

pub enum Any {
    Mesh(MeshData),
    Skel(SkelData),
    Anim(AnimData),
    Matl(MatlData),
    Modl(ModlData),
    Hlpb(HlpbData),
    Adj(AdjData),
    MeshEx(MeshExData),
}
pub fn make(r: &mut Rng, k: usize, modes: &[u8]) -> Any {
    let c = Cfg { floats: 1, ..crate::low::vary(r, false) };
    match k {
        0 => {
            let mode = *r.pick(modes);
            let mc = MeshCfg::vary(r, mode);
            let version = *r.pick(&[(1, 8), (1, 9), (1, 10)]);
            Any::Mesh(data::mesh(r, &mc, version))
        }
        1 => { let n = r.below(7); Any::Skel(data::skel(r, n, 3)) }
        2 => {
            let ac = AnimCfg::vary(r, 3);
            let minor = r.below(2) as u16;
            Any::Anim(data::anim(r, &ac, (2, minor)))
        }
        3 => {
            let mut m = data::matl(r, &c);
            m.minor_version = *r.pick(&[5, 6, 6]);
            Any::Matl(m)
        }
        4 => Any::Modl(gen(r, &c)),
        5 => Any::Hlpb(HlpbData { major_version: 1, minor_version: 1, ..gen(r, &c) }),
        6 => Any::Adj(AdjData {
            entries: (0..r.below(6))
                .map(|i| AdjEntryData { mesh_object_index: i * 3, vertex_adjacency: (0..r.below(9)).map(|_| r.next() as i16).collect() })
                .collect(),
        }),
        _ => Any::MeshEx(data::meshex(r, &c)),
    }
}
const NAMES: [&str; 8] = ["Mesh", "Skel", "Anim", "Matl", "Modl", "Hlpb", "Adj", "MeshEx"];
macro_rules! each {
    ($x:expr, $d:ident => $e:expr) => {
        match $x {
            Any::Mesh($d) => $e,
            Any::Skel($d) => $e,
            Any::Anim($d) => $e,
            Any::Matl($d) => $e,
            Any::Modl($d) => $e,
            Any::Hlpb($d) => $e,
            Any::Adj($d) => $e,
            Any::MeshEx($d) => $e,
        }
    };
}
macro_rules! pairs {
    ($x:expr, $y:expr, $a:ident, $b:ident => $e:expr; $($v:ident)*) => {
        match ($x, $y) {
            $((Any::$v($a), Any::$v($b)) => $e,)*
            _ => unreachable!(),
        }
    };
}
/// The values of a run, the same for every process with the same seed.
fn values(r: &mut Rng, n: usize) -> Vec<(usize, Any, Any)> {
    (0..n).map(|i| (i % 8, make(r, i % 8, &[1, 2, 3, 5]), make(r, i % 8, &[1, 2, 3, 5]))).collect()
}
/// In a process of its own: saves all values in another order.
pub fn child(out: &mut Out, r: &mut Rng, n: usize) {
    let v = values(r, n);
    let mut o = vec![json!(null); n];
    for i in (0..n).rev() {
        let b = each!(&v[i].2, d => outcome(&save(d)));
        let a = each!(&v[i].1, d => outcome(&save(d)));
        o[i] = json!([a, b]);
    }
    o.into_iter().for_each(|x| out.emit(x));
}
pub fn d17(out: &mut Out, r: &mut Rng, scen: &[Value], n: usize, again: impl FnOnce() -> Vec<Value>) {
    let v = values(r, n);
    let other = again();
    for (i, (k, a, b)) in v.iter().enumerate() {
        let s: Vec<&str> = scen[(i / 8 + k * 7) % scen.len()].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
        let earlier = other[i].as_array().unwrap();
        let e = pairs!(a, b, x, y => history(NAMES[*k], x, y, &s, r, earlier); Mesh Skel Anim Matl Modl Hlpb Adj MeshEx);
        out.emit(e);
        out.emit(each!(a, d => generations(NAMES[*k], d, 4)));
    }
}
