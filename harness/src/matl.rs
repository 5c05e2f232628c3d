//! Materials: D11.
use crate::gen::{gen, Cfg, LONG};
use crate::mesh::saved;
use crate::obs::*;
use crate::rng::Rng;
use crate::tree::{bytes, tree};
use serde_json::{json, Value};
use ssbh_data::matl_data::error::Error as MatlError;
use ssbh_data::matl_data::ParamData;
use ssbh_data::prelude::*;
use ssbh_lib::formats::matl::*;
use ssbh_lib::{RelPtr64, SsbhArray, SsbhEnum64};

fn convert(d: &MatlData) -> Value {
    match attempt(|| Ok::<_, String>(Matl::try_from(d))) {
        Ok(Ok(m)) => ok(tree(&m)),
        Ok(Err(MatlError::UnsupportedVersion { major_version, minor_version })) => {
            json!({"k": "err", "e": {"e": "UnsupportedVersion", "a": bytes(&major_version.to_le_bytes()), "b": bytes(&minor_version.to_le_bytes())}})
        }
        Ok(Err(_)) => json!({"k": "err", "e": {"e": "Io", "a": [], "b": []}}),
        Err(v) => v,
    }
}
fn event(kind: &str, d: &MatlData) -> Value {
    let rt = match saved(|c| d.write(c), |c| MatlData::read(c)) {
        Ok(x) => ok(tree(&x)),
        Err(e) => e,
    };
    json!({"op": "d11", "kind": kind, "data": tree(d), "lib": convert(d), "rt": rt})
}
fn file_event(kind: &str, m: &Matl) -> Value {
    let t = tree(m);
    let r = run(|| MatlData::try_from(m).map(|d| tree(&d)));
    json!({"op": "d11file", "kind": kind, "ver": t["v"], "m": t["d"], "r": r})
}
fn variant(k: &str) -> usize {
    ["floats", "booleans", "vectors", "unknown", "textures", "samplers", "uv_transforms", "blend_states", "rasterizer_states"].iter().position(|x| *x == k).unwrap()
}
fn param<T: serde::de::DeserializeOwned + ssbh_lib::DataType>(r: &mut Rng, name: &'static str, k: &str, c: &Cfg) -> SsbhEnum64<T> {
    SsbhEnum64 {
        data: match k {
            "null" => RelPtr64::null(),
            k => RelPtr64::new(gen::<T>(r, &Cfg { force: vec![(name, variant(k))], ..c.clone() })),
        },
    }
}
fn shaped(r: &mut Rng, ver: &str, seq: &[&str], c: &Cfg) -> Matl {
    let label = gen(r, c);
    let shader = gen(r, c);
    if ver == "V15" {
        let a: Vec<AttributeV15> = seq.iter().map(|k| AttributeV15 { param_id: gen(r, c), param: param(r, "ParamV15", k, c) }).collect();
        Matl::V15 { entries: SsbhArray { elements: vec![MatlEntryV15 { material_label: label, attributes: a.into(), shader_label: shader }] } }
    } else {
        let a: Vec<AttributeV16> = seq.iter().map(|k| AttributeV16 { param_id: gen(r, c), param: param(r, "ParamV16", k, c) }).collect();
        Matl::V16 { entries: SsbhArray { elements: vec![MatlEntryV16 { material_label: label, attributes: a.into(), shader_label: shader }] } }
    }
}
/// Repeats parameters within each list: the same one twice in a row, or further apart, alike or with other contents.
fn repeat(r: &mut Rng, d: &mut MatlData) {
    fn list<T: Clone>(r: &mut Rng, v: &mut Vec<ParamData<T>>) {
        if v.is_empty() || r.chance(1, 3) {
            return;
        }
        let (i, j) = (r.below(v.len()), r.below(v.len()));
        if i == j || r.chance(1, 2) {
            let x = v[i].clone();
            v.insert(i, x);
        } else {
            let id = v[i].param_id;
            v[j].param_id = id;
            if r.chance(1, 2) {
                let k = (i + 1) % v.len();
                v.swap(j, k);
            }
        }
    }
    for e in &mut d.entries {
        list(r, &mut e.vectors);
        list(r, &mut e.floats);
        list(r, &mut e.booleans);
        list(r, &mut e.textures);
        list(r, &mut e.samplers);
        list(r, &mut e.blend_states);
        list(r, &mut e.rasterizer_states);
        list(r, &mut e.uv_transforms);
    }
}
/// The same for the attributes of a file.
fn repeat_attributes(r: &mut Rng, m: &mut Matl) {
    macro_rules! rep {
        ($e:expr) => {
            for e in &mut $e.elements {
                let v = &mut e.attributes.elements;
                if v.len() > 1 && !r.chance(1, 3) {
                    let i = r.below(v.len() - 1);
                    let j = if r.chance(1, 2) { i + 1 } else { r.below(v.len()) };
                    v[j].param_id = v[i].param_id;
                }
            }
        };
    }
    match m {
        Matl::V15 { entries } => rep!(entries),
        Matl::V16 { entries } => rep!(entries),
    }
}
pub fn cfg(r: &mut Rng) -> Cfg {
    let long = if r.chance(1, 30) { (1 + r.below(9), *r.pick(&LONG)) } else { (0, 0) };
    let slong = if r.chance(1, 40) { (1 + r.below(3), *r.pick(&LONG)) } else { (0, 0) };
    Cfg { long, slong, floats: *r.pick(&[0, 1, 2]), len: *r.pick(&[2, 3, 5, 9]), none: *r.pick(&[0, 10, 30]), budget: 120, ascii: r.chance(1, 3), slen: *r.pick(&[3, 9, 30]), ..Default::default() }
}
pub fn d11(out: &mut Out, r: &mut Rng, scen: &[Value], n: usize) {
    for s in scen {
        let seq: Vec<&str> = s["seq"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
        let c = cfg(r);
        let mut m = shaped(r, s["ver"].as_str().unwrap(), &seq, &c);
        if r.chance(1, 3) {
            repeat_attributes(r, &mut m);
        }
        out.emit(file_event("MC_Matl", &m));
        if let Ok(mut d) = attempt(|| MatlData::try_from(&m)) {
            if r.chance(1, 4) {
                d.minor_version = 11 - d.minor_version;
            }
            out.emit(event("MC_Matl", &d));
        }
    }
    for i in 0..n {
        let c = cfg(r);
        let mut d: MatlData = gen(r, &c);
        (d.major_version, d.minor_version) = if i % 8 == 7 { *r.pick(&[(1, 4), (1, 7), (0, 6), (2, 6), (1, 262), (257, 6), (0, 0), (1, 0), (6, 1), (2, 5), (65535, 65535)]) } else { *r.pick(&[(1, 5), (1, 6), (1, 6)]) };
        if i % 3 == 1 {
            repeat(r, &mut d);
        }
        out.emit(event("random", &d));
        let mut m: Matl = gen(r, &c);
        if i % 3 == 1 {
            repeat_attributes(r, &mut m);
        }
        out.emit(file_event("any file", &m));
    }
}
