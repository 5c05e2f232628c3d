//! Skeletons: D10.
use crate::data::{billboard, name};
use crate::gen::{gen, Cfg};
use crate::mesh::saved;
use crate::obs::*;
use crate::rng::Rng;
use crate::tree::tree;
use serde_json::{json, Value};
use ssbh_data::prelude::*;
use ssbh_data::skel_data::{calculate_relative_transform, BoneData};
use ssbh_lib::formats::skel::Skel;

pub type M = [[f32; 4]; 4];
const ID: M = [[1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, 1.0]];
fn mul(a: &M, b: &M) -> M {
    let mut m = [[0.0; 4]; 4];
    for c in 0..4 {
        for r in 0..4 {
            m[c][r] = (0..4).map(|k| a[k][r] * b[c][k]).sum();
        }
    }
    m
}
/// Products of few elementary integer matrices with determinant 1 or -1; also projective ones.
fn unimodular(r: &mut Rng, steps: usize) -> M {
    let mut m = ID;
    for _ in 0..steps {
        let mut e = ID;
        let (i, j) = (r.below(4), r.below(4));
        match r.below(4) {
            0 if i != j => {
                e[i][i] = 0.0;
                e[j][j] = 0.0;
                e[i][j] = 1.0;
                e[j][i] = if r.chance(1, 2) { 1.0 } else { -1.0 };
            }
            1 if i != 3 => e[i][i] = -1.0,
            _ => {
                let (i, j) = if i == j { (3, r.below(3)) } else { (i, j) };
                e[i][j] = *r.pick(&[1.0, -1.0]);
            }
        }
        m = mul(&m, &e);
    }
    m
}
/// Integer translation.
fn shift(r: &mut Rng) -> M {
    let mut m = ID;
    for k in 0..3 {
        m[3][k] = r.below(9) as f32 - 4.0;
    }
    m
}
/// A rotation about an axis with a little scale and translation.
fn rigid(r: &mut Rng) -> M {
    let mut m = ID;
    for _ in 0..2 {
        let a = r.below(6284) as f32 / 1000.0;
        let (i, j) = *r.pick(&[(0, 1), (1, 2), (0, 2)]);
        let mut e = ID;
        e[i][i] = a.cos();
        e[j][j] = a.cos();
        e[i][j] = a.sin();
        e[j][i] = -a.sin();
        m = mul(&m, &e);
    }
    if r.chance(1, 2) {
        for k in 0..3 {
            let s = *r.pick(&[0.875f32, 1.0, 1.125]);
            m[k].iter_mut().for_each(|x| *x *= s);
        }
    }
    for k in 0..3 {
        m[3][k] = (r.below(801) as f32 - 400.0) / 1000.0;
    }
    m
}
/// Quarter turns, mirrors and scales by powers of two, with a translation: small and large.
fn axial(r: &mut Rng) -> M {
    let mut m = [[0.0; 4]; 4];
    let mut rows = [0, 1, 2];
    rows.swap(0, r.below(3));
    rows.swap(1, 1 + r.below(2));
    let all = r.below(7) as i32 - 3;
    for c in 0..3 {
        let k = if r.chance(1, 2) { all } else { r.below(7) as i32 - 3 };
        m[c][rows[c]] = 2f32.powi(k) * *r.pick(&[1.0, 1.0, -1.0]);
    }
    m[3][3] = 1.0;
    for k in 0..3 {
        m[3][k] = (r.below(2001) as f32 - 1000.0) / *r.pick(&[1.0, 64.0, 7.0]);
    }
    m
}
fn transform(r: &mut Rng, kind: usize) -> M {
    match kind {
        4 => axial(r),
        0 => {
            let n = r.below(3);
            unimodular(r, n)
        }
        1 => shift(r),
        2 => rigid(r),
        _ => crate::data::matrix(r, 0),
    }
}
fn event(kind: &str, d: &SkelData, regular: bool) -> Value {
    let lib = run(|| Skel::try_from(d).map(|s| tree(&s)));
    let worlds: Vec<Value> = d.bones.iter().map(|b| run(|| d.calculate_world_transform(b).map(|w| tree(&w)))).collect();
    let rt = match saved(|c| d.write(c), |c| SkelData::read(c)) {
        Ok(x) => ok(tree(&x)),
        Err(e) => e,
    };
    json!({"op": "d10", "kind": kind, "data": tree(d), "lib": lib, "worlds": worlds, "rt": rt, "regular": regular})
}
fn skeleton(r: &mut Rng, up: &[usize], kind: usize) -> SkelData {
    let n = up.len();
    let bones = up
        .iter()
        .map(|u| BoneData {
            name: name(r),
            transform: transform(r, kind),
            parent_index: if *u == 0 {
                None
            } else if *u > n {
                // absent: just past the end or far away
                Some(match r.below(6) {
                    0 => 32767,
                    1 => 32768 + r.below(n),
                    2 => 65535,
                    3 => 65536 + r.below(n),
                    4 => usize::MAX - r.below(2),
                    _ => u - 1,
                })
            } else {
                Some(u - 1)
            },
            billboard_type: billboard(r),
        })
        .collect();
    SkelData { major_version: 1, minor_version: 0, bones }
}
pub fn d10(out: &mut Out, r: &mut Rng, scen: &[Value], n: usize) {
    for s in scen {
        let up: Vec<usize> = s["up"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
        let d = skeleton(r, &up, r.clone().below(3) * 2);
        out.emit(event("MC_Skel", &d, true));
    }
    for i in 0..n {
        let k = match i % 4 {
            3 => r.some(40, 100, 300),
            _ => r.below(9),
        };
        // chains are kept short enough that numbers stay small
        let mut up = vec![0; k];
        let mut depth = vec![0; k];
        let mut order: Vec<usize> = (0..k).collect();
        for j in (1..k).rev() {
            order.swap(j, r.below(j + 1));
        }
        for j in 1..k {
            let p = r.below(j);
            if !r.chance(1, 6) && depth[order[p]] < 5 {
                up[order[j]] = order[p] + 1;
                depth[order[j]] = depth[order[p]] + 1;
            }
        }
        if k > 0 && r.chance(1, 8) {
            let j = r.below(k);
            up[j] = r.below(k) + 1;
        }
        let kind = *r.pick(&[0, 1, 2, 2, 3, 4, 4]);
        let mut d = skeleton(r, &up, kind);
        if r.chance(1, 12) {
            (d.major_version, d.minor_version) = *r.pick(&[(1, 1), (2, 0), (0, 0), (0, 1), (256, 0), (1, 256)]);
        }
        out.emit(event("random", &d, kind != 3));
    }
    for _ in 0..n {
        // the transform relative to a parent
        let kind = r.below(4);
        let parent = match kind {
            0 => None,
            1 => Some(ID),
            2 => Some(shift(r)),
            _ => {
                let k = *r.pick(&[0, 2]);
                Some(transform(r, k))
            }
        };
        let l = match kind {
            2 => shift(r),
            _ => {
                let k = *r.pick(&[0, 2]);
                transform(r, k)
            }
        };
        let w = match &parent {
            Some(p) => mul(p, &l),
            None => l,
        };
        let x = run(|| Ok::<_, String>(tree(&calculate_relative_transform(&w, parent.as_ref()))));
        let mut e = json!({"op": "d10rel", "kind": "relative transform", "w": tree(&w), "p": match &parent { None => json!([]), Some(p) => json!([tree(p)]) }, "r": x});
        if kind == 3 {
            e["case"] = json!("relative-noncommuting");
        }
        out.emit(e);
    }
    for _ in 0..n {
        let s: Skel = gen(r, &Cfg { len: 4, ascii: false, ..Default::default() });
        let x = run(|| Ok::<_, String>(tree(&SkelData::from(&s))));
        let t = tree(&s);
        out.emit(json!({"op": "d10file", "kind": "any file", "s": t["d"], "r": x}));
    }
}
