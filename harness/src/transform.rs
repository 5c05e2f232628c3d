//! Transforms, helpers of vectors and matrices, normals (D16).
use crate::data::{fl, matrix, vectors};
use crate::obs::*;
use crate::rng::Rng;
use crate::tree::tree;
use serde_json::{json, Value};
use ssbh_data::mesh_data::*;
use ssbh_lib::{Matrix3x3, Matrix4x4, Vector3, Vector4};

fn transformed(kind: &str, r: &mut Rng, d: &VectorData, m: &[[f32; 4]; 4]) -> Value {
    let points = r.chance(1, 2);
    let x = run(|| Ok::<_, String>(tree(&if points { transform_points(d, m) } else { transform_vectors(d, m) })));
    json!({"op": "d16", "kind": kind, "f": if points { "points" } else { "vectors" }, "data": tree(d), "m": tree(m), "r": x})
}
fn of_dim(dim: usize, p: &[Vec<f32>]) -> VectorData {
    match dim {
        2 => VectorData::Vector2(p.iter().map(|p| [p[0], p[1]]).collect()),
        3 => VectorData::Vector3(p.iter().map(|p| [p[0], p[1], p[2]]).collect()),
        _ => VectorData::Vector4(p.iter().map(|p| [p[0], p[1], p[2], p[3]]).collect()),
    }
}
fn arr<const N: usize>(r: &mut Rng) -> [f32; N] {
    let mode = *r.pick(&[0, 0, 3]);
    let mut a = [0.0; N];
    a.iter_mut().for_each(|x| *x = fl(r, mode));
    a
}
fn helpers(r: &mut Rng) -> Value {
    let a: [f32; 4] = arr(r);
    let mut b: [f32; 4] = arr(r);
    for k in 0..4 {
        if r.chance(1, 3) {
            b[k] = *r.pick(&[a[k], -a[k], f32::NAN]);
        }
    }
    let [x, y, z, w] = a;
    let m3: [[f32; 3]; 3] = [arr(r), arr(r), arr(r)];
    let m4: [[f32; 4]; 4] = [arr(r), arr(r), arr(r), arr(r)];
    let p = Vector3::new(x, y, z);
    let q = Vector4::new(x, y, z, w);
    let (p2, q2) = (Vector3::new(b[0], b[1], b[2]), Vector4::new(b[0], b[1], b[2], b[3]));
    let v = run(|| {
        Ok::<_, String>(json!({
            "v3": tree(&p), "v3_array": tree(&p.to_array()), "v3_from_array": tree(&Vector3::from([x, y, z])), "v3_from_tuple": tree(&Vector3::from((x, y, z))),
            "v3_into_array": tree(&<[f32; 3]>::from(p)), "v3_into_tuple": tree(&<(f32, f32, f32)>::from(p)), "v3_extend": tree(&p.extend(w)),
            "v3_min": tree(&p.min(p2)), "v3_max": tree(&p.max(p2)),
            "v4": tree(&q), "v4_array": tree(&q.to_array()), "v4_from_array": tree(&Vector4::from(a)), "v4_from_tuple": tree(&Vector4::from((x, y, z, w))),
            "v4_into_array": tree(&<[f32; 4]>::from(q)), "v4_into_tuple": tree(&<(f32, f32, f32, f32)>::from(q)), "v4_xyz": tree(&q.xyz()),
            "v4_min": tree(&q.min(q2)), "v4_max": tree(&q.max(q2)),
            "zero3": tree(&Vector3::ZERO), "one3": tree(&Vector3::new(1.0, 1.0, 1.0)), "zero4": tree(&Vector4::ZERO), "one4": tree(&Vector4::new(1.0, 1.0, 1.0, 1.0)),
            "m3_identity": tree(&Matrix3x3::identity()), "m3": tree(&Matrix3x3::from_cols_array(&m3)), "m3_cols": tree(&Matrix3x3::from_cols_array(&m3).to_cols_array()),
            "m4_identity": tree(&Matrix4x4::identity()), "m4": tree(&Matrix4x4::from_cols_array(&m4)), "m4_cols": tree(&Matrix4x4::from_cols_array(&m4).to_cols_array()),
        }))
    });
    json!({"op": "d16h", "kind": "helpers", "a": tree(&a), "b": tree(&b), "m3": tree(&m3), "m4": tree(&m4), "r": v})
}
fn counts(r: &mut Rng) -> Value {
    let n = r.below(5);
    let d = vectors(r, n, 0);
    let w = fl(r, 0);
    let mut o = MeshObjectData::default();
    let same = r.chance(1, 2);
    for k in 0..6 {
        for _ in 0..r.below(3) {
            let n = if same || r.chance(5, 6) { n } else { r.below(5) };
            let a = AttributeData { name: String::new(), data: vectors(r, n, 3) };
            [&mut o.positions, &mut o.normals, &mut o.binormals, &mut o.tangents, &mut o.texture_coordinates, &mut o.color_sets][k].push(a);
        }
    }
    let all: Vec<Value> = [&o.positions, &o.normals, &o.binormals, &o.tangents, &o.texture_coordinates, &o.color_sets].iter().flat_map(|l| l.iter().map(|a| tree(&a.data))).collect();
    let x = run(|| Ok::<_, String>(json!({"len": tree(&(d.len() as u64)), "empty": tree(&d.is_empty()), "vec4": tree(&d.to_vec4_with_w(w))})));
    json!({"op": "d16v", "kind": "counts", "data": tree(&d), "w": tree(&w), "attributes": all, "r": x, "count": run(|| o.vertex_count().map(|n| tree(&(n as u64))))})
}
fn normals(r: &mut Rng) -> Value {
    let n = r.some(7, 60, 100);
    let dim = 2 + r.below(3);
    let size = *r.pick(&[2, 3, 9]);
    let grid = |r: &mut Rng, dim: usize, n: usize| {
        let p: Vec<Vec<f32>> = (0..n).map(|_| (0..dim).map(|_| r.below(2 * size + 1) as f32 - size as f32).collect()).collect();
        of_dim(dim, &p)
    };
    let pos = grid(r, dim, n);
    let len = |r: &mut Rng| if r.chance(1, 8) { r.below(7) } else { n };
    let (a, b) = (len(r), len(r));
    let (nr, uv) = (vectors(r, a, 3), vectors(r, b, 3));
    let faces = if n == 0 { 0 } else { r.some(5, 60, 65) };
    let extra = if r.chance(1, 8) && n > 0 { r.below(3) } else { 0 };
    let idx: Vec<u32> = (0..3 * faces + extra).map(|_| r.below(n) as u32).collect();
    json!({"op": "d16n", "kind": "normals", "data": tree(&pos), "normals": tree(&nr)["d"], "uvs": tree(&uv)["d"], "idx": tree(&idx),
           "r": run(|| Ok::<_, String>(tree(&calculate_smooth_normals(&pos, &idx)))),
           "tangents": run(|| calculate_tangents_vec4(&pos, &nr, &uv, &idx).map(|t| tree(&t)))})
}
/// Small whole numbers only, for which the tangents are known.
fn tangents(r: &mut Rng) -> Value {
    let n = r.some(6, 30, 25);
    let grid = |r: &mut Rng, lo: i64, hi: i64| {
        let dim = 2 + r.below(3);
        let p: Vec<Vec<f32>> = (0..n).map(|_| (0..dim).map(|_| (lo + r.below((hi - lo + 1) as usize) as i64) as f32).collect()).collect();
        of_dim(dim, &p)
    };
    let top = *r.pick(&[1, 2, 2]);
    let (pos, nr, uv) = (grid(r, -2, 2), grid(r, -1, 1), grid(r, 0, top));
    let faces = if n == 0 { 0 } else { r.some(4, 50, 12) };
    let idx: Vec<u32> = (0..3 * faces).map(|_| r.below(n) as u32).collect();
    json!({"op": "d16n", "kind": "tangents", "data": tree(&pos), "normals": tree(&nr)["d"], "uvs": tree(&uv)["d"], "idx": tree(&idx),
           "r": run(|| Ok::<_, String>(tree(&calculate_smooth_normals(&pos, &idx)))),
           "tangents": run(|| calculate_tangents_vec4(&pos, &nr, &uv, &idx).map(|t| tree(&t)))})
}
pub fn d16(out: &mut Out, r: &mut Rng, scen: &[Value], n: usize) {
    let num = |x: &Value| x.as_i64().unwrap() as f32;
    for s in scen {
        let p: Vec<Vec<f32>> = s["pts"].as_array().unwrap().iter().map(|p| p.as_array().unwrap().iter().map(num).collect()).collect();
        let mut m = [[0.0; 4]; 4];
        (0..4).for_each(|c| (0..4).for_each(|k| m[c][k] = num(&s["m"][c][k])));
        let d = of_dim(s["dim"].as_u64().unwrap() as usize, &p);
        out.emit(transformed("MC_Transform", r, &d, &m));
    }
    for _ in 0..n {
        let k = if r.chance(1, 20) { 20 + r.some(60, 10, 300) } else { r.below(5) };
        let mode = *r.pick(&[0, 3, 3]);
        let d = vectors(r, k, mode);
        let m = match r.below(4) {
            0 => [arr(r), arr(r), arr(r), arr(r)],
            1 => { let mut m = matrix(r, 3); m[r.below(4)][r.below(4)] = fl(r, 0); m }
            _ => matrix(r, 3),
        };
        out.emit(transformed("random", r, &d, &m));
        out.emit(helpers(r));
        out.emit(counts(r));
        out.emit(normals(r));
        out.emit(tangents(r));
    }
}
