//! Very many of one thing: entries beyond the ranges of 8 and 16 bit counters. Every element is recorded as a number.
use crate::mesh::saved;
use crate::obs::*;
use crate::rng::Rng;
use crate::tree::tree;
use serde::Serialize;
use serde_json::{json, Value};
use ssbh_data::adj_data::{AdjData, AdjEntryData};
use ssbh_data::anim_data::{AnimData, GroupData, GroupType, NodeData, TrackData, TrackValues, Transform, UvTransform};
use ssbh_data::hlpb_data::HlpbData;
use ssbh_data::matl_data::{MatlData, MatlEntryData};
use ssbh_data::mesh_data::{transform_points, AttributeData, BoneInfluence, MeshData, MeshObjectData, VectorData, VertexWeight};
use ssbh_data::meshex_data::{EntryFlags, MeshExData, MeshObjectGroupData};
use ssbh_data::modl_data::ModlData;
use ssbh_data::skel_data::{BoneData, SkelData};
use ssbh_data::{Vector3, Vector4};
use ssbh_lib::formats::{anim::Anim, hlpb::Hlpb, mesh::Mesh, meshex::MeshEx};

fn number(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) >> 34
}
fn of<T: Serialize>(x: &T) -> u64 {
    number(&tree(x).to_string())
}
fn all<T: Serialize>(x: &[T]) -> Vec<u64> {
    x.iter().map(of).collect()
}
/// A whole value in parts.
fn parts<T: Serialize>(x: &T) -> Vec<u64> {
    tree(x).to_string().as_bytes().chunks(997).map(|c| number(&String::from_utf8_lossy(c))).collect()
}
fn done(out: &mut Out, op: &str, kind: &str, what: &str, n: usize, ins: Value, r: Result<Value, Value>, counts: Value) {
    let r = match r {
        Ok(v) => ok(v),
        Err(e) => e,
    };
    out.emit(json!({"op": "bulk", "prop": op, "kind": kind, "what": what, "n": n, "ins": ins, "r": r, "counts": counts}));
}
/// Around the ends of 8, 15 and 16 bits, and beyond.
fn sizes(r: &mut Rng) -> Vec<usize> {
    vec![*r.pick(&[257, 300, 513, 1025]), *r.pick(&[32_769, 40_001]), *r.pick(&[65_536, 65_537, 66_001, 70_000])]
}
macro_rules! lib {
    ($t:ty, $v:expr) => {{
        let v: &$t = $v;
        saved(|c| v.write(c), |c| <$t>::read(c))
    }};
}
/// ssbh_lib and its tables (L01, L07).
pub fn l01(out: &mut Out, r: &mut Rng) {
    for n in sizes(r) {
        let d = hlpb(r, n, n / 3);
        let h = Hlpb::from(&d);
        done(out, "l01", "many constraints", "same", n, json!(parts(&h)), lib!(Hlpb, &h).map(|x| json!(parts(&x))), json!([]));
    }
    let d = mesh_objects(66_001, (1, 9));
    if let Ok(m) = Mesh::try_from(&d) {
        done(out, "l01", "many objects", "same", 66_001, json!(parts(&m)), lib!(Mesh, &m).map(|x| json!(parts(&x))), json!([]));
    }
}
pub fn l07(out: &mut Out, r: &mut Rng) {
    for n in sizes(r) {
        let d = meshex(r, n);
        let m = MeshEx::from(&d);
        done(out, "l07", "many entries", "same", n, json!(parts(&m)), lib!(MeshEx, &m).map(|x| json!(parts(&x))), json!([]));
        let d = adj(r, n, 2);
        if let Ok(a) = ssbh_lib::formats::adj::Adj::try_from(&d) {
            done(out, "l07", "many adjacency entries", "same", n, json!(parts(&a)), lib!(ssbh_lib::formats::adj::Adj, &a).map(|x| json!(parts(&x))), json!([]));
        }
    }
}

// ------------------------------------------------------------------ meshes
fn mesh_objects(n: usize, version: (u16, u16)) -> MeshData {
    let objects = (0..n)
        .map(|i| MeshObjectData {
            name: format!("o{}", i / 2),
            subindex: (i % 2) as u64,
            parent_bone_name: if i % 3 == 0 { format!("b{i}") } else { String::new() },
            sort_bias: i as i32,
            vertex_indices: vec![0, 1, 0],
            positions: vec![AttributeData { name: "Position0".into(), data: VectorData::Vector3(vec![[i as f32, 1.0, -2.0], [0.5, i as f32, 3.0]]) }],
            bone_influences: if i % 5 == 0 { vec![BoneInfluence { bone_name: format!("w{i}"), vertex_weights: vec![VertexWeight { vertex_index: 1, vertex_weight: i as f32 }] }] } else { vec![] },
            ..Default::default()
        })
        .collect();
    MeshData { major_version: version.0, minor_version: version.1, objects }
}
/// One object with n vertices whose values every version stores exactly.
fn mesh_vertices(n: usize, version: (u16, u16)) -> MeshData {
    let small = |i: usize, k: usize| ((i * k) % 255) as f32 - 127.0;
    let o = MeshObjectData {
        name: "o".into(),
        vertex_indices: (0..n as u32).chain((0..n as u32).rev()).take(2 * n / 3 * 3).collect(),
        positions: vec![AttributeData { name: "Position0".into(), data: VectorData::Vector3((0..n).map(|i| [i as f32, small(i, 7), (i / 255) as f32]).collect()) }],
        normals: vec![AttributeData { name: "Normal0".into(), data: VectorData::Vector4((0..n).map(|i| [small(i, 3), small(i, 5), 1.0, -1.0]).collect()) }],
        texture_coordinates: vec![AttributeData { name: "map1".into(), data: VectorData::Vector2((0..n).map(|i| [small(i, 11), (i / 255) as f32]).collect()) }],
        bone_influences: vec![BoneInfluence { bone_name: "w".into(), vertex_weights: (0..n.min(65536) as u32).map(|i| VertexWeight { vertex_index: i, vertex_weight: i as f32 }).collect() }],
        ..Default::default()
    };
    MeshData { major_version: version.0, minor_version: version.1, objects: vec![o] }
}
/// One object with n attributes of each of three kinds.
fn many_attributes(n: usize, version: (u16, u16)) -> MeshData {
    let a = |name: &str, data: &dyn Fn(usize) -> VectorData| -> Vec<AttributeData> { (0..n).map(|i| AttributeData { name: format!("{name}{i}"), data: data(i) }).collect() };
    let o = MeshObjectData {
        name: "o".into(),
        vertex_indices: vec![0, 1, 0],
        positions: a("Position", &|i| VectorData::Vector3(vec![[i as f32, 1.0, -1.0], [0.5, 2.0, i as f32]])),
        normals: a("Normal", &|i| VectorData::Vector4(vec![[1.0, i as f32, 0.0, 1.0], [0.0, 1.0, i as f32, 1.0]])),
        texture_coordinates: a("uv", &|i| VectorData::Vector2(vec![[i as f32, 1.0], [0.5, i as f32]])),
        ..Default::default()
    };
    MeshData { major_version: version.0, minor_version: version.1, objects: vec![o] }
}
/// Several objects, most of them behind one with n vertices.
fn behind_each_other(r: &mut Rng, n: usize, version: (u16, u16)) -> MeshData {
    let mut d = mesh_vertices(n, version);
    for (i, m) in [3 + r.below(40), *r.pick(&[300, 20_000, 40_000]), 1 + r.below(9)].into_iter().enumerate() {
        let mut o = mesh_vertices(m, version).objects.remove(0);
        o.name = format!("o{i}");
        if r.chance(1, 3) {
            o.vertex_indices.truncate(o.vertex_indices.len() / 6 * 3);
        }
        if i == 0 && r.chance(1, 2) {
            d.objects.insert(0, o)
        } else {
            d.objects.push(o)
        }
    }
    d
}
fn rows(d: &VectorData) -> Vec<Vec<f32>> {
    match d {
        VectorData::Vector2(v) => v.iter().map(|x| x.to_vec()).collect(),
        VectorData::Vector3(v) => v.iter().map(|x| x.to_vec()).collect(),
        VectorData::Vector4(v) => v.iter().map(|x| x.to_vec()).collect(),
    }
}
fn vertices(o: &MeshObjectData) -> Vec<u64> {
    let l = |a: &[AttributeData]| a.iter().map(|a| rows(&a.data)).collect::<Vec<_>>();
    let lists: Vec<Vec<Vec<f32>>> = [l(&o.positions), l(&o.normals), l(&o.texture_coordinates)].concat();
    let n = lists.iter().map(|l| l.len()).max().unwrap_or(0);
    // -0 and 0 count as equal here; the fourth component of a normal may be missing
    (0..n).map(|i| number(&lists.iter().map(|l| l.get(i).map(|x| format!("{:?}", x[..x.len().min(3)].iter().map(|c| c + 0.0).collect::<Vec<f32>>()))).map(|x| x.unwrap_or_default()).collect::<String>())).collect()
}
const VERSIONS: [(u16, u16); 3] = [(1, 8), (1, 9), (1, 10)];
pub fn d01(out: &mut Out, r: &mut Rng) {
    for (i, n) in sizes(r).into_iter().enumerate() {
        let d = mesh_vertices(n, VERSIONS[i]);
        let of = |d: &MeshData| json!(d.objects.iter().flat_map(|o| [vertices(o), o.vertex_indices.iter().map(|x| *x as u64).collect()].concat()).collect::<Vec<_>>());
        done(out, "d01", "many vertices", "same", n, of(&d), lib!(MeshData, &d).map(|x| of(&x)), json!([]));
        let d = behind_each_other(r, n, VERSIONS[i]);
        done(out, "d01", "objects behind many vertices", "same", n, of(&d), lib!(MeshData, &d).map(|x| of(&x)), json!([]));
        let d = many_attributes(*r.pick(&[20, 25, 70, 300]), VERSIONS[i]);
        // version 1.8 files have no names; the fourth component of a normal may be missing
        let of = |d: &MeshData| {
            let o = &d.objects[0];
            let one = |a: &AttributeData| number(&format!("{} {:?}", if i == 0 { "" } else { &a.name }, rows(&a.data).iter().map(|x| x[..x.len().min(3)].to_vec()).collect::<Vec<_>>()));
            json!([&o.positions, &o.normals, &o.texture_coordinates].into_iter().flat_map(|l| l.iter().map(one).collect::<Vec<_>>()).collect::<Vec<_>>())
        };
        let parts = d.objects[0].positions.len();
        done(out, "d01", "many attributes", "same", parts, of(&d), lib!(MeshData, &d).map(|x| of(&x)), json!([]));
        // finding the influences of n objects takes n * n steps
        let n = n.min(3_000);
        let d = mesh_objects(n, VERSIONS[2 - i]);
        done(out, "d01", "many objects", "same", n, json!(names(&d)), lib!(MeshData, &d).map(|x| json!(names(&x))), json!([]));
    }
}
fn names(d: &MeshData) -> Vec<u64> {
    d.objects.iter().map(|o| number(&format!("{:?}", (&o.name, o.subindex, &o.parent_bone_name, o.sort_bias, &o.vertex_indices, rows(&o.positions[0].data))))).collect()
}
pub fn d03(out: &mut Out, r: &mut Rng) {
    for (i, n) in sizes(r).into_iter().enumerate() {
        let d = mesh_vertices(n, VERSIONS[i]);
        let lib = attempt(|| Mesh::try_from(&d));
        let counts = match &lib {
            Ok(m) => {
                let t = tree(m);
                let o = &t["d"]["objects"][0];
                json!([o["vertex_count"]])
            }
            Err(_) => json!([]),
        };
        done(out, "d03", "many vertices", "counts", n, json!([]), lib.map(|_| json!([])), counts);
        // where each object's part of every buffer begins, ends, and the length of the buffer
        let d = behind_each_other(r, n, VERSIONS[i]);
        let lib = attempt(|| Mesh::try_from(&d)).map(|m| {
            let t = tree(&m)["d"].clone();
            let num = |v: &Value| v.as_array().unwrap().iter().rev().fold(0u64, |a, b| a * 256 + b.as_u64().unwrap());
            let mut all = vec![];
            let os = t["objects"].as_array().unwrap();
            for b in 0..4 {
                let len = t["vertex_buffers"][b].as_array().map_or(0, |x| x.len()).max(t["vertex_buffers"][b]["bytes"].as_array().map_or(0, |x| x.len()));
                let parts: Vec<Value> = os.iter().map(|o| (num(&o[format!("vertex_buffer{b}_offset")]), num(&o["vertex_count"]) * num(&o[format!("stride{b}")]))).map(|(a, n)| json!([a, a + n])).collect();
                all.push(json!({"len": len, "parts": parts}));
            }
            let len = t["index_buffer"].as_array().map_or(0, |x| x.len()).max(t["index_buffer"]["bytes"].as_array().map_or(0, |x| x.len()));
            let parts: Vec<Value> = os.iter().map(|o| (num(&o["index_buffer_offset"]), num(&o["vertex_index_count"]) * if o["draw_element_type"]["v"] == "UnsignedShort" { 2 } else { 4 })).map(|(a, n)| json!([a, a + n])).collect();
            all.push(json!({"len": len, "parts": parts}));
            json!(all)
        });
        done(out, "d03", "objects behind many vertices", "regions", n, json!([]), lib, json!([]));
    }
}
pub fn d04(out: &mut Out, r: &mut Rng) {
    for n in sizes(r) {
        let mut d = mesh_vertices(n, VERSIONS[r.below(3)]);
        let p: Vec<[i32; 3]> = (0..n).map(|_| [0, 0, 0].map(|_| r.below(2001) as i32 - 1000)).collect();
        d.objects[0].positions[0].data = VectorData::Vector3(p.iter().map(|x| x.map(|c| c as f32)).collect());
        let lib = attempt(|| Mesh::try_from(&d));
        let t = lib.map(|m| tree(&m));
        for k in 0..3 {
            let axis = ["x", "y", "z"][k];
            let num = |v: &Value| f32::from_le_bytes(std::array::from_fn(|i| v[i].as_u64().unwrap() as u8)) as i64;
            let at = |o: &Value| json!([num(&o["bounding_volume"]["min"][axis]), num(&o["bounding_volume"]["max"][axis])]);
            let ins: Vec<i32> = p.iter().map(|p| p[k]).collect();
            done(out, "d04", "many positions", "bounds", n, json!(ins), t.clone().map(|t| at(&t["d"]["objects"][0]["bounding_info"])), json!([]));
        }
    }
}
pub fn d05(out: &mut Out, r: &mut Rng) {
    let weights = |d: &MeshData| -> Vec<u64> {
        d.objects.iter().flat_map(|o| o.bone_influences.iter().map(move |b| number(&format!("{:?}", (&o.name, o.subindex, b))))).collect()
    };
    for (i, n) in sizes(r).into_iter().enumerate() {
        let d = mesh_objects(n.min(3_000), VERSIONS[i]);
        done(out, "d05", "many objects", "same", n.min(3_000), json!(weights(&d)), lib!(MeshData, &d).map(|x| json!(weights(&x))), json!([]));
        let d = mesh_vertices(n, VERSIONS[2 - i]);
        let one = |d: &MeshData| all(&d.objects[0].bone_influences[0].vertex_weights);
        done(out, "d05", "many weights", "same", n, json!(one(&d)), lib!(MeshData, &d).map(|x| json!(one(&x))), json!([]));
        let mut d = mesh_vertices(n.min(65_536), VERSIONS[i]);
        d.objects[0].bone_influences = (0..n).map(|i| BoneInfluence { bone_name: format!("b{i}"), vertex_weights: vec![VertexWeight { vertex_index: (i % n.min(65_536)) as u32, vertex_weight: i as f32 }] }).collect();
        done(out, "d05", "many bones", "same", n, json!(weights(&d)), lib!(MeshData, &d).map(|x| json!(weights(&x))), json!([]));
        // the vertex with the most bones has them from the last ones
        d.objects[0].bone_influences.truncate(n.min(65_536));
        let most = [*r.pick(&[4, 127, 128]), 255, *r.pick(&[256, 257, 300, 512])][i].min(d.objects[0].bone_influences.len() - 6);
        for b in d.objects[0].bone_influences.iter_mut().rev().take(most) {
            b.vertex_weights[0].vertex_index = 5;
        }
        for b in d.objects[0].bone_influences.iter_mut().take(6) {
            b.vertex_weights[0].vertex_index = 6;
        }
        let most = most.max(6);
        let lib = attempt(|| Mesh::try_from(&d)).map(|m| tree(&m)["d"]["rigging_buffers"][0]["flags"]["max_influences"].clone());
        let counts = lib.as_ref().map_or(json!([]), |x| json!([x]));
        done(out, "d05", "most bones of a vertex", "most", most, json!([]), lib.map(|_| json!([])), counts);
    }
}
pub fn d16(out: &mut Out, r: &mut Rng) {
    for n in sizes(r) {
        let p: Vec<[i32; 3]> = (0..n).map(|_| [0, 0, 0].map(|_| r.below(2001) as i32 - 1000)).collect();
        let d = VectorData::Vector3(p.iter().map(|x| x.map(|c| c as f32)).collect());
        let m = [[2.0, 0.0, 0.0, 0.0], [0.0, 2.0, 0.0, 0.0], [0.0, 0.0, 2.0, 0.0], [5.0, 5.0, 5.0, 1.0]];
        let x = attempt(|| Ok::<_, String>(transform_points(&d, &m)));
        let ins: Vec<i32> = p.concat();
        done(out, "d16", "many points", "scaled", n, json!(ins), x.map(|x| json!(rows(&x).concat().iter().map(|c| *c as i64).collect::<Vec<_>>())), json!([]));
    }
}

// ------------------------------------------------------------------ animations
fn anim(groups: Vec<GroupData>, last: usize, i: usize) -> AnimData {
    AnimData { major_version: 2, minor_version: (i % 2) as u16, final_frame_index: last as f32, groups }
}
fn frames(k: usize, n: usize) -> TrackValues {
    let b = |i: usize, m: usize| if (i * i / m) % 2 == 0 { -1.0f32 } else { 1.0 };
    match k {
        0 => TrackValues::Transform(
            (0..n)
                .map(|i| Transform {
                    scale: Vector3::new(b(i, 3), b(i, 5), b(i, 7)),
                    rotation: if i % 3 == 0 { Vector4::new(1.0, 0.0, 0.0, 0.0) } else { Vector4::new(0.0, 0.0, -1.0, 0.0) },
                    translation: Vector3::new(b(i, 11), b(i, 13), b(i, 17)),
                })
                .collect(),
        ),
        1 => TrackValues::UvTransform((0..n).map(|i| UvTransform { scale_u: b(i, 3), scale_v: b(i, 5), rotation: b(i, 7), translate_u: b(i, 11), translate_v: b(i, 13) }).collect()),
        2 => TrackValues::Float((0..n).map(|i| b(i, 3)).collect()),
        3 => TrackValues::PatternIndex((0..n).map(|i| i as u32).collect()),
        4 => TrackValues::Boolean((0..n).map(|i| b(i, 3) > 0.0).collect()),
        _ => TrackValues::Vector4((0..n).map(|i| Vector4::new(b(i, 3), b(i, 5), b(i, 7), b(i, 11))).collect()),
    }
}
/// All frames are the same but one.
fn one_differs(k: usize, n: usize, at: usize) -> TrackValues {
    let b = |i: usize, x: f32, y: f32| if i == at { y } else { x };
    match k {
        0 => TrackValues::Transform(
            (0..n)
                .map(|i| Transform {
                    scale: Vector3::new(1.0, b(i, 1.0, -1.0), b(i, 1.0, 0.0)),
                    rotation: Vector4::new(b(i, 0.0, 1.0), 0.0, 0.0, b(i, 1.0, 0.0)),
                    translation: Vector3::new(0.0, b(i, 1.0, -1.0), b(i, -1.0, 1.0)),
                })
                .collect(),
        ),
        1 => TrackValues::UvTransform((0..n).map(|i| UvTransform { scale_u: b(i, 1.0, -1.0), scale_v: 1.0, rotation: b(i, 0.0, 1.0), translate_u: b(i, 1.0, 0.0), translate_v: b(i, 0.0, -1.0) }).collect()),
        2 => TrackValues::Float((0..n).map(|i| b(i, 1.0, -1.0)).collect()),
        3 => TrackValues::PatternIndex((0..n).map(|i| b(i, 3.0, 70_000.0) as u32).collect()),
        4 => TrackValues::Boolean((0..n).map(|i| i == at).collect()),
        _ => TrackValues::Vector4((0..n).map(|i| Vector4::new(1.0, b(i, 1.0, -1.0), b(i, 0.0, 1.0), b(i, -1.0, 1.0))).collect()),
    }
}
/// Numbers in thousandths: all that is stored here are -1, 0 and 1.
fn values(v: &TrackValues) -> Vec<u64> {
    let t = |x: f32| (x * 1000.0).round() as i64;
    let f = |x: Vec<f32>| number(&format!("{:?}", x.into_iter().map(t).collect::<Vec<_>>()));
    match v {
        TrackValues::Transform(v) => v.iter().map(|x| f(vec![x.scale.x, x.scale.y, x.scale.z, x.rotation.x, x.rotation.y, x.rotation.z, x.rotation.w, x.translation.x, x.translation.y, x.translation.z])).collect(),
        TrackValues::UvTransform(v) => v.iter().map(|x| f(vec![x.scale_u, x.scale_v, x.rotation, x.translate_u, x.translate_v])).collect(),
        TrackValues::Float(v) => v.iter().map(|x| f(vec![*x])).collect(),
        TrackValues::PatternIndex(v) => v.iter().map(|x| *x as u64).collect(),
        TrackValues::Boolean(v) => v.iter().map(|x| *x as u64).collect(),
        TrackValues::Vector4(v) => v.iter().map(|x| f(vec![x.x, x.y, x.z, x.w])).collect(),
    }
}
fn track(name: String, values: TrackValues) -> TrackData {
    TrackData { name, compensate_scale: false, transform_flags: Default::default(), values }
}
pub fn anims(out: &mut Out, r: &mut Rng, op: &str) {
    for (i, n) in sizes(r).into_iter().enumerate() {
        for k in 0..12 {
            let v = if k < 6 { frames(k, n) } else { one_differs(k - 6, n, if k % 2 == 0 { n - 1 } else { r.below(n) }) };
            let d = anim(vec![GroupData { group_type: GroupType::Transform, nodes: vec![NodeData { name: "n".into(), tracks: vec![track("t".into(), v.clone())] }] }], n - 1, i + k);
            if op == "d06" {
                done(out, op, "many frames", "same", n, json!(values(&v)), lib!(AnimData, &d).map(|x| json!(values(&x.groups[0].nodes[0].tracks[0].values))), json!([]));
            } else {
                let lib = attempt(|| Anim::try_from(&d));
                let counts = match &lib {
                    Ok(a) => json!([tree(a)["d"]["groups"][0]["nodes"][0]["tracks"][0]["frame_count"]]),
                    Err(_) => json!([]),
                };
                let counts = if counts[0].is_null() { json!([]) } else { counts };
                done(out, op, "many frames", "counts", n, json!([]), lib.map(|_| json!([])), counts);
            }
        }
        if op == "d06" {
            let t = |i: usize| track(format!("t{i}"), TrackValues::PatternIndex(vec![i as u32; 1 + i % 2]));
            let d = anim(vec![GroupData { group_type: GroupType::Material, nodes: vec![NodeData { name: "n".into(), tracks: (0..n).map(t).collect() }] }], 1, i);
            let flat = |d: &AnimData| -> Vec<u64> {
                d.groups.iter().flat_map(|g| g.nodes.iter().flat_map(move |m| m.tracks.iter().map(move |t| number(&format!("{:?}", (g.group_type, &m.name, &t.name, t.values.len().min(1), values(&t.values)[0])))))).collect()
            };
            done(out, op, "many tracks", "same", n, json!(flat(&d)), lib!(AnimData, &d).map(|x| json!(flat(&x))), json!([]));
            let d = anim(vec![GroupData { group_type: GroupType::Camera, nodes: (0..n).map(|i| NodeData { name: format!("n{i}"), tracks: vec![t(i)] }).collect() }], 1, i);
            done(out, op, "many nodes", "same", n, json!(flat(&d)), lib!(AnimData, &d).map(|x| json!(flat(&x))), json!([]));
            let d = anim((0..n).map(|i| GroupData { group_type: crate::data::GROUP_TYPES[i % 4], nodes: vec![NodeData { name: format!("n{i}"), tracks: vec![t(i)] }] }).collect(), 1, i);
            done(out, op, "many groups", "same", n, json!(flat(&d)), lib!(AnimData, &d).map(|x| json!(flat(&x))), json!([]));
        }
    }
}

pub fn d09(out: &mut Out, r: &mut Rng) {
    for n in sizes(r) {
        let k = r.below(6);
        for last in [n - 1, n - 2] {
            let mut d = anim(vec![GroupData { group_type: GroupType::Transform, nodes: vec![NodeData { name: "n".into(), tracks: vec![track("a".into(), frames(k, 1)), track("b".into(), frames(k, n))] }] }], last, 0);
            if r.chance(1, 3) {
                d.final_frame_index = (last as f32) + 0.25;
            }
            let lib = attempt(|| Anim::try_from(&d)).map(|_| json!([]));
            done(out, "d09", "many frames", if last == n - 1 { "counts" } else { "refused" }, n, json!([]), lib, json!([]));
        }
    }
}

// ------------------------------------------------------------------ the others
pub fn d10(out: &mut Out, r: &mut Rng) {
    for n in [*r.pick(&[257, 300, 600]), *r.pick(&[32_767, 32_768])] {
        let bones = (0..n)
            .map(|i| BoneData {
                name: format!("b{i}"),
                transform: [[1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [i as f32, 0.0, 0.0, 1.0]],
                parent_index: if i == 0 { None } else { Some(if i % 7 == 0 { n - i } else { (i - 1) / 2 }) },
                billboard_type: crate::data::billboard(r),
            })
            .collect::<Vec<_>>();
        // no cycles: those with a parent behind them get one in front instead
        let bones: Vec<BoneData> = bones.into_iter().enumerate().map(|(i, mut b)| { if b.parent_index.is_some_and(|p| p >= i) { b.parent_index = Some(i / 2) } b }).collect();
        let d = SkelData { major_version: 1, minor_version: 0, bones };
        done(out, "d10", "many bones", "same", n, json!(all(&d.bones)), lib!(SkelData, &d).map(|x| json!(all(&x.bones))), json!([]));
    }
    // every bone is stored with its own number
    {
        let n = *r.pick(&[33_000, 40_000, 65_536]);
        let d = SkelData {
            major_version: 1,
            minor_version: 0,
            bones: (0..n)
                .map(|i| BoneData {
                    name: format!("b{i}"),
                    transform: [[1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [1.0, 0.0, 0.0, 1.0]],
                    parent_index: if i == 0 { None } else { Some(i % 5) }.filter(|p| *p < i),
                    billboard_type: crate::data::billboard(r),
                })
                .collect(),
        };
        let stored = attempt(|| ssbh_lib::formats::skel::Skel::try_from(&d)).map(|s| {
            let t = tree(&s)["d"]["bone_entries"].clone();
            let x = |b: &Value| b["index"][0].as_u64().unwrap() + 256 * b["index"][1].as_u64().unwrap();
            json!(t.as_array().unwrap().iter().map(x).collect::<Vec<_>>())
        });
        done(out, "d10", "the numbers of the bones", "same", n, json!((0..n).collect::<Vec<_>>()), stored, json!([]));
    }
    // a parent at the last index that can be stored, and one beyond it
    for last in [32_767, *r.pick(&[32_768, 32_769, 40_000, 65_535, 65_536])] {
        let mut d = SkelData {
            major_version: 1,
            minor_version: 0,
            bones: (0..last + 2)
                .map(|i| BoneData {
                    name: format!("b{i}"),
                    transform: [[1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [i as f32, 0.0, 0.0, 1.0]],
                    parent_index: if i == 0 { None } else { Some(i.min(32_767) - 1) },
                    billboard_type: crate::data::billboard(r),
                })
                .collect(),
        };
        for b in d.bones.iter_mut() {
            // near the root, so that the world transforms are quickly found
            b.parent_index = b.parent_index.map(|p| p / 2);
        }
        let at = *r.pick(&[0, 1, last / 2, last + 1]);
        d.bones[at].parent_index = Some(last);
        if at <= last / 2 {
            d.bones[last].parent_index = None;
        }
        done(out, "d10", "a parent far back", if last == 32_767 { "same" } else { "refused" }, last + 2, json!(all(&d.bones)), lib!(SkelData, &d).map(|x| json!(all(&x.bones))), json!([]));
    }
    // bones far below their root, in any order, and the same with a cycle on top
    for (n, straight) in [(*r.pick(&[65, 100, 130]), 1), (*r.pick(&[257, 300, 520]), 1), (*r.pick(&[300, 600, 1100, 1300]), 0)] {
        let mut order: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            order.swap(i, r.below(i + 1));
        }
        let own: Vec<i32> = (0..n).map(|_| r.below(21) as i32 - 10).collect();
        let mut up: Vec<Option<usize>> = vec![None; n];
        for (k, &i) in order.iter().enumerate().skip(1) {
            // the last one is a single chain, but for its end
            let branch = if straight == 0 { k > n - n / 16 && r.chance(1, 2) } else { r.chance(1, 20) };
            up[i] = Some(if branch { order[r.below(k)] } else { order[k - 1] });
        }
        let mut d = SkelData {
            major_version: 1,
            minor_version: 0,
            bones: (0..n)
                .map(|i| BoneData {
                    name: format!("b{i}"),
                    transform: [[1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [own[i] as f32, 0.0, 0.0, 1.0]],
                    parent_index: up[i],
                    billboard_type: crate::data::billboard(r),
                })
                .collect(),
        };
        let worlds = |d: &SkelData| attempt(|| d.bones.iter().map(|b| d.calculate_world_transform(b)).collect::<Result<Vec<_>, _>>());
        let ins: Vec<Value> = (0..n).map(|i| json!({"up": up[i].map_or(0, |p| p + 1), "own": own[i]})).collect();
        done(out, "d10", "bones in a chain", "sums", n, json!(ins), worlds(&d).map(|w| json!(w.iter().map(|w| w[3][0] as i32).collect::<Vec<_>>())), json!([]));
        let stored = attempt(|| ssbh_lib::formats::skel::Skel::try_from(&d)).map(|s| {
            let t = tree(&s)["d"].clone();
            let x = |m: &Value| { let b = &m["col4"]["x"]; f32::from_le_bytes(std::array::from_fn(|i| b[i].as_u64().unwrap() as u8)) as i32 };
            json!(t["world_transforms"].as_array().unwrap().iter().map(x).collect::<Vec<_>>())
        });
        done(out, "d10", "bones in a chain", "sums", n, json!(ins), stored, json!([]));
        let low = *r.pick(&[order[n - 1], order[n / 2], order[1]]);
        d.bones[order[0]].parent_index = Some(low);
        done(out, "d10", "bones below a cycle", "refused", n, json!([]), attempt(|| d.calculate_world_transform(&d.bones[order[0]])).map(|_| json!([])), json!([]));
        done(out, "d10", "bones below a cycle", "refused", n, json!([]), attempt(|| ssbh_lib::formats::skel::Skel::try_from(&d)).map(|_| json!([])), json!([]));
    }
}
pub fn d11(out: &mut Out, r: &mut Rng) {
    for n in sizes(r) {
        let entries = (0..n).map(|i| MatlEntryData { material_label: format!("m{i}"), shader_label: format!("s{}", i / 3), ..crate::gen::gen(r, &crate::gen::Cfg { len: 1, floats: 2, budget: 3, ..Default::default() }) }).collect();
        let d = MatlData { major_version: 1, minor_version: 6, entries };
        done(out, "d11", "many materials", "same", n, json!(all(&d.entries)), lib!(MatlData, &d).map(|x| json!(all(&x.entries))), json!([]));
    }
}
fn hlpb(r: &mut Rng, a: usize, o: usize) -> HlpbData {
    let c = crate::gen::Cfg { floats: 2, slen: 3, ascii: true, ..Default::default() };
    HlpbData { major_version: 1, minor_version: 1, aim_constraints: (0..a).map(|_| crate::gen::gen(r, &c)).collect(), orient_constraints: (0..o).map(|_| crate::gen::gen(r, &c)).collect() }
}
pub fn d12(out: &mut Out, r: &mut Rng) {
    for n in sizes(r) {
        let d = hlpb(r, n, n + 1);
        let both = |d: &HlpbData| [all(&d.aim_constraints), all(&d.orient_constraints)].concat();
        done(out, "d12", "many constraints", "same", n, json!(both(&d)), lib!(HlpbData, &d).map(|x| json!(both(&x))), json!([]));
        let t = attempt(|| Ok::<_, String>(tree(&Hlpb::from(&d))));
        let int = |v: &Value| v.as_array().unwrap().iter().rev().fold(0u64, |a, x| a << 8 | x.as_u64().unwrap());
        let ints = |v: &Value| v.as_array().unwrap().iter().map(int).collect::<Vec<_>>();
        done(out, "d12", "constraint indices", "indices", n, json!([n, n + 1]), t.map(|t| json!(ints(&t["d"]["constraint_indices"]))), json!([]));
        let mut d: ModlData = crate::gen::gen(r, &crate::gen::Cfg { len: 1, ..Default::default() });
        (d.major_version, d.minor_version) = (1, 7);
        d.entries = (0..n).map(|i| ssbh_data::modl_data::ModlEntryData { mesh_object_name: format!("o{i}"), mesh_object_subindex: i as u64, material_label: format!("m{}", i % 9) }).collect();
        done(out, "d12", "many model entries", "same", n, json!(all(&d.entries)), lib!(ModlData, &d).map(|x| json!(all(&x.entries))), json!([]));
    }
}
fn adj(r: &mut Rng, n: usize, len: usize) -> AdjData {
    AdjData { entries: (0..n).map(|i| AdjEntryData { mesh_object_index: i, vertex_adjacency: (0..(i % 3) * len).map(|_| r.next() as i16).collect() }).collect() }
}
pub fn d13(out: &mut Out, r: &mut Rng) {
    for n in sizes(r) {
        let d = adj(r, n, 2);
        done(out, "d13", "many entries", "same", n, json!(all(&d.entries)), lib!(AdjData, &d).map(|x| json!(all(&x.entries))), json!([]));
        let d = adj(r, 3, n);
        let flat = |d: &AdjData| d.entries.iter().flat_map(|e| e.vertex_adjacency.iter().map(|x| *x as i64 + 32768).chain([70_000])).collect::<Vec<_>>();
        done(out, "d13", "long lists", "same", n, json!(flat(&d)), lib!(AdjData, &d).map(|x| json!(flat(&x))), json!([]));
    }
}
fn meshex(r: &mut Rng, n: usize) -> MeshExData {
    MeshExData {
        mesh_object_groups: (0..n)
            .map(|i| MeshObjectGroupData {
                bounding_sphere: ssbh_lib::formats::mesh::BoundingSphere { center: Vector3::new(i as f32, 0.0, 0.0), radius: 1.0 },
                mesh_object_full_name: format!("o{i}_VIS"),
                mesh_object_name: format!("o{i}"),
                entry_flags: (0..i % 3).map(|_| EntryFlags { draw_model: r.chance(1, 2), cast_shadow: r.chance(1, 2) }).collect(),
            })
            .collect(),
    }
}
pub fn d14(out: &mut Out, r: &mut Rng) {
    // collecting the entries of n groups takes n * n steps
    for n in [*r.pick(&[257, 300, 1025]), *r.pick(&[5_000, 6_000])] {
        let d = meshex(r, n);
        done(out, "d14", "many groups", "same", n, json!(all(&d.mesh_object_groups)), lib!(MeshExData, &d).map(|x| json!(all(&x.mesh_object_groups))), json!([]));
    }
    for n in sizes(r) {
        let mut d = meshex(r, 3);
        d.mesh_object_groups[1].entry_flags = (0..n).map(|_| EntryFlags { draw_model: r.chance(1, 2), cast_shadow: r.chance(1, 2) }).collect();
        let flags = |d: &MeshExData| d.mesh_object_groups.iter().flat_map(|g| g.entry_flags.iter().map(|f| f.draw_model as u64 + 2 * f.cast_shadow as u64).chain([9])).collect::<Vec<_>>();
        done(out, "d14", "many entries", "same", n, json!(flags(&d)), lib!(MeshExData, &d).map(|x| json!(flags(&x))), json!([]));
    }
}
