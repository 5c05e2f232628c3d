//! Saving of any data: accepted or refused, never a crash (D22).
use crate::data::{self, AnimCfg, MeshCfg};
use crate::gen::{f32_any, gen, Cfg};
use crate::low::{file_tree, read_file};
use crate::obs::*;
use crate::rng::Rng;
use crate::stable::Any;
use crate::tree::tree;
use serde::Serialize;
use serde_json::{json, Value};
use ssbh_data::adj_data::AdjEntryData;
use ssbh_data::anim_data::TrackValues;
use ssbh_data::mesh_data::{AttributeData, VectorData};
use ssbh_data::prelude::*;
use ssbh_data::SsbhData;
use ssbh_lib::formats::{adj::Adj, anim::Anim, hlpb::Hlpb, matl::Matl, mesh::Mesh, meshex::MeshEx, modl::Modl, skel::Skel};
use std::io::Cursor;

pub fn usual(r: &mut Rng, k: usize) -> Any {
    let c = Cfg { floats: 1, ..crate::low::vary(r, false) };
    let mode = r.below(6) as u8;
    match k {
        0 => {
            let mc = MeshCfg::vary(r, mode);
            let version = *r.pick(&[(1, 8), (1, 9), (1, 10)]);
            Any::Mesh(data::mesh(r, &mc, version))
        }
        1 => {
            let n = r.below(7);
            Any::Skel(data::skel(r, n, mode))
        }
        2 => {
            let ac = AnimCfg::vary(r, mode);
            let minor = r.below(2) as u16;
            Any::Anim(data::anim(r, &ac, (2, minor)))
        }
        3 => {
            let mut m = data::matl(r, &c);
            m.minor_version = *r.pick(&[5, 6]);
            Any::Matl(m)
        }
        4 => Any::Modl(gen(r, &c)),
        5 => Any::Hlpb(gen(r, &c)),
        6 => Any::Adj(AdjData {
            entries: (0..r.below(6))
                .map(|i| AdjEntryData { mesh_object_index: i * 3, vertex_adjacency: (0..r.below(9)).map(|_| r.next() as i16).collect() })
                .collect(),
        }),
        _ => Any::MeshEx(data::meshex(r, &c)),
    }
}
/// Any value of the type, with nothing that fits together.
fn arbitrary(r: &mut Rng, a: &Any) -> Any {
    let c = Cfg { floats: 0, budget: 250, ..crate::low::vary(r, false) };
    match a {
        Any::Mesh(d) => Any::Mesh(MeshData { major_version: d.major_version, minor_version: d.minor_version, ..gen(r, &c) }),
        Any::Skel(_) => {
            let mut s = SkelData { major_version: 1, minor_version: 0, ..gen(r, &c) };
            let n = s.bones.len();
            for b in &mut s.bones {
                if r.chance(3, 4) {
                    b.parent_index = if r.chance(1, 4) { None } else { Some(r.below(n + 1)) };
                }
            }
            Any::Skel(s)
        }
        Any::Anim(d) => Any::Anim(AnimData { major_version: 2, minor_version: d.minor_version, final_frame_index: if r.chance(1, 2) { 100.0 } else { f32_any(r, 0) }, ..gen(r, &c) }),
        Any::Matl(d) => Any::Matl(MatlData { major_version: 1, minor_version: d.minor_version, ..gen(r, &c) }),
        Any::Modl(_) => Any::Modl(gen(r, &c)),
        Any::Hlpb(_) => Any::Hlpb(gen(r, &c)),
        Any::Adj(_) => Any::Adj(gen(r, &c)),
        Any::MeshEx(_) => Any::MeshEx(gen(r, &c)),
    }
}
fn version(r: &mut Rng) -> (u16, u16) {
    (*r.pick(&[0, 1, 1, 2, 2, 3, 257, 65535]), *r.pick(&[0, 1, 2, 5, 6, 7, 8, 9, 10, 11, 264, 65535]))
}
fn floats(v: &mut VectorData) -> Vec<&mut f32> {
    match v {
        VectorData::Vector2(v) => v.iter_mut().flatten().collect(),
        VectorData::Vector3(v) => v.iter_mut().flatten().collect(),
        VectorData::Vector4(v) => v.iter_mut().flatten().collect(),
    }
}
fn cut(v: &mut VectorData, more: bool) {
    macro_rules! on {
        ($v:expr, $x:expr) => {
            if more { $v.push($x) } else { $v.pop(); }
        };
    }
    match v {
        VectorData::Vector2(v) => on!(v, [0.5; 2]),
        VectorData::Vector3(v) => on!(v, [0.5; 3]),
        VectorData::Vector4(v) => on!(v, [0.5; 4]),
    }
}
fn attributes(o: &mut ssbh_data::mesh_data::MeshObjectData) -> Vec<&mut AttributeData> {
    let mut v: Vec<&mut AttributeData> = vec![];
    for l in [&mut o.positions, &mut o.normals, &mut o.binormals, &mut o.tangents, &mut o.texture_coordinates, &mut o.color_sets] {
        v.extend(l.iter_mut());
    }
    v
}
/// What can be wrong (or unusual) with a value; nothing happens where it does not apply.
fn fault(r: &mut Rng, a: Any, how: &str) -> Any {
    if how == "arbitrary" {
        return arbitrary(r, &a);
    }
    let v = version(r);
    let mut a = a;
    let mut extreme = |r: &mut Rng| *r.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, -0.0]);
    match &mut a {
        Any::Mesh(d) => {
            if how == "version" {
                (d.major_version, d.minor_version) = v;
            }
            let n = d.objects.len();
            if n == 0 {
                return a;
            }
            let k = r.below(n);
            if how == "twin" {
                let o = d.objects[k].clone();
                let at = r.below(n + 1);
                d.objects.insert(at, o);
                return a;
            }
            let o = &mut d.objects[k];
            match how {
                "faces" => (0..1 + r.below(2)).for_each(|_| o.vertex_indices.push(0)),
                "range" => {
                    let c = o.vertex_count().unwrap_or(3) as u32;
                    if !o.vertex_indices.is_empty() {
                        let i = r.below(o.vertex_indices.len());
                        o.vertex_indices[i] = *r.pick(&[c, c + 1, 65536, u32::MAX]);
                    }
                }
                "lengths" => {
                    let mut l = attributes(o);
                    if !l.is_empty() {
                        let i = r.below(l.len());
                        cut(&mut l[i].data, r.chance(1, 2));
                    }
                }
                "weights" => {
                    for b in &mut o.bone_influences {
                        if !b.vertex_weights.is_empty() {
                            let i = r.below(b.vertex_weights.len());
                            b.vertex_weights[i].vertex_index = *r.pick(&[65535, 65536, u32::MAX]);
                            b.vertex_weights[i].vertex_weight = extreme(r);
                        }
                    }
                }
                "numbers" => {
                    for t in attributes(o) {
                        for f in floats(&mut t.data) {
                            if r.chance(1, 3) {
                                *f = extreme(r);
                            }
                        }
                    }
                }
                "empty" => {
                    for t in attributes(o) {
                        t.data = VectorData::Vector3(vec![]);
                    }
                    if r.chance(1, 2) {
                        o.vertex_indices.clear();
                    }
                }
                _ => {}
            }
        }
        Any::Skel(d) => {
            let n = d.bones.len();
            match how {
                "version" => (d.major_version, d.minor_version) = v,
                _ if n == 0 => {}
                "twin" => {
                    let k = r.below(n);
                    d.bones[k].parent_index = Some(r.below(n));
                }
                "range" => {
                    let k = r.below(n);
                    d.bones[k].parent_index = Some(*r.pick(&[n, n + 1, 32767, 32768, 65535, 65536, usize::MAX, k]));
                }
                "numbers" => {
                    let k = r.below(n);
                    d.bones[k].transform.iter_mut().flatten().for_each(|f| {
                        if r.chance(1, 3) {
                            *f = extreme(r);
                        }
                    });
                }
                "empty" => d.bones.iter_mut().for_each(|b| b.transform = [[0.0; 4]; 4]),
                _ => {}
            }
        }
        Any::Anim(d) => {
            let last = d.final_frame_index;
            let mut ts: Vec<&mut ssbh_data::anim_data::TrackData> = d.groups.iter_mut().flat_map(|g| &mut g.nodes).flat_map(|n| &mut n.tracks).collect();
            match how {
                "version" => (d.major_version, d.minor_version) = v,
                "range" => d.final_frame_index = *r.pick(&[-1.0, -0.0, 0.0, last - 1.0, last - 0.5, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, 1e-45]),
                "numbers" => {
                    for t in &mut ts {
                        match &mut t.values {
                            TrackValues::Float(v) => v.iter_mut().for_each(|x| *x = extreme(r)),
                            TrackValues::Vector4(v) => v.iter_mut().for_each(|x| x.w = extreme(r)),
                            TrackValues::Transform(v) => v.iter_mut().for_each(|x| {
                                x.translation.y = extreme(r);
                                x.rotation.z = extreme(r);
                                x.scale.x = extreme(r);
                            }),
                            TrackValues::UvTransform(v) => v.iter_mut().for_each(|x| {
                                x.rotation = extreme(r);
                                x.scale_u = extreme(r)
                            }),
                            TrackValues::PatternIndex(v) => v.iter_mut().for_each(|x| *x = r.next() as u32),
                            TrackValues::Boolean(_) => {}
                        }
                    }
                }
                "empty" => {
                    for t in &mut ts {
                        t.values = [TrackValues::Float(vec![]), TrackValues::Boolean(vec![]), TrackValues::Transform(vec![]), TrackValues::Vector4(vec![])][r.below(4)].clone();
                    }
                }
                "lengths" => {
                    for t in &mut ts {
                        if let TrackValues::Boolean(v) = &mut t.values {
                            v.push(true);
                        } else if r.chance(1, 4) {
                            t.values = TrackValues::Boolean(vec![false; 1 + r.below(40)]);
                        }
                    }
                }
                _ => {}
            }
        }
        Any::Matl(d) => {
            if how == "version" {
                (d.major_version, d.minor_version) = v;
            }
            for e in &mut d.entries {
                match how {
                    "numbers" => {
                        e.floats.iter_mut().for_each(|f| f.data = extreme(r));
                        e.samplers.iter_mut().for_each(|f| f.data.lod_bias = extreme(r));
                        e.rasterizer_states.iter_mut().for_each(|f| f.data.depth_bias = extreme(r));
                    }
                    "twin" => {
                        e.vectors.extend(e.vectors.clone());
                        e.blend_states.extend(e.blend_states.clone());
                    }
                    "empty" => {
                        e.textures.clear();
                        e.samplers.clear();
                    }
                    _ => {}
                }
            }
        }
        Any::Modl(d) => {
            if how == "version" {
                (d.major_version, d.minor_version) = v;
            }
        }
        Any::Hlpb(d) => {
            if how == "version" {
                (d.major_version, d.minor_version) = v;
            }
        }
        Any::Adj(d) => {
            let n = d.entries.len();
            if n > 0 {
                let k = r.below(n);
                match how {
                    "range" => d.entries[k].mesh_object_index = *r.pick(&[u32::MAX as usize, u32::MAX as usize + 1, usize::MAX, 1 << 31]),
                    "twin" => d.entries[k].mesh_object_index = d.entries[0].mesh_object_index,
                    "empty" => d.entries[k].vertex_adjacency.clear(),
                    _ => {}
                }
            }
        }
        Any::MeshEx(d) => {
            for g in &mut d.mesh_object_groups {
                match how {
                    "numbers" => {
                        g.bounding_sphere.radius = extreme(r);
                        g.bounding_sphere.center.y = extreme(r);
                    }
                    "empty" => g.entry_flags.clear(),
                    _ => {}
                }
            }
        }
    }
    a
}
fn low(fmt: &str, b: &[u8]) -> Value {
    let t = match fmt {
        "Adj" => return attempt(|| Adj::read(&mut Cursor::new(b))).map_or_else(|e| e, |_| ok(json!({"fmt": "Adj", "ver": ""}))),
        "MeshEx" => return attempt(|| MeshEx::read(&mut Cursor::new(b))).map_or_else(|e| e, |_| ok(json!({"fmt": "MeshEx", "ver": ""}))),
        _ => read_file(b).map(|f| file_tree(&f)),
    };
    t.map_or_else(|e| e, |t| ok(json!({"fmt": t["fmt"], "ver": t["ver"]})))
}
fn one<D: SsbhData + Serialize>(fmt: &str, faults: &Value, d: &D, direct: impl FnOnce(&mut Cursor<Vec<u8>>) -> Result<(), String>) -> Value {
    let mut c = Cursor::new(vec![]);
    let (r, peak) = peak(|| attempt(|| d.write(&mut c).map_err(|e| e.to_string())));
    let b = c.into_inner();
    let mut c = Cursor::new(vec![]);
    let other = attempt(|| direct(&mut c));
    let kind = |r: &Result<(), Value>| r.as_ref().map_or_else(|e| e.clone(), |_| ok(json!(0)));
    let load = if r.is_ok() { run(|| D::read(&mut Cursor::new(&b)).map(|_| json!(0)).map_err(|e| e.to_string())) } else { json!({"k": "none"}) };
    json!({"op": "d22", "kind": format!("{fmt} {faults}"), "fmt": fmt, "data": tree(d), "r": kind(&r), "size": b.len(), "peak": peak / 1024,
           "low": if r.is_ok() { low(fmt, &b) } else { json!({"k": "none"}) }, "load": load, "direct": kind(&other), "same": c.into_inner() == b})
}
pub fn d22(out: &mut Out, r: &mut Rng, scen: &[Value], n: usize) {
    for i in 0..n {
        let s = &scen[(i / 8) % scen.len()]["faults"];
        let mut a = usual(r, i % 8);
        for f in s.as_array().unwrap() {
            a = fault(r, a, f.as_str().unwrap());
        }
        macro_rules! via {
            ($fmt:expr, $d:expr, $t:ty) => {
                one($fmt, s, $d, |c| <$t>::try_from($d).map_err(|e| e.to_string())?.write(c).map_err(|e| e.to_string()))
            };
        }
        out.emit(match &a {
            Any::Mesh(d) => via!("Mesh", d, Mesh),
            Any::Skel(d) => via!("Skel", d, Skel),
            Any::Anim(d) => via!("Anim", d, Anim),
            Any::Matl(d) => via!("Matl", d, Matl),
            Any::Modl(d) => via!("Modl", d, Modl),
            Any::Hlpb(d) => via!("Hlpb", d, Hlpb),
            Any::Adj(d) => via!("Adj", d, Adj),
            Any::MeshEx(d) => via!("MeshEx", d, MeshEx),
        });
    }
}
