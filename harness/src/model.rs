//! Models and helper bones (D12), adjacency (D13), extended mesh data (D14).
use crate::data::{mesh_object, name, v3, v4, MeshCfg};
use crate::gen::{gen, string, Cfg};
use crate::low::{gen_meshex, vary};
use crate::mesh::saved;
use crate::obs::*;
use crate::rng::Rng;
use crate::tree::{bytes, tree};
use serde_json::{json, Value};
use ssbh_data::adj_data::{error::Error as AdjError, AdjEntryData};
use ssbh_data::hlpb_data::{AimConstraintData, OrientConstraintData};
use ssbh_data::mesh_data::{AttributeData, MeshObjectData, VectorData};
use ssbh_data::meshex_data::{EntryFlags, MeshObjectGroupData};
use ssbh_data::prelude::*;
use ssbh_lib::formats::{adj::*, hlpb::Hlpb, mesh::BoundingSphere, meshex::{self, MeshEx}, modl::Modl};
use ssbh_lib::Ptr64;

fn looped<T: serde::Serialize>(x: Result<T, Value>) -> Value {
    match x {
        Ok(x) => ok(tree(&x)),
        Err(e) => e,
    }
}
fn modl(kind: &str, d: &ModlData) -> Value {
    json!({"op": "d12", "kind": kind, "fmt": "Modl", "data": tree(d), "lib": run(|| Ok::<_, String>(tree(&Modl::from(d)))),
           "rt": looped(saved(|c| d.write(c), |c| ModlData::read(c)))})
}
fn hlpb(kind: &str, d: &HlpbData) -> Value {
    json!({"op": "d12", "kind": kind, "fmt": "Hlpb", "data": tree(d), "lib": run(|| Ok::<_, String>(tree(&Hlpb::from(d)))),
           "rt": looped(saved(|c| d.write(c), |c| HlpbData::read(c)))})
}
fn nat(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}
fn aim(r: &mut Rng) -> AimConstraintData {
    let mut n = || name(r);
    let (name, aim_bone_name1, aim_bone_name2, aim_type1, aim_type2, target_bone_name1, target_bone_name2) = (n(), n(), n(), n(), n(), n(), n());
    AimConstraintData {
        name,
        aim_bone_name1,
        aim_bone_name2,
        aim_type1,
        aim_type2,
        target_bone_name1,
        target_bone_name2,
        unk1: r.next() as u32,
        unk2: r.below(3) as u32,
        aim: v3(r, 0),
        up: v3(r, 0),
        quat1: v4(r, 0),
        quat2: v4(r, 0),
    }
}
fn orient(r: &mut Rng) -> OrientConstraintData {
    let mut n = || name(r);
    let (name, parent_bone_name1, parent_bone_name2, source_bone_name, target_bone_name) = (n(), n(), n(), n(), n());
    OrientConstraintData {
        name,
        parent_bone_name1,
        parent_bone_name2,
        source_bone_name,
        target_bone_name,
        unk_type: r.below(4) as u32,
        constraint_axes: v3(r, 0),
        quat1: v4(r, 0),
        quat2: v4(r, 0),
        range_min: v3(r, 0),
        range_max: v3(r, 0),
    }
}
pub fn d12(out: &mut Out, r: &mut Rng, scen: &[Value], n: usize) {
    for s in scen {
        let d = HlpbData {
            major_version: 1,
            minor_version: 1,
            aim_constraints: (0..nat(&s["na"])).map(|_| aim(r)).collect(),
            orient_constraints: (0..nat(&s["no"])).map(|_| orient(r)).collect(),
        };
        out.emit(hlpb("MC_Model", &d));
    }
    for i in 0..n {
        let c = vary(r, false);
        if i % 2 == 0 {
            let mut d: ModlData = gen(r, &c);
            if i % 8 != 0 {
                (d.major_version, d.minor_version) = (1, 7);
            }
            out.emit(modl("random", &d));
            let m: Modl = gen(r, &c);
            let t = tree(&m);
            out.emit(json!({"op": "d12file", "kind": "any file", "fmt": "Modl", "m": t["d"], "r": run(|| Ok::<_, String>(tree(&ModlData::from(&m))))}));
        } else {
            let mut d: HlpbData = gen(r, &c);
            if i % 8 != 1 {
                (d.major_version, d.minor_version) = (1, 1);
            }
            out.emit(hlpb("random", &d));
            let m: Hlpb = gen(r, &c);
            let t = tree(&m);
            out.emit(json!({"op": "d12file", "kind": "any file", "fmt": "Hlpb", "m": t["d"], "r": run(|| Ok::<_, String>(tree(&HlpbData::from(&m))))}));
        }
    }
}

// ------------------------------------------------------------------ D13
fn adj(kind: &str, d: &AdjData) -> Value {
    json!({"op": "d13", "kind": kind, "data": tree(d), "lib": run(|| Adj::try_from(d).map(|a| tree(&a))), "rt": looped(saved(|c| d.write(c), |c| AdjData::read(c)))})
}
fn adj_file(kind: &str, a: &Adj) -> Value {
    let r = match attempt(|| Ok::<_, String>(AdjData::try_from(a))) {
        Ok(Ok(d)) => ok(tree(&d)),
        Ok(Err(AdjError::BufferOffsetOutOfRange { .. })) => json!({"k": "err", "e": {"e": "BufferOffsetOutOfRange"}}),
        Ok(Err(_)) => json!({"k": "err", "e": {"e": "Io"}}),
        Err(v) => v,
    };
    json!({"op": "d13file", "kind": kind, "a": tree(a), "r": r})
}
fn triangles(r: &mut Rng, kind: &str, pos: &VectorData, idx: &[u32]) -> Value {
    let object = r.below(300);
    let run0 = |f: &dyn Fn() -> AdjEntryData| run(|| Ok::<_, String>(tree(&f())));
    let x = match r.below(3) {
        0 => run0(&|| AdjEntryData::from_vector_data(object, pos, idx)),
        1 => run0(&|| match pos {
            VectorData::Vector2(v) => AdjEntryData::from_triangle_faces(object, v, idx),
            VectorData::Vector3(v) => AdjEntryData::from_triangle_faces(object, v, idx),
            VectorData::Vector4(v) => AdjEntryData::from_triangle_faces(object, v, idx),
        }),
        _ => {
            let mut o = MeshObjectData { vertex_indices: idx.to_vec(), positions: vec![AttributeData { name: String::new(), data: pos.clone() }], ..Default::default() };
            if r.chance(1, 2) {
                // only the first positions count
                o.positions.push(AttributeData { name: "b".into(), data: VectorData::Vector2(vec![[1.0; 2]; pos.len()]) });
            }
            run0(&|| AdjEntryData::from_mesh_object(object, &o))
        }
    };
    let t = tree(pos);
    json!({"op": "d13tri", "kind": kind, "pos": t["d"], "idx": tree(idx), "object": bytes(&(object as u64).to_le_bytes()), "r": x})
}
/// One place per class; some places differ from others in a single component, or only in the sign of a zero.
fn places(r: &mut Rng, class: &[usize]) -> VectorData {
    let dim = 2 + r.below(3);
    let base: Vec<f32> = (0..dim).map(|_| *r.pick(&[0.0, 1.0, -2.5])).collect();
    let axis = r.below(dim);
    let of = |r: &mut Rng, c: usize| {
        let mut p = base.clone();
        p[axis] = c as f32 * 1e-6 - 1e-6;
        p.iter_mut().for_each(|x| if *x == 0.0 && r.chance(1, 3) { *x = -0.0 });
        p
    };
    let ps: Vec<Vec<f32>> = class.iter().map(|c| of(r, *c)).collect();
    match dim {
        2 => VectorData::Vector2(ps.iter().map(|p| [p[0], p[1]]).collect()),
        3 => VectorData::Vector3(ps.iter().map(|p| [p[0], p[1], p[2]]).collect()),
        _ => VectorData::Vector4(ps.iter().map(|p| [p[0], p[1], p[2], p[3]]).collect()),
    }
}
pub fn d13(out: &mut Out, r: &mut Rng, scen: &[Value], n: usize) {
    for s in scen {
        if s["m"] == "faces" {
            let class: Vec<usize> = s["class"].as_array().unwrap().iter().map(nat).collect();
            let idx: Vec<u32> = s["idx"].as_array().unwrap().iter().map(|x| nat(x) as u32).collect();
            let p = places(r, &class);
            out.emit(triangles(r, "MC_Adjacent faces", &p, &idx));
        } else {
            let a = Adj {
                entries: s["offs"].as_array().unwrap().iter().map(|x| AdjEntry { mesh_object_index: r.below(9) as u32, index_buffer_offset: nat(x) as u32 }).collect(),
                index_buffer: (0..nat(&s["len"])).map(|_| r.next() as i16).collect(),
            };
            out.emit(adj_file("MC_Adjacent file", &a));
        }
    }
    for i in 0..n {
        // a data value
        let k = if r.chance(1, 10) { r.some(40, 10, 300) } else { r.below(6) };
        let d = AdjData {
            entries: (0..k)
                .map(|j| AdjEntryData {
                    mesh_object_index: match r.below(8) {
                        0 => r.next() as u32 as usize,
                        1 => u32::MAX as usize,
                        2 if i % 16 == 0 => 1 << 32 | j,
                        _ => j,
                    },
                    vertex_adjacency: {
                        let len = if r.chance(1, 4) { 0 } else { r.some(20, 100, 300) };
                        (0..len).map(|_| if r.chance(1, 3) { -1 } else { r.next() as i16 }).collect()
                    },
                })
                .collect(),
        };
        out.emit(adj("random", &d));
        // any file
        let len = r.some(20, 40, 600);
        let mut at = 0;
        let a = Adj {
            entries: (0..r.some(6, 50, 300))
                .map(|_| {
                    let o = match r.below(12) {
                        0 => r.below(2 * len + 6) as u32,
                        1 if i % 4 == 0 => *r.pick(&[u32::MAX, 1 << 31, u32::MAX - 1]),
                        _ => at,
                    };
                    at = o.saturating_add(2 * r.below(5) as u32 + if r.chance(1, 16) { 1 } else { 0 });
                    AdjEntry { mesh_object_index: r.next() as u32, index_buffer_offset: o }
                })
                .collect(),
            index_buffer: (0..len).map(|_| r.next() as i16).collect(),
        };
        out.emit(adj_file("any file", &a));
        // triangles: strips, fans around one vertex and anything
        let nv = 1 + r.some(14, 60, 130);
        let nf = r.some(26, 60, 130);
        let kind = r.below(3);
        let idx: Vec<u32> = (0..nf)
            .flat_map(|f| {
                let any = [r.below(nv), r.below(nv), r.below(nv)];
                let t = match kind {
                    0 => any,
                    1 => [f % nv, (f + 1) % nv, (f + 2) % nv],
                    _ => [0, (f + 1) % nv, (f + 2) % nv],
                };
                let k = r.below(3);
                [t[k], t[(k + 1) % 3], t[(k + 2) % 3]]
            })
            .map(|x| x as u32)
            .collect();
        let classes = 1 + r.below(nv);
        let class: Vec<usize> = (0..nv).map(|v| if r.chance(1, 2) { v } else { r.below(classes) }).collect();
        let p = places(r, &class);
        out.emit(triangles(r, "triangles", &p, &idx));
        if i % 3 == 0 {
            // triangles with vertices of their own that meet at few places
            let nf = 1 + r.below(12);
            let idx: Vec<u32> = (0..3 * nf as u32).collect();
            let k = 1 + r.below(3);
            let class: Vec<usize> = (0..3 * nf).map(|v| if v % 3 == k % 3 || r.chance(1, 8) { r.below(k) } else { k + v }).collect();
            let p = places(r, &class);
            out.emit(triangles(r, "seams", &p, &idx));
        }
        if i % 600 == 0 {
            // very many vertices at one position, of which few belong to a face
            let nv = *r.pick(&[70, 140, 260]);
            let used = 3 + r.below(6);
            let class: Vec<usize> = (0..nv).map(|v| if r.chance(1, 12) { v } else { 0 }).collect();
            let first = *r.pick(&[0, nv / 2, nv - used]);
            let idx: Vec<u32> = (0..3 * (1 + r.below(4))).map(|_| (first + r.below(used)) as u32).collect();
            let p = places(r, &class);
            out.emit(triangles(r, "crowd", &p, &idx));
        }
    }
}

// ------------------------------------------------------------------ D14
fn ex(kind: &str, d: &MeshExData) -> Value {
    json!({"op": "d14", "kind": kind, "data": tree(d), "lib": run(|| Ok::<_, String>(tree(&MeshEx::from(d)))), "rt": looped(saved(|c| d.write(c), |c| MeshExData::read(c)))})
}
fn ex_file(kind: &str, m: &MeshEx) -> Value {
    json!({"op": "d14file", "kind": kind, "m": tree(m), "r": run(|| Ok::<_, String>(tree(&MeshExData::from(m))))})
}
fn groups(kind: &str, objects: &[MeshObjectData]) -> Value {
    let seen: Vec<Value> = objects.iter().map(|o| json!({"name": bytes(o.name.as_bytes()), "positions": tree(&o.positions)})).collect();
    json!({"op": "d14mesh", "kind": kind, "objects": seen, "r": run(|| Ok::<_, String>(tree(&MeshExData::from_mesh_objects(objects))))})
}
fn object(r: &mut Rng, name: &str, subindex: u64) -> MeshObjectData {
    let mut c = MeshCfg::vary(r, 0);
    c.mode = *r.pick(&[2, 3]);
    let mut o = mesh_object(r, &c, &mut vec![]);
    o.name = name.into();
    o.subindex = subindex;
    o
}
fn tagged(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.below(5) {
        s += match r.below(9) {
            0 | 1 => "_VIS",
            2 => "_O_",
            3 => "Shape",
            4 => "_",
            5 => "\u{e9}\u{3042}",
            6 => "_O",
            7 => "VIS",
            _ => "eye",
        };
    }
    if r.chance(1, 6) { string(r, 8, false) } else { s }
}
pub fn d14(out: &mut Out, r: &mut Rng, scen: &[Value], n: usize) {
    for s in scen {
        match s["m"].as_str().unwrap() {
            "group" => {
                let names = [tagged(r), format!("{}a", tagged(r)), format!("b{}", tagged(r))];
                let os: Vec<MeshObjectData> = s["objs"].as_array().unwrap().iter().enumerate().map(|(i, x)| object(r, &names[nat(x) - 1], i as u64)).collect();
                out.emit(groups("MC_Extended group", &os));
            }
            "strip" => {
                let b = crate::sch::by_bytes(&s["name"]);
                let o = MeshObjectData { name: String::from_utf8(b).unwrap(), ..Default::default() };
                out.emit(groups("MC_Extended strip", &[o]));
            }
            _ => {
                let c = Cfg { none: 10, ..Default::default() };
                let own = s["own"].as_array().unwrap();
                let m = MeshEx {
                    all_data: gen(r, &c),
                    mesh_object_groups: Ptr64::new((0..nat(&s["groups"])).map(|_| gen(r, &c)).collect()),
                    entries: Ptr64::new(own.iter().map(|g| meshex::MeshEntry { mesh_object_group_index: nat(g) as u32, unk1: v3(r, 0) }).collect()),
                    entry_flags: Ptr64::new(meshex::EntryFlags((0..nat(&s["flags"])).map(|_| gen(r, &c)).collect())),
                    unk1: 0,
                };
                out.emit(ex_file("MC_Extended load", &m));
            }
        }
    }
    for i in 0..n {
        let k = if r.chance(1, 10) { r.some(30, 40, 130) } else { r.below(6) };
        let mode = *r.pick(&[0, 1, 2, 3, 3]);
        let d = MeshExData {
            mesh_object_groups: (0..k)
                .map(|_| {
                    let b: bool = r.chance(1, 8);
                    let radius = crate::data::fl(r, mode);
                    MeshObjectGroupData {
                        bounding_sphere: BoundingSphere { center: v3(r, mode), radius: if b { radius } else { radius.abs() } },
                        mesh_object_full_name: name(r),
                        mesh_object_name: name(r),
                        entry_flags: (0..r.some(5, 600, 260)).map(|_| EntryFlags { draw_model: r.chance(1, 2), cast_shadow: r.chance(1, 2) }).collect(),
                    }
                })
                .collect(),
        };
        out.emit(ex("random", &d));
        let c = vary(r, false);
        let m = gen_meshex(r, &c);
        out.emit(ex_file("any file", &m));
        if i % 2 == 0 {
            let mut names: Vec<String> = (0..3).map(|_| tagged(r)).collect();
            if r.chance(1, 2) {
                names[2] = crate::data::alike(r, &names[..2]);
            }
            let os: Vec<MeshObjectData> = (0..r.some(7, 80, 70))
                .map(|j| {
                    let nm = r.pick(&names).clone();
                    object(r, &nm, j as u64)
                })
                .collect();
            out.emit(groups("random", &os));
        }
    }
}
