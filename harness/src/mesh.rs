//! Meshes: D01 to D05 and D19.
use crate::data::*;
use crate::gen::from_tree;
use crate::obs::*;
use crate::rng::Rng;
use crate::tree::{bytes, tree};
use serde_json::{json, Value};
use ssbh_data::mesh_data::error::Error as MeshError;
use ssbh_data::mesh_data::{read_data, AttributeData, BoneInfluence, MeshData, MeshObjectData, VectorData, VertexWeight};
use ssbh_data::prelude::*;
use ssbh_lib::formats::mesh::*;
use std::io::Cursor;

fn n8(n: usize) -> Value {
    bytes(&(n as u64).to_le_bytes())
}
fn error_tree(e: &MeshError) -> Value {
    let t = |e: &str, name: Value, n: Value, limit: Value| json!({"e": e, "name": name, "n": n, "limit": limit});
    match e {
        MeshError::AttributeDataLengthMismatch => t("AttributeDataLengthMismatch", json!([]), json!([]), json!([])),
        MeshError::VertexIndexOutOfRange { vertex_index, vertex_count } => t("VertexIndexOutOfRange", json!([]), n8(*vertex_index), n8(*vertex_count)),
        MeshError::NonTriangulatedFaces { vertex_index_count } => t("NonTriangulatedFaces", json!([]), n8(*vertex_index_count), json!([])),
        MeshError::SkinWeightVertexIndexExceedsLimit { vertex_index, limit, .. } => t("SkinWeightVertexIndexExceedsLimit", json!([]), n8(*vertex_index), n8(*limit)),
        MeshError::UnsupportedVersion { major_version, minor_version } => t("UnsupportedVersion", bytes(&major_version.to_le_bytes()), bytes(&minor_version.to_le_bytes()), json!([])),
        MeshError::DuplicateSubindex { mesh_object_name, mesh_object_subindex } => t("DuplicateSubindex", bytes(mesh_object_name.as_bytes()), bytes(&mesh_object_subindex.to_le_bytes()), json!([])),
        MeshError::Io(_) => t("Io", json!([]), json!([]), json!([])),
    }
}
/// Outcome of the conversion to a Mesh.
pub fn convert(d: &MeshData) -> Result<Mesh, Value> {
    match attempt(|| Ok::<_, String>(Mesh::try_from(d))) {
        Ok(Ok(m)) => Ok(m),
        Ok(Err(e)) => Err(json!({"k": "err", "e": error_tree(&e)})),
        Err(v) => Err(v),
    }
}
pub fn saved<T, E1: std::fmt::Display, E2: std::fmt::Display>(write: impl FnOnce(&mut Cursor<Vec<u8>>) -> Result<(), E1>, read: impl FnOnce(&mut Cursor<Vec<u8>>) -> Result<T, E2>) -> Result<T, Value> {
    attempt(|| {
        let mut c = Cursor::new(Vec::new());
        write(&mut c).map_err(|e| format!("write: {e}"))?;
        c.set_position(0);
        read(&mut c).map_err(|e| format!("read: {e}"))
    })
}
fn rt(d: &MeshData) -> Value {
    match saved(|c| d.write(c), |c| MeshData::read(c)) {
        Ok(x) => ok(tree(&x)),
        Err(e) => e,
    }
}
fn event(op: &str, kind: &str, d: &MeshData) -> Value {
    let mut e = json!({"op": op, "kind": kind, "data": tree(d)});
    if op != "d01" {
        e["lib"] = match convert(d) {
            Ok(m) => if op == "d02" { ok(json!([])) } else { ok(tree(&m)) },
            Err(e) => e,
        };
    }
    if op == "d01" || op == "d05" {
        e["rt"] = rt(d);
    }
    e
}
fn versions(v: &str) -> (u16, u16) {
    match v {
        "V8" => (1, 8),
        "V9" => (1, 9),
        _ => (1, 10),
    }
}
fn list(v: &Value, dims: usize, r: &mut Rng, n: usize, mode: u8, base: &str) -> Vec<AttributeData> {
    v["dims"][dims]
        .as_array()
        .unwrap()
        .iter()
        .enumerate()
        .map(|(i, d)| AttributeData {
            name: format!("{base}{i}"),
            data: loop {
                let x = vectors(r, n, mode);
                let k = match x {
                    VectorData::Vector2(_) => 2,
                    VectorData::Vector3(_) => 3,
                    VectorData::Vector4(_) => 4,
                };
                if d == k {
                    break x;
                }
            },
        })
        .collect()
}
/// The mesh of a scenario of MC_Mesh.
fn from_scenario(r: &mut Rng, s: &Value, mode: u8) -> MeshData {
    let (major_version, minor_version) = versions(s["ver"].as_str().unwrap());
    let objects = s["objects"]
        .as_array()
        .unwrap()
        .iter()
        .enumerate()
        .map(|(k, o)| {
            let n = o["verts"].as_u64().unwrap() as usize;
            let mut x = MeshObjectData { name: if r.chance(1, 2) { "m".into() } else { format!("m{}", 9 - k) }, subindex: (17 * (9 - k)) as u64, parent_bone_name: name(r), sort_bias: k as i32 - 1, ..Default::default() };
            x.disable_depth_write = k % 2 == 1;
            x.disable_depth_test = k % 3 == 0;
            x.positions = list(o, 0, r, n, mode, "Position");
            x.normals = list(o, 1, r, n, mode, "Normal");
            x.binormals = list(o, 2, r, n, mode, "Binormal");
            x.tangents = list(o, 3, r, n, mode, "Tangent");
            x.texture_coordinates = list(o, 4, r, n, mode, "map");
            x.color_sets = list(o, 5, r, n, if mode == 2 { 2 } else { 4 }, "colorSet");
            let vc = x.vertex_count().unwrap_or(0);
            if vc > 0 {
                x.vertex_indices = (0..o["idx"].as_u64().unwrap()).map(|_| r.below(vc) as u32).collect();
            }
            x.bone_influences = (0..o["infl"].as_u64().unwrap())
                .map(|i| BoneInfluence { bone_name: format!("b{i}"), vertex_weights: (0..r.below(4)).map(|_| VertexWeight { vertex_index: r.below(vc.max(1)) as u32, vertex_weight: fl(r, mode) }).collect() })
                .collect();
            x
        })
        .collect();
    MeshData { major_version, minor_version, objects }
}

pub fn d01_05(out: &mut Out, r: &mut Rng, op: &str, scen: &[Value], n: usize) {
    for s in scen {
        let mode = if op == "d04" { 3 } else if op == "d01" { *r.pick(&[1, 5, 4]) } else { 1 };
        let d = from_scenario(r, s, mode);
        out.emit(event(op, "MC_Mesh", &d));
    }
    for i in 0..n {
        let mode = if op == "d04" { *r.pick(&[2, 3, 3]) } else { *r.pick(&[0, 1, 1, 2, 5]) };
        let mut c = MeshCfg::vary(r, mode);
        if op == "d05" {
            c.objects = *r.pick(&[1, 3, 6, 9]);
            c.influences = *r.pick(&[1, 3, 6]);
            c.attrs = 1;
        }
        let d = mesh(r, &c, MESH_VERSIONS[i % 3]);
        out.emit(event(op, "random", &d));
    }
    if op == "d05" {
        // shared vertices: maximum influence counts, and many groups of similar names
        for i in 0..n / 2 {
            let mut d = mesh(r, &MeshCfg { mode: 2, objects: 7, verts: 5, attrs: 1, influences: 0 }, MESH_VERSIONS[i % 3]);
            for (k, o) in d.objects.iter_mut().enumerate() {
                o.name = r.pick(&["m", "M", "m1", "m10", "m2", "", "mm", "\u{e9}", "z"]).to_string();
                o.subindex = if r.chance(1, 4) { u64::MAX - k as u64 } else if r.chance(1, 3) { (k as u64) << 33 } else { (7 - k) as u64 * 100 };
                let bones = *r.pick(&[0usize, 1, 2, 4, 9]);
                o.bone_influences = (0..bones)
                    .map(|b| {
                        let mut vs: Vec<u32> = (0..o.vertex_count().unwrap() as u32 + 2).filter(|_| r.chance(2, 3)).collect();
                        if r.chance(1, 2) {
                            vs.reverse();
                        }
                        BoneInfluence { bone_name: format!("b{}", b / 2), vertex_weights: vs.iter().map(|v| VertexWeight { vertex_index: *v, vertex_weight: fl(r, 1) }).collect() }
                    })
                    .collect();
            }
            out.emit(event(op, "shared", &d));
        }
    }
    if op == "d03" || op == "d01" {
        // index types around the 16 bit boundary
        for (k, count) in [65536usize, 65537, 70000, 65535].iter().enumerate() {
            for v in MESH_VERSIONS {
                for last in [65534u32, 65535, 65536, 65538] {
                    if last as usize >= *count {
                        continue;
                    }
                    out.emit(big(r, op, v, *count, last, k));
                }
            }
        }
    }
}
/// Large objects between two small ones, observed without their vertex data.
fn big(r: &mut Rng, op: &str, v: (u16, u16), count: usize, last: u32, k: usize) -> Value {
    let mut d = MeshData { major_version: v.0, minor_version: v.1, objects: vec![] };
    for j in 0..3u64 {
        let n = if j == 1 { count } else { 2 };
        let mut o = MeshObjectData { name: "o".into(), subindex: j, ..Default::default() };
        o.texture_coordinates = vec![AttributeData { name: "map1".into(), data: VectorData::Vector2(vec![[0.0; 2]; n]) }];
        if k % 2 == 0 {
            o.normals = vec![AttributeData { name: "Normal0".into(), data: VectorData::Vector4(vec![[0.5; 4]; n]) }];
        }
        o.vertex_indices = if j == 1 { vec![0, last, r.below(count) as u32 % last, last, 1, 0] } else { vec![0, 1, 1] };
        d.objects.push(o);
    }
    let idx = |d: &MeshData| Value::Array(d.objects.iter().map(|o| tree(&o.vertex_indices)).collect());
    let counts = |d: &MeshData| Value::Array(d.objects.iter().map(|o| n8(o.vertex_count().unwrap_or(usize::MAX))).collect());
    let lib = match convert(&d) {
        Ok(m) => {
            let t = tree(&m)["d"].clone();
            let lens: Vec<Value> = t["vertex_buffers"].as_array().unwrap().iter().map(|b| n8(b.as_array().unwrap().len())).collect();
            let mut objs = t["objects"].clone();
            for o in objs.as_array_mut().unwrap() {
                o.as_object_mut().unwrap().remove("bounding_info");
            }
            ok(json!({"objects": objs, "index_buffer": t["index_buffer"], "lens": lens, "buffer_sizes": t["buffer_sizes"], "polygon_index_size": t["polygon_index_size"]}))
        }
        Err(e) => e,
    };
    let rt = match saved(|c| d.write(c), |c| MeshData::read(c)) {
        Ok(x) => ok(json!({"indices": idx(&x), "counts": counts(&x)})),
        Err(e) => e,
    };
    let half4 = if k % 2 == 0 { 8 } else { 0 };
    let uv = if v == (1, 10) { 4 } else { 8 };
    json!({"op": format!("{op}big"), "kind": "16 bit boundary", "indices": idx(&d), "counts": counts(&d), "strides": [half4, uv, if v == (1, 10) { 0 } else { 32 }], "lib": lib, "rt": rt})
}

pub fn d02(out: &mut Out, r: &mut Rng, scen: &[Value], n: usize) {
    for s in scen {
        let d: MeshData = from_tree(s).expect("mesh of the model");
        out.emit(event("d02", "MC_MeshErr", &d));
    }
    for i in 0..n {
        let mut c = MeshCfg::vary(r, 2);
        c.objects = *r.pick(&[1, 2, 4, 6]);
        let mut d = mesh(r, &c, MESH_VERSIONS[i % 3]);
        let faults = r.below(3);
        for _ in 0..faults {
            if d.objects.is_empty() {
                break;
            }
            let k = r.below(d.objects.len());
            let m = r.below(d.objects.len());
            match r.below(8) {
                0 => {
                    let (a, b) = (d.objects[m].name.clone(), d.objects[m].subindex);
                    d.objects[k].name = a;
                    d.objects[k].subindex = b;
                }
                1 => {
                    d.objects[k].vertex_indices.push(0);
                    if r.chance(1, 2) {
                        d.objects[k].vertex_indices.push(0);
                    }
                }
                2 => {
                    let vc = d.objects[k].vertex_count().unwrap_or(0) as u32;
                    let x = *r.pick(&[vc, vc.wrapping_sub(1), vc + 1, u32::MAX, 65536, 0]);
                    d.objects[k].vertex_indices.extend([x, 0, 0]);
                    if r.chance(1, 2) {
                        d.objects[k].vertex_indices.reverse();
                    }
                }
                3 => {
                    let o = &mut d.objects[k];
                    let vc = o.vertex_count().unwrap_or(0);
                    let other = if r.chance(1, 2) { vc + 1 } else { vc.saturating_sub(1) };
                    let a = AttributeData { name: "x".into(), data: vectors(r, other, 2) };
                    let l = match r.below(6) {
                        0 => &mut o.positions,
                        1 => &mut o.normals,
                        2 => &mut o.binormals,
                        3 => &mut o.tangents,
                        4 => &mut o.texture_coordinates,
                        _ => &mut o.color_sets,
                    };
                    let at = r.below(l.len() + 1);
                    l.insert(at, a);
                }
                4 => {
                    let w = VertexWeight { vertex_index: *r.pick(&[65535, 65536, 65537, u32::MAX, 131071]), vertex_weight: 0.5 };
                    let o = &mut d.objects[k];
                    if o.bone_influences.is_empty() || r.chance(1, 3) {
                        o.bone_influences.push(BoneInfluence { bone_name: "b".into(), vertex_weights: vec![w] });
                    } else {
                        let b = r.below(o.bone_influences.len());
                        let at = r.below(o.bone_influences[b].vertex_weights.len() + 1);
                        o.bone_influences[b].vertex_weights.insert(at, w);
                    }
                }
                5 => {
                    // same name, other subindex or the reverse: allowed
                    let a = d.objects[m].name.clone();
                    d.objects[k].name = a;
                }
                6 => {
                    let a = d.objects[m].subindex;
                    d.objects[k].subindex = a;
                }
                _ => {
                    d.major_version = *r.pick(&[1, 1, 0, 2]);
                    d.minor_version = *r.pick(&[7, 8, 9, 10, 11, 266]);
                }
            }
        }
        out.emit(event("d02", "random", &d));
    }
}

// ------------------------------------------------------------------ D19: files of any layout
fn usage9(k: usize) -> AttributeUsageV9 {
    use AttributeUsageV9::*;
    [Position, Normal, Binormal, Tangent, TextureCoordinate, ColorSet][k]
}
fn usage8(k: usize) -> AttributeUsageV8 {
    use AttributeUsageV8::*;
    [Position, Normal, Position, Tangent, TextureCoordinate, ColorSet][k]
}
fn type10(k: usize) -> AttributeDataTypeV10 {
    use AttributeDataTypeV10::*;
    [Float2, Float3, Float4, HalfFloat4, Byte4, HalfFloat2][k]
}
fn type8(k: usize) -> AttributeDataTypeV8 {
    use AttributeDataTypeV8::*;
    [Float2, Float3, Float4, HalfFloat4, Byte4][k]
}
const TYPE_SIZE: [u32; 6] = [8, 12, 16, 8, 4, 4];
struct Attr {
    usage: usize,
    ty: usize,
    buffer: u32,
    off: u32,
    sub: u64,
    name: Option<String>,
    names: Vec<Option<String>>,
}
struct Obj {
    attrs: Vec<Attr>,
    n: u32,
    offs: [u32; 4],
    strides: [u32; 4],
    idx_off: u32,
    idx_n: u32,
    wide: bool,
    name: Option<String>,
    sub: u64,
    parent: Option<String>,
    depth: [u8; 2],
    bias: i32,
}
struct Group {
    name: Option<String>,
    sub: u64,
    bones: Vec<(Option<String>, Vec<u8>)>,
}
pub struct Foreign {
    objs: Vec<Obj>,
    bufs: Vec<Vec<u8>>,
    idx: Vec<u8>,
    groups: Vec<Group>,
}
fn s(n: &Option<String>) -> ssbh_lib::SsbhString {
    match n {
        None => from_tree(&json!([])).unwrap(),
        Some(x) => x.as_str().into(),
    }
}
fn ascii(r: &mut Rng) -> Option<String> {
    if r.chance(1, 6) {
        None
    } else {
        Some(r.pick(&["", "a", "b", "Mario", "a1"]).to_string())
    }
}
pub fn foreign(r: &mut Rng, ver: &str) -> Foreign {
    let ntypes = if ver == "V10" { 6 } else { 5 };
    let nb = *r.pick(&[4usize, 4, 2, 1, 5]);
    // segments claimed so far in each buffer; some objects share or overlap
    let mut bufs: Vec<Vec<u8>> = (0..nb).map(|_| { let k = r.below(7); r.bytes(k) }).collect();
    let mut idx: Vec<u8> = { let k = r.below(5); r.bytes(k) };
    let k = r.below(4);
    let mut objs: Vec<Obj> = vec![];
    for _ in 0..k {
        let n = *r.pick(&[0u32, 1, 2, 3, 5]);
        let mut attrs: Vec<Attr> = vec![];
        let mut used = [0u32; 4];
        for _ in 0..r.below(6) {
            let buffer = r.below(nb.min(4)) as u32;
            let ty = r.below(ntypes);
            let gap = if r.chance(1, 4) { r.below(5) as u32 } else { 0 };
            let off = if r.chance(1, 8) { r.below(used[buffer as usize] as usize + 1) as u32 } else { used[buffer as usize] + gap };
            used[buffer as usize] = used[buffer as usize].max(off + TYPE_SIZE[ty]);
            let nm = (0..r.below(3)).map(|_| ascii(r)).collect();
            attrs.push(Attr { usage: r.below(6), ty, buffer, off, sub: if r.chance(1, 4) { 10 + r.below(1000) as u64 } else { r.below(4) as u64 }, name: ascii(r), names: nm });
        }
        if r.chance(1, 2) {
            for i in (1..attrs.len()).rev() {
                let j = r.below(i + 1);
                attrs.swap(i, j);
            }
        }
        let mut offs = [0u32; 4];
        let mut strides = [0u32; 4];
        for b in 0..nb.min(4) {
            strides[b] = if r.chance(1, 12) { r.below(9) as u32 + 1 } else { used[b] + if r.chance(1, 3) { r.below(9) as u32 } else { 0 } };
            let size = if n == 0 || used[b] == 0 { 0 } else { (n - 1) * strides[b] + used[b] };
            offs[b] = if r.chance(1, 5) && bufs[b].len() as u32 >= size { r.below(bufs[b].len() - size as usize + 1) as u32 } else { bufs[b].len() as u32 };
            let end = (offs[b] + size) as usize;
            while bufs[b].len() < end {
                bufs[b].push(r.next() as u8);
            }
            if r.chance(1, 2) {
                let k = r.below(5);
                let x = r.bytes(k);
                bufs[b].extend(x);
            }
        }
        let wide = r.chance(1, 3);
        let idx_n = r.below(7) as u32;
        let w = if wide { 4 } else { 2 };
        let idx_off = if r.chance(1, 5) && idx.len() as u32 >= w * idx_n { r.below(idx.len() - (w * idx_n) as usize + 1) as u32 } else { idx.len() as u32 };
        while idx.len() < (idx_off + w * idx_n) as usize {
            idx.push(r.next() as u8);
        }
        objs.push(Obj { attrs, n, offs, strides, idx_off, idx_n, wide, name: ascii(r), sub: r.below(3) as u64, parent: ascii(r), depth: [*r.pick(&[0, 0, 1, 1, 2, 127, 255]), *r.pick(&[0, 0, 1, 1, 2, 128, 255])], bias: r.next() as i32 });
    }
    let mut groups = vec![];
    for _ in 0..r.below(4) {
        let (name, sub) = if !objs.is_empty() && r.chance(3, 4) { let o = r.pick(&objs); (o.name.clone(), o.sub) } else { (ascii(r), r.below(3) as u64) };
        let bones = (0..r.below(3))
            .map(|_| {
                let n = 6 * r.below(4) + if r.chance(1, 8) { r.below(6) } else { 0 };
                (if r.chance(1, 12) { None } else { Some(r.pick(&["b", "Hip", ""]).to_string()) }, r.bytes(n))
            })
            .collect();
        groups.push(Group { name, sub, bones });
    }
    Foreign { objs, bufs, idx, groups }
}
fn spoil(r: &mut Rng, f: &mut Foreign) {
    let edge = |r: &mut Rng| *r.pick(&[1u32, 2, 3, 4, 8, 1000, 0x7fff_ffff, 0x8000_0000, u32::MAX, u32::MAX - 1]);
    if f.objs.is_empty() {
        return;
    }
    let k = r.below(f.objs.len());
    match r.below(10) {
        0 => f.objs[k].n = f.objs[k].n.wrapping_add(edge(r)),
        1 => f.objs[k].idx_n = f.objs[k].idx_n.wrapping_add(edge(r)),
        2 => f.objs[k].idx_off = f.objs[k].idx_off.wrapping_add(edge(r)),
        3 => {
            let b = r.below(4);
            f.objs[k].offs[b] = f.objs[k].offs[b].wrapping_add(edge(r));
        }
        4 => {
            let b = r.below(4);
            f.objs[k].strides[b] = *r.pick(&[0, 0, 1, u32::MAX, 40]);
        }
        5 | 6 => {
            let e = edge(r);
            if let Some(a) = f.objs[k].attrs.last_mut() {
                if r.chance(1, 2) {
                    a.off = a.off.wrapping_add(e);
                } else {
                    a.buffer = *r.pick(&[3, 4, 5, u32::MAX, 1]);
                }
            }
        }
        7 => {
            let b = r.below(f.bufs.len());
            let n = f.bufs[b].len();
            f.bufs[b].truncate(n - n.min(1 + r.below(4)));
        }
        8 => {
            let n = f.idx.len();
            f.idx.truncate(n - n.min(1 + r.below(3)));
        }
        _ => {
            f.objs[k].wide ^= true;
        }
    }
}
macro_rules! build {
    ($f:expr, $attr:expr, $weights:expr) => {
        MeshInner {
            model_name: "".into(),
            bounding_info: BoundingInfo::default(),
            unk1: 0,
            objects: $f
                .objs
                .iter()
                .map(|o| MeshObject {
                    name: s(&o.name),
                    subindex: o.sub,
                    parent_bone_name: s(&o.parent),
                    vertex_count: o.n,
                    vertex_index_count: o.idx_n,
                    unk2: 3,
                    vertex_buffer0_offset: o.offs[0],
                    vertex_buffer1_offset: o.offs[1],
                    vertex_buffer2_offset: o.offs[2],
                    vertex_buffer3_offset: o.offs[3],
                    stride0: o.strides[0],
                    stride1: o.strides[1],
                    stride2: o.strides[2],
                    stride3: o.strides[3],
                    index_buffer_offset: o.idx_off,
                    unk8: 4,
                    draw_element_type: if o.wide { DrawElementType::UnsignedInt } else { DrawElementType::UnsignedShort },
                    use_vertex_skinning: 0,
                    sort_bias: o.bias,
                    depth_flags: DepthFlags { disable_depth_write: o.depth[0], disable_depth_test: o.depth[1] },
                    bounding_info: BoundingInfo::default(),
                    attributes: o.attrs.iter().map($attr).collect::<Vec<_>>().into(),
                })
                .collect::<Vec<_>>()
                .into(),
            buffer_sizes: vec![].into(),
            polygon_index_size: 0,
            vertex_buffers: $f.bufs.iter().map(|b| b.clone().into()).collect::<Vec<_>>().into(),
            index_buffer: $f.idx.clone().into(),
            rigging_buffers: $f
                .groups
                .iter()
                .map(|g| RiggingGroup {
                    mesh_object_name: s(&g.name),
                    mesh_object_subindex: g.sub,
                    flags: RiggingFlags { max_influences: 0, unk1: 1 },
                    buffers: g.bones.iter().map(|b| BoneBuffer { bone_name: s(&b.0), data: $weights(&b.1) }).collect::<Vec<_>>().into(),
                })
                .collect::<Vec<_>>()
                .into(),
        }
    };
}
fn weights8(b: &[u8]) -> ssbh_lib::SsbhArray<VertexWeightV8> {
    b.chunks_exact(6)
        .map(|c| VertexWeightV8 { vertex_index: u32::from_le_bytes([c[0], c[1], c[5], 0]), vertex_weight: f32::from_le_bytes([c[2], c[3], c[4], c[5]]) })
        .collect::<Vec<_>>()
        .into()
}
fn weights10(b: &[u8]) -> ssbh_lib::SsbhByteBuffer {
    b.to_vec().into()
}
fn names(a: &Attr) -> ssbh_lib::SsbhArray<ssbh_lib::SsbhString> {
    a.names.iter().map(s).collect::<Vec<_>>().into()
}
pub fn to_mesh(f: &Foreign, ver: &str) -> Mesh {
    match ver {
        "V8" => Mesh::V8(build!(f, |a| AttributeV8 { usage: usage8(a.usage), data_type: type8(a.ty), buffer_index: a.buffer, buffer_offset: a.off, subindex: a.sub as u32 }, weights8)),
        "V9" => Mesh::V9(build!(f, |a| AttributeV9 { usage: usage9(a.usage), data_type: type8(a.ty), buffer_index: a.buffer, buffer_offset: a.off, subindex: a.sub, name: s(&a.name), attribute_names: names(a) }, weights8)),
        _ => Mesh::V10(build!(f, |a| AttributeV10 { usage: usage9(a.usage), data_type: type10(a.ty), buffer_index: a.buffer, buffer_offset: a.off, subindex: a.sub, name: s(&a.name), attribute_names: names(a) }, weights10)),
    }
}
pub fn d19(out: &mut Out, r: &mut Rng, n: usize, cur: &str) {
    for i in 0..n {
        let ver = ["V8", "V9", "V10"][i % 3];
        let mut f = foreign(r, ver);
        let hurt = r.chance(1, 2);
        if hurt {
            for _ in 0..1 + r.below(2) {
                spoil(r, &mut f);
            }
        }
        let m = to_mesh(&f, ver);
        let t = tree(&m);
        let mut e = json!({"op": "d19", "kind": if hurt { "damaged" } else { "any layout" }, "ver": ver, "m": t["d"]});
        std::fs::write(cur, e.to_string()).unwrap();
        let (x, kib) = peak(|| attempt(|| MeshData::try_from(&m).map_err(|e| e.to_string())));
        e["r"] = match x {
            Ok(d) => ok(tree(&d)),
            Err(e) => e,
        };
        e["kib"] = json!(kib / 1024);
        out.emit(e);
    }
    std::fs::remove_file(cur).ok();
    // elements one after the other
    for _ in 0..n / 10 {
        let len = r.below(24);
        let b = r.bytes(len);
        let count = r.below(9);
        let off = if r.chance(1, 12) { *r.pick(&[u64::MAX, 1 << 40, len as u64, len as u64 + 1]) } else { r.below(12) as u64 };
        let mut c = Cursor::new(b.clone());
        c.set_position(r.below(5) as u64);
        let c = &mut c;
        let (size, x) = match r.below(4) {
            0 => (1, attempt(|| read_data::<_, u8, u8>(c, count, off)).map(|v| json!(v.iter().map(|x| x.to_le_bytes().to_vec()).collect::<Vec<_>>()))),
            1 => (2, attempt(|| read_data::<_, u16, u16>(c, count, off)).map(|v| json!(v.iter().map(|x| x.to_le_bytes().to_vec()).collect::<Vec<_>>()))),
            2 => (4, attempt(|| read_data::<_, f32, f32>(c, count, off)).map(|v| json!(v.iter().map(|x| x.to_le_bytes().to_vec()).collect::<Vec<_>>()))),
            _ => (8, attempt(|| read_data::<_, u64, u64>(c, count, off)).map(|v| json!(v.iter().map(|x| x.to_le_bytes().to_vec()).collect::<Vec<_>>()))),
        };
        out.emit(json!({"op": "d19list", "kind": "a list of elements", "b": bytes(&b), "count": count, "off": tree(&off), "size": size, "r": match x { Ok(v) => ok(v), Err(e) => e }}));
    }
}
