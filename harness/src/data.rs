//! Values of the ssbh_data types and their observation.
use crate::gen::{f32_any, gen, string, Cfg};
use crate::rng::Rng;
use ssbh_data::anim_data::{AnimData, GroupData, GroupType, NodeData, TrackData, TrackValues, Transform, TransformFlags, UvTransform};
use ssbh_data::matl_data::MatlData;
use ssbh_data::mesh_data::{AttributeData, BoneInfluence, MeshData, MeshObjectData, VectorData, VertexWeight};
use ssbh_data::meshex_data::MeshExData;
use ssbh_data::skel_data::{BillboardType, BoneData, SkelData};
use ssbh_data::{Vector3, Vector4};

/// Floats: 0 any bits, 1 finite, 2 small multiples of 1/64, 3 like 1 but of moderate size, 4 unit interval with excursions.
pub fn fl(r: &mut Rng, mode: u8) -> f32 {
    match mode {
        3 => {
            let e = r.below(24) as i32 - 14;
            let m = (r.below(1 << 24) as f32 - 8388608.0) / 8388608.0;
            m * 2f32.powi(e)
        }
        4 => match r.below(6) {
            0 => *r.pick(&[0.0, 1.0, -0.0, 0.5, 1.0 / 255.0, 0.999_999, 1.5, -0.25, 2.0 / 510.0, 3.0 / 510.0, 254.5 / 255.0]),
            1 => f32_any(r, 0),
            2 => (r.below(511) as f32) / 510.0,
            _ => r.below(1 << 24) as f32 / 16777216.0,
        },
        5 => {
            // close to what half floats distinguish
            let s = (r.below(2) as u32) << 31;
            let e = (112 + r.below(32) as u32 - if r.chance(1, 3) { 12 } else { 0 }) << 23;
            let m = match r.below(4) {
                0 => (r.below(1024) as u32) << 13 | 0x1000,
                1 => (r.below(1024) as u32) << 13 | 0x1001,
                2 => (r.below(1024) as u32) << 13 | 0x0fff,
                _ => r.below(1 << 23) as u32,
            };
            f32::from_bits(s | e | m)
        }
        m => f32_any(r, m),
    }
}
fn vec_n<const N: usize>(r: &mut Rng, n: usize, mode: u8) -> Vec<[f32; N]> {
    (0..n)
        .map(|_| {
            let mut a = [0f32; N];
            a.iter_mut().for_each(|x| *x = fl(r, mode));
            a
        })
        .collect()
}
pub fn vectors(r: &mut Rng, n: usize, mode: u8) -> VectorData {
    match r.below(3) {
        0 => VectorData::Vector2(vec_n(r, n, mode)),
        1 => VectorData::Vector3(vec_n(r, n, mode)),
        _ => VectorData::Vector4(vec_n(r, n, mode)),
    }
}
fn attrs(r: &mut Rng, n: usize, mode: u8, max: usize, base: &str) -> Vec<AttributeData> {
    (0..r.below(max + 1))
        .map(|i| {
            let name = match r.below(4) {
                0 => string(r, 7, false),
                1 => String::new(),
                _ => format!("{base}{i}"),
            };
            let m = match r.below(4) {
                0 => mode,
                1 if mode != 2 => 5,
                _ => if mode == 0 { 1 } else { mode },
            };
            AttributeData { name, data: vectors(r, n, m) }
        })
        .collect()
}
pub struct MeshCfg {
    pub mode: u8,
    pub objects: usize,
    pub verts: usize,
    pub attrs: usize,
    pub influences: usize,
}
impl MeshCfg {
    pub fn vary(r: &mut Rng, mode: u8) -> Self {
        let c = MeshCfg {
            mode,
            objects: *r.pick(&[1, 1, 2, 3, 5]),
            verts: *r.pick(&[0, 1, 3, 4, 7]),
            attrs: *r.pick(&[1, 2, 3]),
            influences: *r.pick(&[0, 1, 3]),
        };
        match r.below(240) {
            // much of one thing
            0 => MeshCfg { objects: *r.pick(&[20, 40, 70]), verts: 3, attrs: 1, influences: 1, ..c },
            1 => MeshCfg { objects: 2, verts: *r.pick(&[40, 140, 300]), attrs: 1, influences: 1, ..c },
            2 => MeshCfg { objects: 2, influences: *r.pick(&[20, 140, 300]), ..c },
            3 => MeshCfg { objects: 2, attrs: 9, ..c },
            _ => c,
        }
    }
}
pub fn name(r: &mut Rng) -> String {
    thread_local!(static LAST: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(vec![]) });
    let s = match r.below(6) {
        0 => String::new(),
        1 => string(r, 12, false),
        2 => LAST.with(|l| alike(r, &l.borrow())),
        _ => r.pick(&["a", "b", "Mario_FaceN", "eye_VIS", "aShape", "B", "mesh_O_1"]).to_string(),
    };
    LAST.with(|l| {
        let mut l = l.borrow_mut();
        l.push(s.clone());
        if l.len() > 4 {
            l.remove(0);
        }
    });
    s
}
/// One of the given texts with a small change: in case, in length, in a character, or none.
pub fn alike(r: &mut Rng, l: &[String]) -> String {
    if l.is_empty() {
        return "a".into();
    }
    let s = r.pick(l).clone();
    let mut c: Vec<char> = s.chars().collect();
    let i = r.below(c.len());
    match r.below(9) {
        0 => s.to_lowercase(),
        1 => s.to_uppercase(),
        2 if !c.is_empty() => {
            c[i] = if c[i].is_lowercase() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() };
            c.into_iter().collect()
        }
        3 => s + *r.pick(&[" ", "_", "0", "\u{301}", ".", "Shape", "\t"]),
        4 => format!("{}{s}", r.pick(&[" ", "_", "0", "\u{feff}", "."])),
        5 if !c.is_empty() => {
            c.remove(i);
            c.into_iter().collect()
        }
        6 => c.into_iter().rev().collect(),
        _ => s,
    }
}
pub fn mesh_object(r: &mut Rng, c: &MeshCfg, used: &mut Vec<(String, u64)>) -> MeshObjectData {
    let n = if r.chance(1, 8) { 0 } else { r.below(c.verts + 1) };
    let (nm, sub) = loop {
        let k = (name(r), if r.chance(1, 6) { r.next() } else { r.below(4) as u64 });
        if !used.contains(&k) {
            break k;
        }
    };
    used.push((nm.clone(), sub));
    let mut o = MeshObjectData { name: nm, subindex: sub, parent_bone_name: name(r), sort_bias: *r.pick(&[0, 1, -5, i32::MAX, i32::MIN, 77]), ..Default::default() };
    o.disable_depth_write = r.chance(1, 2);
    o.disable_depth_test = r.chance(1, 2);
    if !r.chance(1, 10) {
        o.positions = attrs(r, n, c.mode, c.attrs, "Position");
        o.normals = attrs(r, n, c.mode, c.attrs, "Normal");
        o.binormals = attrs(r, n, c.mode, c.attrs, "Binormal");
        o.tangents = attrs(r, n, c.mode, c.attrs, "Tangent");
        o.texture_coordinates = attrs(r, n, c.mode, c.attrs, "map");
        let m = if c.mode == 2 { 2 } else { 4 };
        o.color_sets = attrs(r, n, m, c.attrs, "colorSet");
    }
    let vc = o.vertex_count().unwrap();
    if vc > 0 {
        let k = 3 * r.some(5, 40, 100);
        o.vertex_indices = (0..k).map(|_| r.below(vc) as u32).collect();
    }
    o.bone_influences = (0..r.below(c.influences + 1))
        .map(|_| BoneInfluence {
            bone_name: name(r),
            vertex_weights: (0..r.below(5))
                .map(|_| VertexWeight { vertex_index: if r.chance(1, 5) { *r.pick(&[65535, 255, 256, 40000]) } else { r.below(c.verts + 1) as u32 }, vertex_weight: fl(r, c.mode) })
                .collect(),
        })
        .collect();
    o
}
pub const MESH_VERSIONS: [(u16, u16); 3] = [(1, 8), (1, 9), (1, 10)];
pub fn mesh(r: &mut Rng, c: &MeshCfg, version: (u16, u16)) -> MeshData {
    let mut used = vec![];
    let k = r.below(c.objects + 1);
    MeshData { major_version: version.0, minor_version: version.1, objects: (0..k).map(|_| mesh_object(r, c, &mut used)).collect() }
}

// ------------------------------------------------------------------ skeletons
pub fn matrix(r: &mut Rng, mode: u8) -> [[f32; 4]; 4] {
    let mut m = [[0f32; 4]; 4];
    for row in m.iter_mut() {
        for x in row.iter_mut() {
            *x = fl(r, mode);
        }
    }
    m
}
pub fn billboard(r: &mut Rng) -> BillboardType {
    gen(r, &Cfg::default())
}
pub fn skel(r: &mut Rng, n: usize, mode: u8) -> SkelData {
    let bones = (0..n)
        .map(|i| BoneData {
            name: name(r),
            transform: matrix(r, mode),
            parent_index: if i == 0 || r.chance(1, 4) { None } else { Some(r.below(i)) },
            billboard_type: billboard(r),
        })
        .collect();
    SkelData { major_version: 1, minor_version: 0, bones }
}

// ------------------------------------------------------------------ animations
pub fn v3(r: &mut Rng, mode: u8) -> Vector3 {
    Vector3::new(fl(r, mode), fl(r, mode), fl(r, mode))
}
pub fn v4(r: &mut Rng, mode: u8) -> Vector4 {
    Vector4::new(fl(r, mode), fl(r, mode), fl(r, mode), fl(r, mode))
}
/// A unit quaternion; sometimes w is negative or zero.
pub fn quat(r: &mut Rng) -> Vector4 {
    let mut q = [0f64; 4];
    loop {
        for x in q.iter_mut() {
            *x = (r.below(20001) as f64 - 10000.0) / 10000.0;
        }
        if r.chance(1, 6) {
            q[r.below(4)] = 0.0;
        }
        let n = q.iter().map(|x| x * x).sum::<f64>().sqrt();
        if n > 0.1 {
            let f = |k: usize| (q[k] / n) as f32;
            return Vector4::new(f(0), f(1), f(2), f(3));
        }
    }
}
/// n values: constant, slowly or arbitrarily varying.
pub fn series(r: &mut Rng, n: usize, mode: u8) -> Vec<f32> {
    let a = fl(r, mode);
    match r.below(5) {
        0 => vec![a; n],
        1 => {
            let b = fl(r, mode);
            (0..n).map(|_| if r.chance(1, 2) { a } else { b }).collect()
        }
        _ => (0..n).map(|_| fl(r, mode)).collect(),
    }
}
pub fn track_values(r: &mut Rng, n: usize, mode: u8) -> TrackValues {
    let k = r.below(6);
    track_values_of(r, k, n, mode)
}
/// x moved by one or a few units in the last place, or by a small relative or absolute amount.
pub fn nudge(r: &mut Rng, x: f32) -> f32 {
    if !x.is_finite() {
        return x;
    }
    match r.below(4) {
        0 => f32::from_bits(x.to_bits() ^ (1 << r.below(12))),
        1 => x * (1.0 + *r.pick(&[1e-6f32, -1e-5, 1e-4, 1e-3])),
        _ => x + *r.pick(&[1e-7f32, 1e-6, -1e-5, 1e-4, 1e-3, 1e-2]),
    }
}
/// Makes cells of a frame, or a cell over all frames, nearly or exactly equal.
fn blend(r: &mut Rng, n: usize, cells: usize, cell: &mut dyn FnMut(usize, usize, Option<f32>) -> f32) {
    if n == 0 || cells < 1 || r.chance(1, 2) {
        return;
    }
    // how frames differ from the rule: never, in one frame, in all
    let odd = r.below(3);
    let at = *r.pick(&[0, n - 1, n / 2, n.saturating_sub(2)]);
    let apart = |i: usize| odd == 2 || (odd == 1 && i == at);
    if r.chance(1, 2) && cells > 1 {
        // cell b follows cell a; often the first ones
        let a = if r.chance(1, 2) { 0 } else { r.below(cells) };
        let group = if r.chance(1, 2) { vec![(a + 1) % cells, (a + 2) % cells] } else { vec![(a + 1) % cells] };
        for i in 0..n {
            let x = cell(i, a, None);
            for b in &group {
                cell(i, *b, Some(if apart(i) { nudge(r, x) } else { x }));
            }
        }
    } else {
        for c in 0..cells {
            if r.chance(1, 4) {
                continue;
            }
            let x = cell(0, c, None);
            for i in 0..n {
                cell(i, c, Some(if apart(i) { nudge(r, x) } else { x }));
            }
        }
    }
}
pub fn track_values_of(r: &mut Rng, k: usize, n: usize, mode: u8) -> TrackValues {
    let put = |p: &mut f32, x: Option<f32>| {
        if let Some(x) = x {
            *p = x;
        }
        *p
    };
    let mut v = track_values_base(r, k, n, mode);
    match &mut v {
        TrackValues::Transform(v) => blend(r, n, 6, &mut |i, c, x| put(match c {
            0 => &mut v[i].scale.x,
            1 => &mut v[i].scale.y,
            2 => &mut v[i].scale.z,
            3 => &mut v[i].translation.x,
            4 => &mut v[i].translation.y,
            _ => &mut v[i].translation.z,
        }, x)),
        TrackValues::UvTransform(v) => blend(r, n, 5, &mut |i, c, x| put(match c {
            0 => &mut v[i].scale_u,
            1 => &mut v[i].scale_v,
            2 => &mut v[i].rotation,
            3 => &mut v[i].translate_u,
            _ => &mut v[i].translate_v,
        }, x)),
        TrackValues::Float(v) => blend(r, n, 1, &mut |i, _, x| put(&mut v[i], x)),
        TrackValues::Vector4(v) => blend(r, n, 4, &mut |i, c, x| put(match c {
            0 => &mut v[i].x,
            1 => &mut v[i].y,
            2 => &mut v[i].z,
            _ => &mut v[i].w,
        }, x)),
        _ => {}
    }
    v
}
fn track_values_base(r: &mut Rng, k: usize, n: usize, mode: u8) -> TrackValues {
    match k {
        0 => {
            let mut v: Vec<Transform> = vec![];
            let q = quat(r);
            let same = r.chance(1, 4);
            let uni = r.chance(1, 4);
            let comp: Vec<Vec<f32>> = (0..6).map(|_| series(r, n, mode)).collect();
            for k in 0..n {
                v.push(Transform {
                    scale: if uni { Vector3::new(comp[0][k], comp[0][k], comp[0][k]) } else { Vector3::new(comp[0][k], comp[1][k], comp[2][k]) },
                    rotation: if same { q } else { quat(r) },
                    translation: Vector3::new(comp[3][k], comp[4][k], comp[5][k]),
                });
            }
            TrackValues::Transform(v)
        }
        1 => {
            let c: Vec<Vec<f32>> = (0..5).map(|_| series(r, n, mode)).collect();
            TrackValues::UvTransform((0..n).map(|k| UvTransform { scale_u: c[0][k], scale_v: c[1][k], rotation: c[2][k], translate_u: c[3][k], translate_v: c[4][k] }).collect())
        }
        2 => TrackValues::Float(series(r, n, mode)),
        3 => {
            let hi = *r.pick(&[1usize, 2, 3, 9, 200, 70000, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, 1 << 25, u32::MAX as usize, 1 << 32]);
            let base = (*r.pick(&[0usize, 0, 5, 1000, (1 << 32) - hi])).min((1 << 32) - hi);
            let mut v: Vec<u32> = (0..n).map(|_| (base + r.below(hi)) as u32).collect();
            // the ends of the range
            if n > 1 && r.chance(1, 2) {
                let (i, j) = (r.below(n), r.below(n - 1));
                v[i] = base as u32;
                v[if j < i { j } else { j + 1 }] = (base + hi - 1) as u32;
            }
            TrackValues::PatternIndex(v)
        }
        4 => {
            let p = r.below(5);
            TrackValues::Boolean((0..n).map(|_| r.chance(p, 4)).collect())
        }
        _ => {
            let c: Vec<Vec<f32>> = (0..4).map(|_| series(r, n, mode)).collect();
            TrackValues::Vector4((0..n).map(|k| Vector4::new(c[0][k], c[1][k], c[2][k], c[3][k])).collect())
        }
    }
}
pub const GROUP_TYPES: [GroupType; 4] = [GroupType::Transform, GroupType::Visibility, GroupType::Material, GroupType::Camera];
pub struct AnimCfg {
    pub mode: u8,
    pub groups: usize,
    pub nodes: usize,
    pub tracks: usize,
    pub frames: usize,
}
impl AnimCfg {
    pub fn vary(r: &mut Rng, mode: u8) -> Self {
        AnimCfg { mode, groups: *r.pick(&[1, 2, 3]), nodes: *r.pick(&[1, 2, 3]), tracks: *r.pick(&[1, 2]), frames: *r.pick(&[1, 2, 4, 9, 20]) }.much(r)
    }
    /// Sometimes much of one thing.
    fn much(self, r: &mut Rng) -> Self {
        match r.below(240) {
            0 => AnimCfg { groups: 40, nodes: 2, tracks: 1, frames: 2, ..self },
            1 => AnimCfg { groups: 1, nodes: *r.pick(&[40, 140]), tracks: 1, frames: 2, ..self },
            2 => AnimCfg { groups: 1, nodes: 1, tracks: *r.pick(&[30, 90]), frames: 2, ..self },
            3 => AnimCfg { groups: 1, nodes: 1, tracks: 1, frames: *r.pick(&[70, 140, 300]), ..self },
            _ => self,
        }
    }
}
pub fn anim(r: &mut Rng, c: &AnimCfg, version: (u16, u16)) -> AnimData {
    let mut frames = 0;
    let groups = (0..r.below(c.groups + 1))
        .map(|_| GroupData {
            group_type: *r.pick(&GROUP_TYPES),
            nodes: (0..r.below(c.nodes + 1))
                .map(|_| NodeData {
                    name: name(r),
                    tracks: (0..r.below(c.tracks + 1))
                        .map(|_| {
                            let n = match r.below(8) {
                                0 => 0,
                                1 => 1,
                                2 => 2,
                                _ => r.below(c.frames + 1),
                            };
                            frames = frames.max(n);
                            let values = track_values(r, n, c.mode);
                            TrackData {
                                name: name(r),
                                compensate_scale: matches!(values, TrackValues::Transform(_)) && r.chance(1, 3),
                                transform_flags: transform_flags(r),
                                values,
                            }
                        })
                        .collect(),
                })
                .collect(),
        })
        .collect();
    let last = frames.saturating_sub(1) as f32;
    AnimData { major_version: version.0, minor_version: version.1, final_frame_index: if r.chance(1, 2) { last } else { last + *r.pick(&[0.5, 1.0, 100.0]) }, groups }
}

// ------------------------------------------------------------------ the others
pub fn matl(r: &mut Rng, c: &Cfg) -> MatlData {
    let mut m: MatlData = gen(r, c);
    m.major_version = 1;
    m.minor_version = 6;
    m
}
pub fn meshex(r: &mut Rng, c: &Cfg) -> MeshExData {
    gen(r, c)
}
/// Every combination in turn, and in any order.
pub fn transform_flags(r: &mut Rng) -> TransformFlags {
    thread_local!(static NEXT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });
    let f = if r.chance(1, 2) { r.below(16) } else { NEXT.with(|n| n.replace(n.get() + 1)) };
    TransformFlags { override_translation: f & 1 != 0, override_rotation: f & 2 != 0, override_scale: f & 4 != 0, override_compensate_scale: f & 8 != 0 }
}
