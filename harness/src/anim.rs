//! Animations: D06 to D09.
use crate::data::*;
use crate::mesh::saved;
use crate::obs::*;
use crate::rng::Rng;
use crate::sch::by_bytes;
use crate::tree::{bytes, tree};
use serde_json::{json, Value};
use ssbh_data::anim_data::error::Error as AnimError;
use ssbh_data::anim_data::{AnimData, GroupData, NodeData, TrackData, TrackValues, TransformFlags};
use ssbh_data::prelude::*;
use ssbh_lib::formats::anim::{self, Anim, CompressionType, Group, GroupType, Node, Property, TrackFlags, TrackTypeV1, TrackTypeV2, TrackV1, TrackV2, UnkData};
use ssbh_lib::SsbhByteBuffer;

fn error_tree(e: &AnimError) -> Value {
    match e {
        AnimError::UnsupportedVersion { major_version, minor_version } => json!({"e": "UnsupportedVersion", "a": bytes(&major_version.to_le_bytes()), "b": bytes(&minor_version.to_le_bytes())}),
        AnimError::InvalidFinalFrameIndex { final_frame_index } => json!({"e": "InvalidFinalFrameIndex", "a": bytes(&final_frame_index.to_le_bytes()), "b": json!([])}),
        _ => json!({"e": "another error", "a": json!([]), "b": json!([])}),
    }
}
pub fn convert(d: &AnimData) -> Result<Anim, Value> {
    match attempt(|| Ok::<_, String>(Anim::try_from(d))) {
        Ok(Ok(m)) => Ok(m),
        Ok(Err(e)) => Err(json!({"k": "err", "e": error_tree(&e)})),
        Err(v) => Err(v),
    }
}
fn event(op: &str, kind: &str, d: &AnimData) -> Value {
    let mut e = json!({"op": op, "kind": kind, "data": tree(d)});
    if op == "d06" {
        e["rt"] = match saved(|c| d.write(c), |c| AnimData::read(c)) {
            Ok(x) => ok(tree(&x)),
            Err(e) => e,
        };
    } else {
        e["lib"] = match convert(d) {
            Ok(m) => if op == "d09" { ok(json!([])) } else { ok(tree(&m)) },
            Err(e) => e,
        };
    }
    e
}
const TYPES: [(&str, usize); 6] = [("Transform", 0), ("UvTransform", 1), ("Float", 2), ("PatternIndex", 3), ("Boolean", 4), ("Vector4", 5)];
fn values_of(r: &mut Rng, t: &str, n: usize, mode: u8) -> TrackValues {
    let k = TYPES.iter().find(|x| x.0 == t).unwrap().1;
    track_values_of(r, k, n, mode)
}
fn bits(r: &mut Rng) -> TransformFlags {
    crate::data::transform_flags(r)
}
fn track(r: &mut Rng, t: &str, n: usize, mode: u8) -> TrackData {
    TrackData { name: name(r), compensate_scale: t == "Transform" && r.chance(1, 2), transform_flags: bits(r), values: values_of(r, t, n, mode) }
}
/// An animation of the shape of a scenario of MC_Anim.
fn shaped(r: &mut Rng, s: &Value, mode: u8) -> AnimData {
    let mut longest = 0;
    let mut groups: Vec<GroupData> = vec![];
    for g in s["groups"].as_array().unwrap() {
        let mut nodes = vec![];
        for n in g.as_array().unwrap() {
            let tracks = n
                .as_array()
                .unwrap()
                .iter()
                .map(|t| {
                    let k = t["n"].as_u64().unwrap() as usize;
                    longest = longest.max(k);
                    track(r, t["t"].as_str().unwrap(), k, mode)
                })
                .collect();
            nodes.push(NodeData { name: name(r), tracks });
        }
        groups.push(GroupData { group_type: *r.pick(&GROUP_TYPES), nodes });
    }
    let last = longest as f32 - 1.0;
    AnimData { major_version: 2, minor_version: s["minor"].as_u64().unwrap() as u16, final_frame_index: last.max(0.0) + *r.pick(&[0.0, 0.0, 0.25, 3.0]), groups }
}
/// A single track of a length around where compression starts, or longer.
fn lengths(r: &mut Rng, t: &str) -> usize {
    let x = match t {
        "Transform" => 5,
        "UvTransform" => 6,
        "Boolean" => 34,
        "Vector4" => 7,
        _ => 10,
    };
    match r.below(6) {
        0 => r.below(4),
        1 => x,
        2 => x + 1,
        3 => x + 2,
        _ => x + 2 + r.below(12),
    }
}
/// d06, d07
pub fn saving(out: &mut Out, r: &mut Rng, op: &str, scen: &[Value], n: usize) {
    for s in scen {
        let mode = *r.pick(&[2u8, 3, 1]);
        let d = shaped(r, s, mode);
        out.emit(event(op, "MC_Anim", &d));
    }
    for i in 0..n {
        let mode = *r.pick(&[0u8, 1, 2, 3, 3, 3, 4, 5]);
        let version = (2, r.below(2) as u16);
        if i % 4 == 0 {
            let c = AnimCfg::vary(r, mode);
            out.emit(event(op, "structure", &anim(r, &c, version)));
        } else {
            let t = TYPES[r.below(6)].0;
            let k = lengths(r, t);
            let mut tracks = vec![track(r, t, k, mode)];
            if r.chance(1, 3) {
                tracks.push(track(r, "Float", 2, mode));
            }
            let d = AnimData {
                major_version: version.0,
                minor_version: version.1,
                final_frame_index: k.max(2) as f32,
                groups: vec![GroupData { group_type: *r.pick(&GROUP_TYPES), nodes: vec![NodeData { name: name(r), tracks }] }],
            };
            out.emit(event(op, t, &d));
        }
    }
}
/// Versions and final frames.
pub fn d09(out: &mut Out, r: &mut Rng, scen: &[Value], n: usize) {
    for s in scen {
        let mut d = shaped(r, s, 2);
        let w = |k: &str| s[k].as_u64().unwrap() as u16;
        d.major_version = w("major");
        d.final_frame_index = by_f32(&s["last"]);
        out.emit(event("d09", "MC_AnimErr", &d));
    }
    for _ in 0..n {
        let c = AnimCfg::vary(r, 2);
        let mut d = anim(r, &c, (2, 1));
        let longest = d.groups.iter().flat_map(|g| &g.nodes).flat_map(|n| &n.tracks).map(|t| t.values.len()).max().unwrap_or(0) as f32;
        if r.chance(1, 3) {
            let any = r.next() as u16;
            d.major_version = *r.pick(&[0, 1, 2, 2, 3, 512, any]);
            d.minor_version = *r.pick(&[0, 1, 2, 3, 256, 257, any]);
        }
        if r.chance(2, 3) {
            let e = longest - 1.0;
            let any = fl(r, 0);
            d.final_frame_index = *r.pick(&[e, e.max(0.0), e - 1.0, e + 1.0, e - 0.5, e + 0.5, f32::from_bits(e.to_bits().wrapping_sub(1)), f32::from_bits(e.to_bits() + 1), -0.0, 0.0, -1.0, -0.5, -1e-40, 1e-40, 1e30, -1e30, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, any]);
        }
        out.emit(event("d09", "any", &d));
    }
}
fn by_f32(v: &Value) -> f32 {
    let b = by_bytes(v);
    f32::from_le_bytes([b[0], b[1], b[2], b[3]])
}

// ------------------------------------------------------------------ loading files
fn file_event(out: &mut Out, kind: &str, a: &Anim, cur: &str) {
    let mut e = json!({"op": "animfile", "kind": kind, "f": tree(a)});
    std::fs::write(cur, e.to_string()).unwrap();
    let (x, kib) = peak(|| attempt(|| AnimData::try_from(a).map_err(|e| e.to_string())));
    e["r"] = match x {
        Ok(d) => ok(tree(&d)),
        Err(e) => e,
    };
    e["kib"] = json!(kib / 1024);
    out.emit(e);
}
fn ranges_of(t: &str) -> usize {
    match t {
        "Transform" => 9,
        "UvTransform" => 5,
        "Vector4" => 4,
        _ => 1,
    }
}
fn value_size(t: &str) -> usize {
    match t {
        "Transform" => 44,
        "UvTransform" => 20,
        "Vector4" => 16,
        "Boolean" => 1,
        _ => 4,
    }
}
fn type_of(t: &str) -> TrackTypeV2 {
    match t {
        "Transform" => TrackTypeV2::Transform,
        "UvTransform" => TrackTypeV2::UvTransform,
        "Float" => TrackTypeV2::Float,
        "PatternIndex" => TrackTypeV2::PatternIndex,
        "Boolean" => TrackTypeV2::Boolean,
        _ => TrackTypeV2::Vector4,
    }
}
fn range_float(r: &mut Rng) -> f32 {
    match r.below(5) {
        0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.5]),
        1 => fl(r, 0),
        _ => fl(r, 3),
    }
}
/// The bytes of a compressed track of n frames that some other tool might have stored.
fn compressed(r: &mut Rng, t: &str, n: usize) -> Vec<u8> {
    let k = ranges_of(t);
    let flags: u8 = match r.below(3) {
        0 => *r.pick(&[13, 15]),
        1 => r.below(16) as u8,
        _ => r.below(16) as u8 | (r.below(16) as u8) << 4,
    };
    let style = r.below(5);
    let one = r.below(33) as u64;
    let mut w = vec![];
    let mut rs = vec![];
    for _ in 0..k {
        let any = r.below(33) as u64;
        let b = match style {
            0 => 24,
            1 => one,
            2 => *r.pick(&[0u64, 1, 7, 8, 9, 16, 23, 24, 25, 31, 32]),
            3 => *r.pick(&[0, 0, 24, any]),
            _ => any,
        };
        if t == "PatternIndex" {
            let lo = *r.pick(&[0u32, 0, 1, 77, 65536, u32::MAX - 3, u32::MAX]);
            let lo = if r.chance(1, 3) { r.next() as u32 } else { lo };
            rs.push((lo.to_le_bytes(), lo.wrapping_add(r.below(100) as u32).to_le_bytes(), b));
            w.push(b);
        } else {
            let lo = range_float(r);
            let hi = if r.chance(1, 4) { lo } else { range_float(r) };
            let (lo, hi) = if lo > hi && r.chance(3, 4) { (hi, lo) } else { (lo, hi) };
            rs.push((lo.to_le_bytes(), hi.to_le_bytes(), b));
            w.push(if t == "Boolean" { 1 } else if lo == hi { 0 } else { b });
        }
    }
    let f = |i: u8| flags >> i & 1 == 1;
    let total: u64 = match t {
        "Transform" => {
            (if !f(0) { 0 } else if f(1) { w[0] } else { w[0] + w[1] + w[2] })
                + (if f(2) { w[3] + w[4] + w[5] + 1 } else { 0 })
                + (if f(3) { w[6] + w[7] + w[8] } else { 0 })
        }
        "UvTransform" => if f(1) { w[0] + w[2] + w[3] + w[4] } else { w.iter().sum() },
        _ => w.iter().sum(),
    };
    let gap = if r.chance(1, 5) { r.below(9) } else { 0 };
    let head = 16 + 16 * k;
    let dp = head + gap;
    let bp = dp + value_size(t) + if r.chance(1, 5) { r.below(9) } else { 0 };
    let mut v = vec![];
    v.extend([if r.chance(1, 6) { r.next() as u8 } else { 4 }, 0, flags, if r.chance(1, 6) { r.next() as u8 } else { 0 }]);
    v.extend((dp as u16).to_le_bytes());
    v.extend((total as u16).to_le_bytes());
    v.extend((bp as u32).to_le_bytes());
    v.extend((n as u32).to_le_bytes());
    for (a, b, c) in rs {
        v.extend(a);
        v.extend(b);
        v.extend(c.to_le_bytes());
    }
    v.resize(dp, 0xAA);
    // the default
    if t == "PatternIndex" {
        v.extend((r.next() as u32).to_le_bytes());
    } else if t == "Boolean" {
        v.push(*r.pick(&[0, 1, 2, 255]));
    } else {
        for _ in 0..value_size(t) / 4 {
            v.extend(range_float(r).to_le_bytes());
        }
        if t == "Transform" {
            let l = v.len();
            let c = *r.pick(&[0u32, 1, 1, 2, 256, 1 << 31]);
            v[l - 4..].copy_from_slice(&c.to_le_bytes());
        }
    }
    v.resize(bp, 0xBB);
    let len = (n as u64 * total).div_ceil(8) as usize;
    let fill = r.below(4);
    v.extend((0..len).map(|_| match fill {
        0 => 0xff,
        1 => if r.chance(1, 2) { 0xff } else { 0 },
        _ => r.next() as u8,
    }));
    if r.chance(1, 6) {
        let m = 1 + r.below(9);
        v.extend(r.bytes(m));
    }
    v
}
fn plain(r: &mut Rng, t: &str, n: usize) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..n {
        match t {
            "Boolean" => v.push(*r.pick(&[0, 1, 1, 2, 128, 255])),
            "PatternIndex" => v.extend((r.next() as u32).to_le_bytes()),
            _ => {
                let floats = value_size(t) / 4 - (t == "Transform") as usize;
                for _ in 0..floats {
                    v.extend(fl(r, 0).to_le_bytes());
                }
                if t == "Transform" {
                    v.extend(r.pick(&[0u32, 1, 1, 2, 256, 1 << 31]).to_le_bytes());
                }
            }
        }
    }
    if r.chance(1, 6) {
        v.push(7);
    }
    v
}
pub fn foreign_file(r: &mut Rng, hurt: bool) -> Anim {
    let mut buffer: Vec<u8> = if r.chance(1, 4) { r.bytes(5) } else { vec![] };
    let ng = r.below(3) + 1;
    let mut groups = vec![];
    for _ in 0..ng {
        let mut nodes = vec![];
        for _ in 0..r.below(3) {
            let mut tracks = vec![];
            for _ in 0..r.below(3) {
                let t = TYPES[r.below(6)].0;
                let mut n = r.below(9);
                let c = *r.pick(&[CompressionType::Direct, CompressionType::ConstTransform, CompressionType::Compressed, CompressionType::Compressed, CompressionType::Compressed, CompressionType::Constant]);
                let mut v = if c == CompressionType::Compressed { compressed(r, t, n) } else { plain(r, t, n) };
                if hurt && r.chance(1, 2) {
                    match r.below(6) {
                        0 => n = *r.pick(&[n + 1, n + 2, n + 9, 1000, 1 << 20, u32::MAX as usize]),
                        1 => {
                            let l = r.below(v.len() + 1);
                            v.truncate(l)
                        }
                        2 | 3 if v.len() > 16 => {
                            // a word of the header
                            let (at, w) = *r.pick(&[(4, 2), (6, 2), (8, 4), (2, 2)]);
                            let x = match r.below(4) {
                                0 => r.next(),
                                1 => 0,
                                2 => (v.len() + r.below(3) - 1) as u64,
                                _ => (u16::from_le_bytes([v[at], v[at + 1]]) as u64 + r.below(3) as u64).wrapping_sub(1),
                            };
                            v[at..at + w].copy_from_slice(&x.to_le_bytes()[..w]);
                        }
                        4 if v.len() > 32 => {
                            // a bit count
                            let at = 16 + 16 * r.below(ranges_of(t)) + 8;
                            let any = r.next();
                            let x = *r.pick(&[0u64, 1, 24, 32, 33, 64, 65, 256 + 24, (1 << 32) + 24, u64::MAX, any]);
                            if at + 8 <= v.len() {
                                v[at..at + 8].copy_from_slice(&x.to_le_bytes());
                            }
                        }
                        _ => {
                            if !v.is_empty() {
                                let at = r.below(v.len());
                                v[at] = r.next() as u8;
                            }
                        }
                    }
                }
                let share = r.chance(1, 12) && !buffer.is_empty();
                let mut off = if share { r.below(buffer.len()) as u32 } else { buffer.len() as u32 };
                let mut size = if share { (buffer.len() - off as usize) as u64 } else { v.len() as u64 };
                if !share {
                    buffer.extend(&v);
                }
                if hurt && r.chance(1, 8) {
                    let any = r.next();
                    match r.below(3) {
                        0 => off = *r.pick(&[0, u32::MAX, u32::MAX - 3, off.wrapping_sub(1), off.wrapping_add(1), any as u32]),
                        1 => size = *r.pick(&[0, u64::MAX, u64::MAX - off as u64, (u64::MAX - off as u64).wrapping_add(1), 1 << 32, size + 1, size.wrapping_sub(1), any]),
                        _ => {
                            off = buffer.len() as u32;
                            size = *r.pick(&[0, 1]);
                        }
                    }
                }
                let fb = match r.below(4) {
                    0 => r.next() as u32,
                    _ => r.below(16) as u32,
                };
                tracks.push(TrackV2 {
                    name: name(r).as_str().into(),
                    flags: TrackFlags { track_type: type_of(t), compression_type: c },
                    frame_count: n as u32,
                    transform_flags: anim::TransformFlags::from_bytes(fb.to_le_bytes()),
                    data_offset: off,
                    data_size: size,
                });
                if r.chance(1, 8) {
                    let junk = r.below(4);
                    buffer.extend(vec![0xCC; junk]);
                }
            }
            nodes.push(Node { name: name(r).as_str().into(), tracks: tracks.into() });
        }
        groups.push(Group { group_type: *r.pick(&[GroupType::Transform, GroupType::Visibility, GroupType::Material, GroupType::Camera]), nodes: nodes.into() });
    }
    file(fl(r, 0), r.chance(1, 2), groups, buffer)
}
fn file(last: f32, old: bool, groups: Vec<Group>, buffer: Vec<u8>) -> Anim {
    let buffer = SsbhByteBuffer { elements: buffer };
    if old {
        Anim::V20 { final_frame_index: last, unk1: 1, unk2: 3, name: "".into(), groups: groups.into(), buffer }
    } else {
        Anim::V21 { final_frame_index: last, unk1: 1, unk2: 3, name: "x".into(), groups: groups.into(), buffer, unk_data: UnkData { unk1: vec![].into(), unk2: vec![].into() } }
    }
}
/// Version 1.2.
pub fn old_file(r: &mut Rng, hurt: bool) -> Anim {
    let nb = r.below(6);
    let buffers: Vec<SsbhByteBuffer> = (0..nb)
        .map(|_| {
            let head = *r.pick(&[0x1003u32, 0x2003, 0x3003, 0x4003, 0x1013, 0x3409, 0x4409, 0x4308, 0x4308, 0x9999]);
            let mut v = head.to_le_bytes().to_vec();
            let need = match head {
                0x1003 => 4,
                0x2003 => 8,
                0x3003 => 12,
                0x4003 => 16,
                0x1013 => 2,
                0x3409 => 52,
                0x4409 => 64,
                0x4308 => 4,
                _ => 0,
            };
            if head == 0x4308 {
                let k = r.below(9);
                let l = if hurt { *r.pick(&[k as u32, 0, 1 << 20, 1 << 30, u32::MAX, u32::MAX - 3]) } else { k as u32 };
                v.extend(l.to_le_bytes());
                let m = 80 + r.below(3);
                v.extend(r.bytes(m));
            } else {
                let m = need + if r.chance(1, 2) { r.below(20) } else { 0 };
                v.extend(r.bytes(m));
            }
            if hurt && r.chance(1, 3) {
                let l = r.below(v.len() + 1);
                v.truncate(l);
            }
            SsbhByteBuffer { elements: v }
        })
        .collect();
    let tracks: Vec<TrackV1> = (0..r.below(5))
        .map(|_| TrackV1 {
            name: name(r).as_str().into(),
            track_type: *r.pick(&[TrackTypeV1::Transform, TrackTypeV1::UvTransform, TrackTypeV1::Visibility]),
            properties: (0..if nb == 0 && !hurt { 0 } else { r.below(3) })
                .map(|_| {
                    let any = r.next();
                    Property { name: name(r).as_str().into(), buffer_index: if hurt && r.chance(1, 8) { *r.pick(&[nb as u64, u64::MAX, 1 << 32, any]) } else { r.below(nb) as u64 } }
                })
                .collect::<Vec<_>>()
                .into(),
        })
        .collect();
    Anim::V12 { name: "a".into(), unk1: 0.0, final_frame_index: fl(r, 0), unk2: 0.0, unk3: 0.0, tracks: tracks.into(), buffers: buffers.into() }
}
/// Version 1.2 files that keep order among their tracks.
pub fn old_files(out: &mut Out, r: &mut Rng, n: usize, cur: &str) {
    for i in 0..n {
        let hurt = i % 3 == 2;
        let a = old_file(r, hurt);
        file_event(out, if hurt { "version 1.2 damaged" } else { "version 1.2" }, &a, cur);
    }
    std::fs::remove_file(cur).ok();
}
pub fn d08(out: &mut Out, r: &mut Rng, scen: &[Value], n: usize, cur: &str) {
    // tracks made by the specification
    for s in scen {
        let t = s["t"].as_str().unwrap();
        let b = by_bytes(&s["b"]);
        let tr = TrackV2 {
            name: "t".into(),
            flags: TrackFlags { track_type: type_of(t), compression_type: CompressionType::Compressed },
            frame_count: s["n"].as_u64().unwrap() as u32,
            transform_flags: anim::TransformFlags::from_bytes([r.below(16) as u8, 0, 0, 0]),
            data_offset: 0,
            data_size: b.len() as u64,
        };
        let g = Group { group_type: GroupType::Transform, nodes: vec![Node { name: "n".into(), tracks: vec![tr].into() }].into() };
        let a = file(0.0, r.chance(1, 2), vec![g], b);
        file_event(out, "MC_AnimBits", &a, cur);
    }
    for i in 0..n {
        let hurt = i % 2 == 1;
        let a = foreign_file(r, hurt);
        file_event(out, if hurt { "damaged" } else { "any file" }, &a, cur);
    }
    std::fs::remove_file(cur).ok();
}
