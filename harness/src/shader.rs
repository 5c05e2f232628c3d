//! Shader metadata (D18).
use crate::gen::{from_tree, string};
use crate::low::damage;
use crate::obs::*;
use crate::rng::Rng;
use crate::tree::{bytes, tree};
use serde_json::{json, Value};
use ssbh_data::shdr_data::{MetaData, ShaderBinary, ShdrData};
use ssbh_lib::formats::shdr::{Shader, ShaderStage, Shdr};
use ssbh_lib::{SsbhArray, SsbhByteBuffer, SsbhString};
use std::io::Cursor;

const TYPES: [u32; 15] = [0, 4, 7, 20, 22, 36, 37, 38, 39, 50, 67, 68, 69, 73, 103];

fn put(b: &mut Vec<u8>, at: usize, v: &[u8]) {
    if b.len() < at + v.len() {
        b.resize(at + v.len(), 0);
    }
    b[at..at + v.len()].copy_from_slice(v);
}
fn label(r: &mut Rng) -> Vec<u8> {
    match r.below(8) {
        0 => vec![],
        1 => { let n = r.below(6); r.bytes(n) }
        2 => "gl_Position".into(),
        3 => "größe_位置".into(),
        4 => { let n = 30 + r.below(80); string(r, n, true).into_bytes() }
        _ => string(r, 8, false).into_bytes(),
    }
}
/// A binary with its metadata laid out in any order, and the places of its numbers.
pub fn binary(r: &mut Rng) -> (Vec<u8>, Vec<(usize, usize)>) {
    let sizes = [108, 164, 92, 92];
    let used = [76, 104, 60, 60];
    let mut counts = [0usize; 4];
    let most = if r.chance(1, 60) { *r.pick(&[20, 70, 140]) } else { *r.pick(&[1, 2, 3, 5]) };
    counts.iter_mut().for_each(|c| *c = r.below(most + 1));
    let code = if r.chance(1, 2) { r.some(40, 30, 600) } else { 0 };
    let mut fields = vec![];
    let mut b = vec![];
    // anything may be between the parts
    if r.chance(1, 4) {
        b = r.bytes(2508);
    }
    put(&mut b, 2504, &(code as u32).to_le_bytes());
    if code > 0 {
        let c = r.bytes(code);
        put(&mut b, 2896, &c);
    }
    let base = *r.pick(&[396, 500, 1000, 2508, 2896 + 48, 3000]);
    let mut names: Vec<Vec<u8>> = (0..counts.iter().sum::<usize>()).map(|_| label(r)).collect();
    if r.chance(1, 4) && names.len() > 1 {
        names[0] = names[1].clone();
    }
    let mut order = [0, 1, 2, 3, 4];
    for i in (1..5).rev() {
        order.swap(i, r.below(i + 1));
    }
    // offsets of the names within the strings
    let mut strings = vec![];
    let mut at = vec![0; names.len()];
    let mut seq: Vec<usize> = (0..names.len()).collect();
    if r.chance(1, 2) {
        seq.reverse();
    }
    for i in seq {
        if let Some(j) = (0..i).find(|j| names[*j] == names[i] && at[*j] != 0) {
            at[i] = at[j];
            continue;
        }
        if r.chance(1, 4) {
            let n = r.below(5);
            strings.extend(r.bytes(n));
        }
        at[i] = strings.len();
        strings.extend(&names[i]);
        strings.push(0);
    }
    let mut rel = [0; 5];
    let mut pos = if r.chance(1, 2) { 0 } else { r.below(30) };
    // parts that would overlap the fixed header are moved behind it
    for &s in &order {
        let len = if s == 4 { strings.len() } else { counts[s] * sizes[s] };
        let code_from = 2504usize.min(base + pos);
        if base + pos < 2896 + code && base + pos + len > code_from && len > 0 {
            pos = 2896 + code - base.min(2896 + code);
            if base + pos < 2896 + code { pos = 2896 + code; }
        }
        rel[s] = pos;
        pos += len + r.below(12);
    }
    if r.chance(1, 3) {
        // the values themselves are not limited
        let v = r.next() as u32;
        put(&mut b, 288, &v.to_le_bytes());
        put(&mut b, 296, &v.to_le_bytes());
    }
    put(&mut b, 292, &(base as u32).to_le_bytes());
    fields.push((292, 4));
    for s in 0..4 {
        put(&mut b, 332 + 8 * s, &(counts[s] as u32).to_le_bytes());
        put(&mut b, 336 + 8 * s, &(rel[s] as u32).to_le_bytes());
        fields.extend([(332 + 8 * s, 4), (336 + 8 * s, 4)]);
    }
    put(&mut b, 384, &(rel[4] as u32 + strings.len() as u32).to_le_bytes());
    put(&mut b, 388, &(strings.len() as u32).to_le_bytes());
    put(&mut b, 392, &(rel[4] as u32).to_le_bytes());
    fields.extend([(388, 4), (392, 4), (2504, 4)]);
    let mut k = 0;
    for s in 0..4 {
        for i in 0..counts[s] {
            let p = base + rel[s] + sizes[s] * i;
            // the unused end of the last entry need not exist
            let whole = if r.chance(1, 2) { sizes[s] } else { used[s] };
            let filler = if r.chance(1, 3) { r.bytes(whole) } else { vec![0; whole] };
            put(&mut b, p, &filler);
            put(&mut b, p, &(at[k] as u32).to_le_bytes());
            put(&mut b, p + 4, &(names[k].len() as u32 + if names[k].is_empty() { r.below(2) as u32 } else { 1 }).to_le_bytes());
            for w in 0..(used[s] - 40) / 4 {
                let v = match r.below(4) { 0 => u32::MAX, 1 => r.below(5) as u32, 2 => 0x7fff_ffff + r.below(2) as u32, _ => r.next() as u32 };
                put(&mut b, p + 40 + 4 * w, &v.to_le_bytes());
            }
            if s > 0 {
                put(&mut b, p + 40, &r.pick(&TYPES).to_le_bytes());
                fields.push((p + 40, 4));
            }
            fields.extend([(p, 4), (p + 4, 4), (p, 4), (p + 4, 4)]);
            k += 1;
        }
    }
    put(&mut b, base + rel[4], &strings);
    fields.retain(|(p, w)| p + w <= b.len());
    (b, fields)
}
pub fn shdr(r: &mut Rng, binaries: Vec<Vec<u8>>) -> Shdr {
    Shdr::V12 {
        shaders: SsbhArray::from_vec(
            binaries
                .into_iter()
                .map(|b| Shader {
                    name: if r.chance(1, 6) { from_tree(&json!([])).unwrap() } else { string(r, 12, false).as_str().into() },
                    shader_stage: *r.pick(&[ShaderStage::Vertex, ShaderStage::Geometry, ShaderStage::Fragment, ShaderStage::Compute]),
                    unk3: 2,
                    binary_size: b.len() as u64,
                    shader_binary: SsbhByteBuffer::from_vec(b),
                })
                .collect(),
        ),
    }
}
fn event(kind: &str, s: &Shdr, r: &mut Rng, path: &str) -> Value {
    let Shdr::V12 { shaders } = s;
    let before = s.clone();
    let (x, k1) = peak(|| run(|| if r.chance(1, 2) { ShdrData::try_from(s).map(|d| tree(&d)) } else { ShdrData::try_from(s.clone()).map(|d| tree(&d)) }));
    let mut file = Cursor::new(vec![]);
    let (fromfile, k2) = match attempt(|| s.write(&mut file)) {
        Ok(()) => {
            file.set_position(0);
            peak(|| run(|| ShdrData::read(&mut file).map(|d| tree(&d))))
        }
        Err(e) => (e, 0),
    };
    // the same from files
    let disk = match std::fs::write(path, file.get_ref()) {
        Ok(()) if !file.get_ref().is_empty() => run(|| ShdrData::from_file(path).map(|d| tree(&d))),
        _ => fromfile.clone(),
    };
    let after = if before == *s { "same" } else { "changed" };
    let first = shaders.elements.first().map(|s| s.shader_binary.elements.clone()).unwrap_or_default();
    // the position of the reader does not matter
    std::fs::write(path, &first).unwrap();
    let metafile = run(|| MetaData::from_file(path).map(|d| tree(&d)));
    let unchanged = std::fs::read(path).is_ok_and(|x| x == first);
    std::fs::remove_file(path).ok();
    let mut c = Cursor::new(first);
    c.set_position(r.below(9) as u64);
    let (meta, k3) = peak(|| run(|| MetaData::read(&mut c).map(|d| tree(&d))));
    c.set_position(r.below(9) as u64);
    let (code, k4) = peak(|| run(|| ShaderBinary::read(&mut c).map(|d| bytes(&d.program_code))));
    let list: Vec<Value> = shaders
        .elements
        .iter()
        .map(|x| json!({"name": tree(&x.name), "stage": tree(&x.shader_stage), "binary": bytes(&x.shader_binary.elements)}))
        .collect();
    json!({"op": "d18", "kind": kind, "shaders": list, "r": x, "fromfile": fromfile, "disk": disk, "metafile": metafile, "unchanged": unchanged, "after": after, "meta": meta, "code": code, "kib": k1.max(k2).max(k3).max(k4) / 1024})
}
pub fn d18(out: &mut Out, r: &mut Rng, scen: &[Value], n: usize, cur: &str) {
    let path = &format!("{cur}.shader");
    for s in scen {
        let len = s["len"].as_u64().unwrap() as usize;
        let mut b = vec![];
        for c in s["chunks"].as_array().unwrap() {
            let v: Vec<u8> = c[1].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
            put(&mut b, c[0].as_u64().unwrap() as usize, &v);
        }
        b.resize(len, 0);
        let f = shdr(r, vec![b]);
        out.emit(event("MC_Shader", &f, r, path));
    }
    for i in 0..n {
        let k = *r.pick(&[1, 1, 1, 2, 3, 0]);
        let mut bs = vec![];
        let mut kind = "well-formed";
        for _ in 0..k {
            let (mut b, f) = binary(r);
            if i % 2 == 1 && r.chance(1, k) {
                kind = damage(r, &mut b, &f);
            }
            bs.push(b);
        }
        let s = shdr(r, bs);
        out.emit(event(kind, &s, r, path));
    }
}
