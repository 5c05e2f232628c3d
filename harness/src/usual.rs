//! What files hold beyond what the data types represent (D23).
use crate::gen::{f32_any, gen, Cfg};
use crate::low::{file_tree, read_file};
use crate::obs::*;
use crate::rng::Rng;
use crate::saving::usual;
use crate::stable::{digest, Any};
use crate::tree::tree;
use serde_json::{json, Value};
use ssbh_data::SsbhData;
use ssbh_lib::formats::{anim::Anim, hlpb::Hlpb, matl::*, mesh::{BoundingVolume, Mesh}, meshex::MeshEx, skel::Skel};
use ssbh_lib::{CString, Matrix4x4, Ptr64, SsbhArray, SsbhString, Vector3};
use std::io::Cursor;

fn text(r: &mut Rng) -> SsbhString {
    if r.chance(1, 8) { gen(r, &Cfg { none: 100, ..Cfg::default() }) } else { SsbhString::from(*r.pick(&["", "a", "model", "c00 some longer name", "ü"])) }
}
fn any32(r: &mut Rng) -> u32 {
    *r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 255, 256, 65536, 16777217, u32::MAX])
}
fn vector(r: &mut Rng) -> Vector3 {
    Vector3::new(f32_any(r, 1), f32_any(r, 1), f32_any(r, 1))
}
macro_rules! inner {
    ($m:expr, $r:expr) => {{
        let m = $m;
        m.model_name = text($r);
        m.unk1 = any32($r);
        m.bounding_info.bounding_sphere.radius = f32_any($r, 1);
        for o in &mut m.objects.elements {
            if $r.chance(2, 3) {
                o.unk2 = any32($r);
                o.unk8 = any32($r);
                o.bounding_info.bounding_volume = BoundingVolume { min: vector($r), max: vector($r) };
                o.bounding_info.oriented_bounding_box.size = vector($r);
            }
        }
        for g in &mut m.rigging_buffers.elements {
            g.flags.unk1 = any32($r) as u8;
            g.flags.max_influences = any32($r) as u8;
        }
    }};
}
trait Hidden {
    /// Changes what the data does not represent.
    fn scramble(&mut self, r: &mut Rng);
    fn shown(&self, b: &[u8]) -> Value;
}
fn ssbh(b: &[u8]) -> Value {
    read_file(b).map_or_else(|e| e, |f| ok(file_tree(&f)))
}
impl Hidden for Mesh {
    fn scramble(&mut self, r: &mut Rng) {
        match self {
            Mesh::V8(m) => inner!(m, r),
            Mesh::V9(m) => inner!(m, r),
            Mesh::V10(m) => inner!(m, r),
        }
    }
    fn shown(&self, b: &[u8]) -> Value {
        ssbh(b)
    }
}
impl Hidden for Skel {
    fn scramble(&mut self, r: &mut Rng) {
        let Skel::V10 { bone_entries, world_transforms, inv_world_transforms, inv_transforms, .. } = self;
        for b in &mut bone_entries.elements {
            b.flags.unk1 = any32(r) as u8;
        }
        for l in [world_transforms, inv_world_transforms, inv_transforms] {
            for m in &mut l.elements {
                if r.chance(1, 2) {
                    *m = Matrix4x4::from_cols_array(&[[f32_any(r, 1); 4]; 4]);
                }
            }
        }
    }
    fn shown(&self, b: &[u8]) -> Value {
        ssbh(b)
    }
}
impl Hidden for Anim {
    fn scramble(&mut self, r: &mut Rng) {
        let c = Cfg { floats: 1, budget: 20, ..Cfg::default() };
        match self {
            Anim::V12 { .. } => {}
            Anim::V20 { unk1, unk2, name, .. } => {
                (*unk1, *unk2, *name) = (any32(r) as u16, any32(r) as u16, text(r));
            }
            Anim::V21 { unk1, unk2, name, unk_data, .. } => {
                (*unk1, *unk2, *name) = (any32(r) as u16, any32(r) as u16, text(r));
                *unk_data = gen(r, &c);
            }
        }
    }
    fn shown(&self, b: &[u8]) -> Value {
        ssbh(b)
    }
}
impl Hidden for Hlpb {
    fn scramble(&mut self, r: &mut Rng) {
        let Hlpb::V11 { aim_constraints, constraint_indices, constraint_types, .. } = self;
        for a in &mut aim_constraints.elements {
            for x in [&mut a.unk17, &mut a.unk18, &mut a.unk19, &mut a.unk20, &mut a.unk21, &mut a.unk22] {
                if r.chance(1, 3) {
                    *x = f32_any(r, 1);
                }
            }
        }
        match r.below(4) {
            0 => *constraint_indices = SsbhArray::new(),
            1 => *constraint_types = SsbhArray::new(),
            2 => constraint_indices.elements.iter_mut().for_each(|x| *x = any32(r)),
            _ => constraint_types.elements.reverse(),
        }
    }
    fn shown(&self, b: &[u8]) -> Value {
        ssbh(b)
    }
}
impl Hidden for Matl {
    fn scramble(&mut self, r: &mut Rng) {
        match self {
            Matl::V15 { entries } => {
                for a in entries.elements.iter_mut().flat_map(|e| &mut e.attributes.elements) {
                    match a.param.data.as_mut() {
                        Some(ParamV15::Sampler(s)) => (s.unk11, s.unk12) = (any32(r), any32(r)),
                        Some(ParamV15::BlendState(s)) => (s.unk7, s.unk8, s.unk9) = (any32(r), any32(r), any32(r)),
                        Some(ParamV15::Boolean(b)) if *b == 1 => *b = 1 + any32(r) % 300,
                        _ => {}
                    }
                }
            }
            Matl::V16 { entries } => {
                for a in entries.elements.iter_mut().flat_map(|e| &mut e.attributes.elements) {
                    match a.param.data.as_mut() {
                        Some(ParamV16::Sampler(s)) => (s.unk11, s.unk12) = (any32(r), any32(r)),
                        Some(ParamV16::BlendState(s)) => (s.unk8, s.unk9, s.unk10) = (any32(r), any32(r), any32(r)),
                        Some(ParamV16::RasterizerState(s)) => (s.unk4, s.unk5, s.unk6) = (f32_any(r, 1), f32_any(r, 1), any32(r)),
                        Some(ParamV16::Boolean(b)) if *b == 1 => *b = 1 + any32(r) % 300,
                        _ => {}
                    }
                }
            }
        }
    }
    fn shown(&self, b: &[u8]) -> Value {
        ssbh(b)
    }
}
impl Hidden for MeshEx {
    fn scramble(&mut self, r: &mut Rng) {
        self.unk1 = any32(r);
        if let Some(a) = self.all_data.as_mut() {
            a.bounding_sphere.radius = f32_any(r, 1);
            a.name = Ptr64::new(CString::from(*r.pick(&["", "all", "Everything"])));
        }
        if let Some(l) = self.entries.as_mut() {
            l.iter_mut().for_each(|e| e.unk1 = vector(r));
        }
        if let Some(l) = self.entry_flags.as_mut() {
            l.0.iter_mut().for_each(|f| *f = f.with_unk3(r.chance(1, 2)).with_unk4(r.chance(1, 2)).with_unk5(r.chance(1, 2)));
        }
    }
    fn shown(&self, b: &[u8]) -> Value {
        attempt(|| MeshEx::read(&mut Cursor::new(b))).map_or_else(|e| e, |m| ok(json!({"fmt": "MeshEx", "ver": "", "val": tree(&m)})))
    }
}
fn bytes_of<E: ToString>(w: impl FnOnce(&mut Cursor<Vec<u8>>) -> Result<(), E>) -> Result<Vec<u8>, Value> {
    attempt(|| {
        let mut c = Cursor::new(vec![]);
        w(&mut c).map(|_| c.into_inner()).map_err(|e| e.to_string())
    })
}
/// Follows what happens to a file; "others" scrambles it, "save" loads and saves it, which is done once more at the end.
fn story<D: SsbhData, L: Hidden>(fmt: &str, past: &[Value], d: &D, r: &mut Rng, read: impl Fn(&[u8]) -> Result<L, String>, write: impl Fn(&L, &mut Cursor<Vec<u8>>) -> Result<(), String>) -> Value {
    // values that are refused are judged elsewhere (D22)
    let made = bytes_of(|c| d.write(c).map_err(|e| e.to_string()));
    if matches!(&made, Err(e) if e["k"] == "err") {
        return Value::Null;
    }
    let again = |b: &[u8]| attempt(|| D::read(&mut Cursor::new(b)).map_err(|e| e.to_string())).and_then(|d| bytes_of(|c| d.write(c).map_err(|e| e.to_string())));
    let tell = |r: &mut Rng| {
        let mut plain = made.clone()?;
        let mut other = plain.clone();
        let mut last = attempt(|| read(&other))?;
        for p in past.iter().chain([&json!("save")]) {
            if p == "others" {
                last = attempt(|| read(&other))?;
                last.scramble(r);
                other = bytes_of(|c| write(&last, c))?;
            } else {
                plain = again(&plain)?;
                other = again(&other)?;
            }
        }
        Ok((plain, other, last))
    };
    let (file, plain, other) = match tell(r) {
        Ok((p, o, l)) => (l.shown(&o), digest(&p), digest(&o)),
        Err(e) => (e, json!([]), json!([])),
    };
    let first = made.clone().and_then(|b| attempt(|| read(&b)).map(|l| l.shown(&b)));
    let file = match first {
        // right after saving the data itself
        Ok(f) if r.chance(1, 4) => f,
        _ => file,
    };
    json!({"op": "d23", "kind": format!("{fmt} {}", past.len()), "fmt": fmt, "file": file, "plain": plain, "other": other})
}
pub fn d23(out: &mut Out, r: &mut Rng, scen: &[Value], n: usize) {
    for i in 0..n {
        let past = scen[(i / 6) % scen.len()]["past"].as_array().unwrap();
        macro_rules! of {
            ($fmt:expr, $d:expr, $t:ty) => {
                story($fmt, past, $d, r, |b| <$t>::read(&mut Cursor::new(b)).map_err(|e| e.to_string()), |l: &$t, c| l.write(c).map_err(|e| e.to_string()))
            };
        }
        let mut a = usual(r, [0, 1, 2, 3, 5, 7][i % 6]);
        if let Any::Mesh(d) = &mut a {
            if d.minor_version == 8 {
                // version 1.8 has none
                d.objects.iter_mut().for_each(|o| o.binormals.clear());
            }
        }
        let e = match &a {
            Any::Mesh(d) => of!("Mesh", d, Mesh),
            Any::Skel(d) => of!("Skel", d, Skel),
            Any::Anim(d) => of!("Anim", d, Anim),
            Any::Matl(d) => of!("Matl", d, Matl),
            Any::Hlpb(d) => of!("Hlpb", d, Hlpb),
            Any::MeshEx(d) => of!("MeshEx", d, MeshEx),
            _ => continue,
        };
        if e != Value::Null {
            out.emit(e);
        }
    }
}
