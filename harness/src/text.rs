//! Texts, names of enumerations, lists, vectors and comparison (D20).
use crate::gen::{f32_any, from_tree};
use crate::low::{file_tree, gen_file, kinds, scenario_file, vary};
use crate::obs::*;
use crate::rng::Rng;
use crate::tree::{bytes, tree};
use serde_json::{json, Value};
use ssbh_lib::formats::anim::GroupType;
use ssbh_lib::formats::matl::{BlendFactor, BlendOperation, CullMode, FillMode, FilteringType, MagFilter, MaxAnisotropy, MinFilter, ParamId, WrapMode};
use ssbh_lib::formats::nrpd::UnkFormat;
use ssbh_lib::formats::skel::BillboardType;
use ssbh_lib::*;
use ssbh_write::SsbhWrite;
use std::io::Cursor;
use std::str::FromStr;
use strum::IntoEnumIterator;

// ------------------------------------------------------------------ texts
/// The bytes of a text as they would be saved, without the NUL.
fn saved<T: SsbhWrite>(t: &T, offset: bool) -> Value {
    let mut c = Cursor::new(vec![]);
    t.ssbh_write(&mut c, &mut 0).unwrap();
    let b = c.into_inner();
    let at = if offset { u64::from_le_bytes(b[..8].try_into().unwrap()) as usize } else { 0 };
    bytes(b[at..].split(|x| *x == 0).next().unwrap())
}
fn shows<T: serde::Serialize>(t: &T, held: Value, s: Option<&str>, lossy: String) -> Value {
    // as JSON: a text, or nothing
    let written = match serde_json::to_value(t) {
        Ok(Value::String(s)) => json!([bytes(s.as_bytes())]),
        Ok(Value::Null) => json!([]),
        _ => json!(["other"]),
    };
    let s: Vec<Value> = s.iter().map(|s| bytes(s.as_bytes())).collect();
    json!({"held": held, "str": s, "lossy": bytes(lossy.as_bytes()), "json": written})
}
fn text_event(kind: &str, b: &[u8]) -> Value {
    let mut forms = vec![];
    let mut form = |how: &str, none: bool, f: &dyn Fn() -> Value| forms.push(json!({"how": how, "null": none, "r": run(|| Ok::<_, String>(f()))}));
    fn c<const N: usize>(t: CString<N>) -> Value {
        shows(&t, saved(&t, false), t.to_str(), t.to_string_lossy())
    }
    macro_rules! all {
        ($t:ty, $name:literal, $show:expr) => {
            form(concat!($name, "::from_bytes"), false, &|| $show(<$t>::from_bytes(b)));
            if let Ok(s) = std::str::from_utf8(b) {
                form(concat!($name, " from &str"), false, &|| $show(<$t>::from(s)));
                form(concat!($name, " from &String"), false, &|| $show(<$t>::from(&s.to_string())));
                form(concat!($name, " from String"), false, &|| $show(<$t>::from(s.to_string())));
                form(concat!($name, "::from_str"), false, &|| $show(<$t>::from_str(s).unwrap()));
            }
        };
    }
    all!(CString<1>, "CString1", c);
    all!(CString<4>, "CString<4>", c);
    all!(CString<8>, "CString<8>", c);
    all!(SsbhString, "SsbhString", |t: SsbhString| shows(&t, saved(&t, true), t.to_str(), t.to_string_lossy()));
    all!(SsbhString8, "SsbhString8", |t: SsbhString8| shows(&t, saved(&t, true), t.to_str(), t.to_string_lossy()));
    form("null SsbhString", true, &|| {
        let t: SsbhString = from_tree(&json!([])).unwrap();
        shows(&t, json!([]), t.to_str(), t.to_string_lossy())
    });
    form("null SsbhString8", true, &|| {
        let t: SsbhString8 = from_tree(&json!([])).unwrap();
        shows(&t, json!([]), t.to_str(), t.to_string_lossy())
    });
    json!({"op": "d20t", "kind": kind, "bytes": bytes(b), "forms": forms})
}

// ------------------------------------------------------------------ enumerations
fn n8(n: u64) -> Value {
    bytes(&n.to_le_bytes())
}
macro_rules! enums {
    ($out:expr, $r:expr, $k:expr; $($t:ident),*) => {$(
        let name = stringify!($t);
        let all: Vec<$t> = $t::iter().collect();
        let top = all.iter().map(|x| *x as u64).max().unwrap_or(0);
        let mut nums: Vec<u64> = (0..top + 20).collect();
        for x in &all {
            let x = *x as u64;
            nums.extend([x + 256, x + 65536, x | 1 << 32, x | 1 << 63, x.wrapping_neg()]);
        }
        nums.push(u64::MAX);
        for _ in 0..$k {
            nums.push($r.next() >> $r.below(64));
        }
        for n in nums {
            let v = run(|| {
                Ok::<_, String>(match $t::from_repr(n as usize) {
                    Some(x) => {
                        let s = x.to_string();
                        let p: Vec<Value> = $t::from_str(&s).iter().map(|y| n8(*y as u64)).collect();
                        json!({"named": [s], "number": n8(x as u64), "parsed": p})
                    }
                    None => json!({"named": [], "number": [], "parsed": []}),
                })
            });
            $out.emit(json!({"op": "d20e", "kind": "number", "enum": name, "num": n8(n), "r": v}));
        }
        let mut names: Vec<String> = all.iter().map(|x| x.to_string()).collect();
        $out.emit(json!({"op": "d20l", "kind": "list", "enum": name, "names": names}));
        for i in 0..names.len().min(40) {
            let s = names[if names.len() > 40 { $r.below(names.len()) } else { i }].clone();
            names.extend([s.to_lowercase(), s.to_uppercase(), format!("{s} "), format!("{s}0"), s[1..].to_string(), s[..s.len() - 1].to_string(), s.replace('_', "")]);
        }
        names.push(String::new());
        names.push("0".into());
        for s in names {
            let v = run(|| Ok::<_, String>(json!($t::from_str(&s).iter().map(|y| n8(*y as u64)).collect::<Vec<_>>())));
            $out.emit(json!({"op": "d20n", "kind": "name", "enum": name, "name": s, "r": v}));
        }
    )*};
}

// ------------------------------------------------------------------ comparison
/// Changes one place of a tree: a byte, a variant's contents, or the length of a list.
fn alter(r: &mut Rng, v: &mut Value) {
    match v {
        Value::Array(a) if a.is_empty() => {
            if r.chance(1, 2) {
                a.push(json!(65));
            }
        }
        Value::Array(a) => {
            let i = r.below(a.len());
            if a[i].is_number() {
                match r.below(4) {
                    0 => a[i] = json!(a[i].as_u64().unwrap() ^ 1 << r.below(8)),
                    1 => a[i] = json!(r.below(256)),
                    2 => {
                        let x = a[i].clone();
                        a.insert(i, x)
                    }
                    _ => {
                        a.remove(i);
                    }
                }
            } else {
                match r.below(12) {
                    0 => {
                        let x = a[i].clone();
                        a.insert(i, x)
                    }
                    1 => {
                        a.remove(i);
                    }
                    2 => {
                        let j = r.below(a.len());
                        a.swap(i, j)
                    }
                    3 => a.truncate(i),
                    _ => alter(r, &mut a[i]),
                }
            }
        }
        Value::Object(o) => {
            let keys: Vec<String> = o.keys().filter(|k| *k != "v").cloned().collect();
            if !keys.is_empty() {
                let k = r.pick(&keys).clone();
                alter(r, o.get_mut(&k).unwrap());
            }
        }
        Value::Number(n) => {
            let b = n.as_u64().unwrap_or(0) ^ 1 << r.below(8);
            *v = json!(b);
        }
        _ => {}
    }
}
fn compare_event(kind: &str, a: &SsbhFile, b: &SsbhFile) -> Value {
    let mut ev = file_tree(a);
    ev["op"] = json!("d20c");
    ev["kind"] = json!(kind);
    ev["b"] = file_tree(b);
    macro_rules! cmp {
        ($($f:ident),*) => {
            match (&a.data, &b.data) {
                $((Ssbh::$f(x), Ssbh::$f(y)) => run(|| {
                    let c = x.data.clone();
                    Ok::<_, String>(json!({"eq": x.data == y.data, "qe": y.data == x.data, "copy": tree(&c)["d"]}))
                }),)*
                _ => panic!("formats differ"),
            }
        };
    }
    ev["r"] = cmp!(Hlpb, Matl, Modl, Mesh, Skel, Anim, Nlst, Nrpd, Nufx, Shdr);
    ev
}
fn compare(out: &mut Out, r: &mut Rng, kind: &str, a: &SsbhFile, times: usize) {
    let t = tree(a);
    out.emit(compare_event(kind, a, &from_tree(&t).unwrap()));
    for _ in 0..times {
        let mut u = t.clone();
        for _ in 0..1 + r.below(8) / 6 {
            alter(r, &mut u["d"]["d"]);
        }
        if let Ok(b) = from_tree::<SsbhFile>(&u) {
            out.emit(compare_event(kind, a, &b));
        }
    }
}

// ------------------------------------------------------------------ vectors
fn cells(f: &[f32]) -> Value {
    json!(f.iter().map(|x| x.to_le_bytes()).collect::<Vec<_>>())
}
fn vector_event(r: &mut Rng) -> Value {
    let mode = r.below(3) as u8;
    let mut f = || if r.chance(1, 6) { *r.pick(&[0.0, -0.0, 1.0, -1.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MIN_POSITIVE, 1e-45]) } else { f32_any(r, mode) };
    let a = [f(), f(), f(), f()];
    let mut b = [f(), f(), f(), f()];
    let m = [[f(), f(), f(), f()], [f(), f(), f(), f()], [f(), f(), f(), f()], [f(), f(), f(), f()]];
    if r.chance(1, 4) {
        b[r.below(4)] = a[0];
        let i = r.below(4);
        b[i] = -a[i];
    }
    let v = run(|| {
        let (x, y) = (Vector4::new(a[0], a[1], a[2], a[3]), Vector4::from(b));
        let (x3, y3) = (Vector3::new(a[0], a[1], a[2]), Vector3::from([b[0], b[1], b[2]]));
        let t4: (f32, f32, f32, f32) = x.into();
        let t3: (f32, f32, f32) = x3.into();
        let a4: [f32; 4] = x.into();
        let a3: [f32; 3] = x3.into();
        let f4 = |v: Vector4| cells(&[v.x, v.y, v.z, v.w]);
        let f3 = |v: Vector3| cells(&[v.x, v.y, v.z]);
        let same = json!([
            {"how": "Vector3::new", "n": 3, "v": f3(x3)},
            {"how": "Vector4::new", "n": 4, "v": f4(x)},
            {"how": "Vector3::to_array", "n": 3, "v": cells(&x3.to_array())},
            {"how": "Vector4::to_array", "n": 4, "v": cells(&x.to_array())},
            {"how": "Vector3::extend", "n": 4, "v": f4(x3.extend(a[3]))},
            {"how": "Vector4::xyz", "n": 3, "v": f3(x.xyz())},
            {"how": "tuple from Vector3", "n": 3, "v": cells(&[t3.0, t3.1, t3.2])},
            {"how": "tuple from Vector4", "n": 4, "v": cells(&[t4.0, t4.1, t4.2, t4.3])},
            {"how": "array from Vector3", "n": 3, "v": cells(&a3)},
            {"how": "array from Vector4", "n": 4, "v": cells(&a4)},
            {"how": "Vector3 from array", "n": 3, "v": f3([a[0], a[1], a[2]].into())},
            {"how": "Vector4 from array", "n": 4, "v": f4(a.into())},
            {"how": "Vector3 from tuple", "n": 3, "v": f3((a[0], a[1], a[2]).into())},
            {"how": "Vector4 from tuple", "n": 4, "v": f4((a[0], a[1], a[2], a[3]).into())},
        ]);
        let p3 = |m: &[[f32; 3]; 3]| json!(m.iter().map(|c| cells(c)).collect::<Vec<_>>());
        let p4 = |m: &[[f32; 4]; 4]| json!(m.iter().map(|c| cells(c)).collect::<Vec<_>>());
        let part = [0, 1, 2].map(|c| [m[c][0], m[c][1], m[c][2]]);
        let (m3, m4) = (Matrix3x3::from_cols_array(&part), Matrix4x4::from_cols_array(&m));
        Ok::<_, String>(json!({
            "same": same, "zero": [f3(Vector3::ZERO), f4(Vector4::ZERO)],
            "min3": f3(x3.min(y3)), "max3": f3(x3.max(y3)), "min4": f4(x.min(y)), "max4": f4(x.max(y)),
            "id3": p3(&Matrix3x3::identity().to_cols_array()), "id4": p4(&Matrix4x4::identity().to_cols_array()),
            "cols3": p3(&m3.to_cols_array()), "cols4": p4(&m4.to_cols_array()),
            "stored3": [f3(m3.col1), f3(m3.col2), f3(m3.col3)], "stored4": [f4(m4.col1), f4(m4.col2), f4(m4.col3), f4(m4.col4)],
        }))
    });
    json!({"op": "d20v", "kind": "vectors", "a": cells(&a), "b": cells(&b), "m": m.map(|c| cells(&c)), "r": v})
}

// ------------------------------------------------------------------ lists and offsets
fn hold_event(r: &mut Rng) -> Value {
    let n = if r.chance(1, 20) { r.below(400) } else { r.below(6) };
    let list: Vec<u16> = (0..n).map(|_| r.next() as u16).collect();
    let b = r.bytes(n);
    let value = r.next() as u32;
    let other = value ^ 1 << r.below(32);
    let v = run(|| {
        let mut h = vec![];
        let mut add = |how: &str, held: Value, given: Value| h.push(json!({"how": how, "held": held, "given": given}));
        let l = json!(list);
        add("SsbhArray::from_vec", json!(SsbhArray::from_vec(list.clone()).elements), l.clone());
        add("SsbhArray from Vec", json!(SsbhArray::from(list.clone()).elements), l.clone());
        add("SsbhArray collect", json!(list.iter().copied().collect::<SsbhArray<u16>>().elements), l.clone());
        add("SsbhArray collect, of unknown length", json!(list.iter().copied().filter(|x| x % 3 > 0).collect::<SsbhArray<u16>>().elements), json!(list.iter().copied().filter(|x| x % 3 > 0).collect::<Vec<_>>()));
        add("SsbhArray clone", json!(SsbhArray::from_vec(list.clone()).clone().elements), l);
        add("SsbhArray::new", json!(SsbhArray::<u16>::new().elements), json!([]));
        add("SsbhArray::default", json!(SsbhArray::<u16>::default().elements), json!([]));
        add("SsbhByteBuffer::from_vec", json!(SsbhByteBuffer::from_vec(b.clone()).elements), json!(b));
        add("SsbhByteBuffer from Vec", json!(SsbhByteBuffer::from(b.clone()).elements), json!(b));
        add("SsbhByteBuffer::new", json!(SsbhByteBuffer::new().elements), json!([]));
        add("SsbhByteBuffer::default", json!(SsbhByteBuffer::default().elements), json!([]));
        let o = |x: &Option<u32>| json!(x.map(|x| x.to_le_bytes().to_vec()).into_iter().collect::<Vec<_>>());
        let (some, none) = (o(&Some(value)), o(&None));
        add("RelPtr64::new", o(&RelPtr64::new(value)), some.clone());
        add("RelPtr64::null", o(&RelPtr64::null()), none.clone());
        add("RelPtr64 from Some", o(&RelPtr64::from(Some(value))), some.clone());
        add("RelPtr64 from None", o(&RelPtr64::from(None)), none.clone());
        add("RelPtr64 clone", o(&RelPtr64::new(value).clone()), some.clone());
        let mut p = RelPtr64::new(value);
        *p = Some(other);
        add("RelPtr64 set", o(&p), o(&Some(other)));
        *p = None;
        add("RelPtr64 cleared", o(&p), none.clone());
        macro_rules! ptr {
            ($t:ident) => {
                add(concat!(stringify!($t), "::new"), o(&$t::new(value)), some.clone());
                add(concat!(stringify!($t), "::null"), o(&$t::null()), none.clone());
                add(concat!(stringify!($t), " clone"), o(&$t::new(value).clone()), some.clone());
                let mut p = $t::new(value);
                *p = Some(other);
                add(concat!(stringify!($t), " set"), o(&p), o(&Some(other)));
                *p = None;
                add(concat!(stringify!($t), " cleared"), o(&p), none.clone());
                let e = |a: Option<u32>, b: Option<u32>| {
                    let f = |x: Option<u32>| x.map($t::new).unwrap_or_else($t::null);
                    f(a) == f(b)
                };
                add(concat!(stringify!($t), " =="), json!([e(Some(value), Some(value)), e(Some(value), Some(other)), e(None, Some(value)), e(None, None)]), json!([true, false, false, true]));
            };
        }
        ptr!(Ptr16);
        ptr!(Ptr32);
        ptr!(Ptr64);
        let e = |a: Option<u32>, b: Option<u32>| RelPtr64::from(a) == RelPtr64::from(b);
        add("RelPtr64 ==", json!([e(Some(value), Some(value)), e(Some(value), Some(other)), e(None, Some(value)), e(None, None)]), json!([true, false, false, true]));
        let mut more = list.clone();
        more.push(value as u16);
        add("SsbhArray ==", json!([SsbhArray::from_vec(list.clone()) == SsbhArray::from_vec(list.clone()), SsbhArray::from_vec(list.clone()) == SsbhArray::from_vec(more.clone()), SsbhArray::from_vec(more) == SsbhArray::from_vec(list.clone())]), json!([true, false, false]));
        Ok::<_, String>(json!(h))
    });
    json!({"op": "d20h", "kind": "lists", "r": v})
}

pub fn d20(out: &mut Out, r: &mut Rng, texts: &[Value], files: &[Value], n: usize) {
    // every scenario, or as many as are judged in reasonable time
    let part = texts.len() / 40000 + 1;
    let first = r.below(part);
    for s in texts.iter().skip(first).step_by(part) {
        let b: Vec<u8> = s["bytes"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
        out.emit(text_event("MC_Text", &b));
    }
    for i in 0..n {
        let m = *r.pick(&[3, 8, 40, 300]);
        let k = r.below(m);
        let mut b = if i % 3 == 0 { r.bytes(k) } else { crate::gen::string(r, m, i % 3 == 1).into_bytes() };
        if r.chance(1, 3) && !b.is_empty() {
            let j = r.below(b.len());
            b[j] = *r.pick(&[0, 0, 128, 191, 192, 237, 240, 255]);
        }
        if r.chance(1, 8) {
            let j = r.below(b.len() + 1);
            b.truncate(j);
        }
        out.emit(text_event("random", &b));
    }
    enums!(out, r, 40; ParamId, FillMode, CullMode, WrapMode, MinFilter, MagFilter, FilteringType, MaxAnisotropy, BlendFactor, BlendOperation, GroupType, BillboardType, UnkFormat);
    for s in files {
        compare(out, r, "MC_Formats", &scenario_file(s), 1);
    }
    for _ in 0..n / 60 {
        for k in kinds() {
            let c = vary(r, false);
            let f = gen_file(r, &c, k);
            compare(out, r, "random", &f, 5);
            // two values that have nothing to do with each other
            let (c, k2) = (vary(r, false), (k.0, r.below(crate::low::FMTS[k.0].1.len())));
            let g = gen_file(r, &c, k2);
            out.emit(compare_event("two values", &f, &g));
        }
    }
    for _ in 0..n {
        out.emit(vector_event(r));
    }
    for _ in 0..n / 4 {
        out.emit(hold_event(r));
    }
}
