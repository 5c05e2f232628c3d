//! Observations of ssbh_lib.
use crate::gen::{gen, Cfg, LONG};
use crate::obs::*;
use crate::rng::Rng;
use crate::tree::{bytes, tree};
use serde_json::{json, Value};
use ssbh_lib::SsbhFile;
use std::io::Cursor;

pub const FMTS: [(&str, &[&str]); 10] = [
    ("Hlpb", &["V11"]),
    ("Matl", &["V15", "V16"]),
    ("Modl", &["V17"]),
    ("Mesh", &["V8", "V9", "V10"]),
    ("Skel", &["V10"]),
    ("Anim", &["V12", "V20", "V21"]),
    ("Nlst", &["V10"]),
    ("Nrpd", &["V16"]),
    ("Nufx", &["V0", "V1"]),
    ("Shdr", &["V12"]),
];

/// All (format index, version index) pairs.
pub fn kinds() -> Vec<(usize, usize)> {
    let mut k = vec![];
    for (i, (_, vs)) in FMTS.iter().enumerate() {
        for j in 0..vs.len() {
            k.push((i, j));
        }
    }
    k
}

pub fn gen_file(r: &mut Rng, c: &Cfg, (f, v): (usize, usize)) -> SsbhFile {
    let mut c = c.clone();
    c.force = vec![("Ssbh", f), (FMTS[f].0, v)];
    gen(r, &c)
}

/// {"fmt","ver","val"}
pub fn file_tree(f: &SsbhFile) -> Value {
    let t = tree(f);
    json!({"fmt": t["v"], "ver": t["d"]["v"], "val": t["d"]["d"]})
}

pub fn write_file(f: &SsbhFile) -> Result<Vec<u8>, Value> {
    attempt(|| {
        let mut c = Cursor::new(Vec::new());
        f.write(&mut c).map(|_| c.into_inner())
    })
}
pub fn read_file(b: &[u8]) -> Result<SsbhFile, Value> {
    attempt(|| SsbhFile::read(&mut Cursor::new(b)))
}
pub fn obytes(r: &Result<Vec<u8>, Value>) -> Value {
    match r {
        Ok(b) => ok(bytes(b)),
        Err(e) => e.clone(),
    }
}
pub fn err(e: &str) -> Value {
    json!({"k":"err","e":e})
}

/// A configuration that varies between runs of the generator.
pub fn vary(r: &mut Rng, big: bool) -> Cfg {
    let mut c = Cfg { budget: *r.pick(&[3, 10, 25, 60, 120]), len: *r.pick(&[1, 2, 3, 5]), none: *r.pick(&[0, 10, 30, 60]), ..Cfg::default() };
    if big {
        c.budget = 250;
        c.len = 7;
        c.none = 5;
        c.slen = 40;
    } else if r.chance(1, 12) {
        if r.chance(1, 2) {
            c.long = (1 + r.below(4), *r.pick(&LONG));
        } else {
            c.slong = (1 + r.below(4), *r.pick(&LONG));
            c.none = 0;
        }
    }
    c
}
/// A value with one very long text or buffer.
fn huge(r: &mut Rng) -> Cfg {
    let n = *r.pick(&[65_535, 65_536, 65_537, 66_001]);
    Cfg { none: 0, len: 2, slen: 5, budget: 40, slong: (1 + r.below(3), n), blong: (1, n), ..Cfg::default() }
}

fn l01_l02_event(op: &str, kind: &str, f: &SsbhFile) -> Value {
    let mut ev = file_tree(f);
    let w = write_file(f);
    ev["op"] = json!(op);
    ev["kind"] = json!(kind);
    ev["w"] = obytes(&w);
    if op == "l01" {
        let rd = match &w {
            Ok(b) => read_file(b),
            Err(_) => Err(err("not written")),
        };
        ev["rw"] = match &rd {
            Ok(f) => obytes(&write_file(f)),
            Err(_) => err("not read"),
        };
        ev["r"] = match &rd {
            Ok(f) => ok(file_tree(f)),
            Err(e) => e.clone(),
        };
    }
    ev
}
/// A value of a format chosen by MC_Formats.
pub fn scenario_file(s: &Value) -> SsbhFile {
    crate::gen::from_tree(&json!({"v": s["fmt"], "d": {"v": s["ver"], "d": s["val"]}})).expect("MC_Formats")
}
pub fn l01_l02(out: &mut Out, r: &mut Rng, scen: &[Value], n: usize, op: &str) {
    for s in scen {
        out.emit(l01_l02_event(op, "MC_Formats", &scenario_file(s)));
    }
    for i in 0..n {
        for k in kinds() {
            let c = vary(r, i % 10 == 9);
            let f = gen_file(r, &c, k);
            out.emit(l01_l02_event(op, "random", &f));
        }
    }
    for i in 0..1 + n / 400 {
        for k in kinds() {
            let c = huge(r);
            let f = gen_file(r, &c, k);
            out.emit(l01_l02_event(op, if i == 0 { "huge" } else { "random huge" }, &f));
        }
    }
}

// ------------------------------------------------------------------ reading
use crate::sch::{Scatter, Spec, Style};
use ssbh_lib::formats::{adj::Adj, meshex::MeshEx};

/// Reads b as the kind of file `kind` ("MeshEx", "Adj" or any SSBH format) and writes the value again.
pub fn read_event(op: &str, kind: &str, b: &[u8], utf8: bool) -> Value {
    macro_rules! plain {
        ($t:ty) => {{
            let (r, peak) = peak(|| attempt(|| <$t>::read(&mut Cursor::new(b))));
            match r {
                Ok(v) => {
                    let rw = attempt(|| {
                        let mut c = Cursor::new(Vec::new());
                        v.write(&mut c).map(|_| c.into_inner())
                    });
                    (ok(json!({"fmt": kind, "ver": "", "val": tree(&v)})), obytes(&rw), peak)
                }
                Err(e) => (e, err("not read"), peak),
            }
        }};
    }
    let (r, rw, peak) = match kind {
        "MeshEx" => plain!(MeshEx),
        "Adj" => plain!(Adj),
        _ => {
            let (r, peak) = peak(|| read_file(b));
            match r {
                Ok(f) => (ok(file_tree(&f)), obytes(&write_file(&f)), peak),
                Err(e) => (e, err("not read"), peak),
            }
        }
    };
    json!({"op": op, "fmt": kind, "bytes": bytes(b), "r": r, "rw": rw, "utf8": utf8, "kib": peak / 1024})
}

pub fn style(r: &mut Rng) -> Style {
    Style {
        ascii: r.chance(3, 5),
        share: *r.pick(&[0, 0, 20, 60]),
        none: *r.pick(&[0, 10, 30]),
        gap: *r.pick(&[0, 0, 1, 9]),
        len: *r.pick(&[1, 2, 3, 4]),
        odd: 0,
        max: *r.pick(&[100, 300, 700]),
        long: if r.chance(1, 12) { (1 + r.below(5), *r.pick(&LONG)) } else { (0, 0) },
        far: if r.chance(1, 150) { (1 + r.below(5), *r.pick(&[250, 65_530, 66_000])) } else { (0, 0) },
    }
}

pub fn l03(out: &mut Out, r: &mut Rng, spec: &Spec, n: usize) {
    for _ in 0..n {
        for (f, v) in spec.kinds() {
            let mut st = style(r);
            if !st.ascii {
                st.odd = *r.pick(&[0, 10, 40]);
            }
            let ascii = st.ascii;
            let mut s = Scatter::new(r, st);
            s.file(f, v);
            let b = std::mem::take(&mut s.b);
            let mut e = read_event("l03", f["fmt"].as_str().unwrap(), &b, ascii);
            e["kind"] = f["fmt"].clone();
            out.emit(e);
        }
    }
}

const WORDS: [u64; 14] = [
    0, 1, 2, 3, 7, 8, 0xff, 0x7fff_ffff, 0xffff_ffff, 1 << 32, i64::MAX as u64, 1 << 63, u64::MAX, u64::MAX - 7,
];

/// Damages a file in one of many ways.
pub fn damage(r: &mut Rng, b: &mut Vec<u8>, fields: &[(usize, usize)]) -> &'static str {
    if b.is_empty() {
        return "none";
    }
    match r.below(9) {
        0 | 1 => {
            let k = r.below(b.len() + 1);
            b.truncate(k);
            "truncated"
        }
        2 => {
            // cut near the end
            let k = b.len() - 1 - r.below(b.len().min(9));
            b.truncate(k);
            "shortened"
        }
        3..=6 if !fields.is_empty() => {
            for _ in 0..*r.pick(&[1, 1, 2]) {
                let (p, w) = *r.pick(fields);
                let old = b[p..p + w].iter().rev().fold(0u64, |a, x| a << 8 | *x as u64);
                let v = match r.below(8) {
                    0..=2 => *r.pick(&WORDS),
                    3 => old.wrapping_add(1),
                    4 => old.wrapping_sub(1),
                    5 => (b.len() as u64).wrapping_sub(p as u64).wrapping_add(r.below(3) as u64).wrapping_sub(1),
                    6 => r.below(b.len() + 4) as u64,
                    _ => old ^ (1 << r.below(8 * w)),
                };
                b[p..p + w].copy_from_slice(&v.to_le_bytes()[..w]);
            }
            "field"
        }
        7 => {
            for _ in 0..1 + r.below(4) {
                let p = r.below(b.len());
                b[p] = r.next() as u8;
            }
            "bytes"
        }
        _ => {
            let p = r.below(b.len());
            let w = 8.min(b.len() - p);
            let v = *r.pick(&WORDS);
            b[p..p + w].copy_from_slice(&v.to_le_bytes()[..w]);
            "word"
        }
    }
}

pub fn l04(out: &mut Out, r: &mut Rng, spec: &Spec, n: usize, cur: &str) {
    let emit = |out: &mut Out, kind: &str, fmt: &str, b: &[u8]| {
        std::fs::write(cur, serde_json::to_vec(&json!({"op":"l04","fmt":fmt,"bytes":bytes(b)})).unwrap()).unwrap();
        let mut e = read_event("l04", fmt, b, false);
        e["kind"] = json!(kind);
        out.emit(e);
    };
    for _ in 0..n {
        for (f, v) in spec.kinds() {
            let mut st = style(r);
            st.ascii = true;
            st.max = 200;
            let mut s = Scatter::new(r, st);
            s.file(f, v);
            let (mut b, fields) = (std::mem::take(&mut s.b), std::mem::take(&mut s.fields));
            let kind = damage(r, &mut b, &fields);
            emit(out, kind, f["fmt"].as_str().unwrap(), &b);
        }
    }
    // every truncation of one small file of each kind
    for (f, v) in spec.kinds() {
        let st = Style { ascii: true, share: 0, none: 0, gap: 0, len: 1, odd: 0, max: 60, long: (0, 0), far: (0, 0) };
        let mut s = Scatter::new(r, st);
        s.file(f, v);
        let b = std::mem::take(&mut s.b);
        let step = if n > 100 { 1 } else { 1 + b.len() / 60 };
        for k in (0..b.len()).step_by(step) {
            emit(out, "prefix", f["fmt"].as_str().unwrap(), &b[..k]);
        }
    }
    // short and random files
    for k in 0..n {
        let mut b = b"HBSS".to_vec();
        let l = r.below(60);
        b.extend(r.bytes(l));
        emit(out, "random", "Hlpb", &b);
        let b = r.bytes(k % 40);
        emit(out, "random", *r.pick(&["MeshEx", "Adj", "Hlpb"]), &b);
    }
    let _ = std::fs::remove_file(cur);
}

// ------------------------------------------------------------------ dispatch
use ssbh_lib::{formats::{anim, hlpb, matl, mesh, modl, nlst, nrpd, nufx, shdr, skel}, ReadSsbhError, Ssbh};

fn rerr(e: ReadSsbhError) -> String {
    match e {
        ReadSsbhError::InvalidSsbhType => "type".into(),
        e => format!("other: {e}"),
    }
}
fn wr(f: impl FnOnce(&mut Cursor<Vec<u8>>) -> std::io::Result<()>) -> Value {
    obytes(&attempt(|| {
        let mut c = Cursor::new(Vec::new());
        f(&mut c).map(|_| c.into_inner())
    }))
}

/// Every typed read of b: {"Hlpb": {"r": outcome, "w": bytes written by the typed write}, ...}
fn typed_reads(b: &[u8]) -> Value {
    let mut m = serde_json::Map::new();
    macro_rules! each {
        ($($n:literal $t:ty),*) => {$(
            let e = match attempt(|| <$t>::read(&mut Cursor::new(b)).map_err(rerr)) {
                Ok(v) => {
                    let t = tree(&v);
                    json!({"r": ok(json!({"ver": t["v"], "val": t["d"]})), "w": wr(|c| v.write(c))})
                }
                Err(e) => json!({"r": e, "w": err("")}),
            };
            m.insert($n.into(), e);
        )*};
    }
    each!("Hlpb" hlpb::Hlpb, "Matl" matl::Matl, "Modl" modl::Modl, "Mesh" mesh::Mesh, "Skel" skel::Skel, "Anim" anim::Anim,
          "Nlst" nlst::Nlst, "Nrpd" nrpd::Nrpd, "Nufx" nufx::Nufx, "Shdr" shdr::Shdr);
    Value::Object(m)
}
fn typed_write(f: &SsbhFile) -> Value {
    macro_rules! each {
        ($($v:ident),*) => { match &f.data { $( Ssbh::$v(x) => wr(|c| x.data.write(c)), )* } };
    }
    each!(Hlpb, Matl, Modl, Mesh, Skel, Anim, Nlst, Nrpd, Nufx, Shdr)
}

fn l05_read(head: &[u8], zeros: usize) -> Value {
    let mut b = head.to_vec();
    b.resize(head.len() + zeros, 0);
    let a = attempt(|| SsbhFile::read(&mut Cursor::new(&b)).map_err(rerr));
    let (r, w) = match &a {
        Ok(f) => (ok(file_tree(f)), obytes(&write_file(f))),
        Err(e) => (e.clone(), err("")),
    };
    json!({"op":"l05","head": bytes(head), "zeros": zeros, "r": r, "w": w, "typed": typed_reads(&b)})
}

pub fn l05(out: &mut Out, r: &mut Rng, n: usize, scen: &[Value]) {
    for s in scen {
        let mut e = l05_read(&crate::gen::tree_bytes(&s["head"]).unwrap(), 400);
        e["kind"] = json!("header");
        out.emit(e);
    }
    for _ in 0..n {
        for k in kinds() {
            let c = vary(r, false);
            let f = gen_file(r, &c, k);
            let w = write_file(&f);
            let mut e = file_tree(&f);
            e["op"] = json!("l05w");
            e["w"] = obytes(&w);
            e["tw"] = typed_write(&f);
            e["kind"] = json!("write");
            out.emit(e);
            if let Ok(mut b) = w {
                // the unused header bytes may hold anything
                if r.chance(1, 2) {
                    let x = r.bytes(12);
                    b[4..16].copy_from_slice(&x);
                }
                if r.chance(1, 4) {
                    let x = r.bytes(20);
                    b.extend(x);
                }
                if r.chance(1, 4) {
                    b[16 + r.below(8)] ^= 1 << r.below(8);
                }
                let mut e = l05_read(&b, 0);
                e["kind"] = json!("file");
                out.emit(e);
            }
        }
    }
}

// ------------------------------------------------------------------ MeshEx and Adj
fn table_event<T: serde::Serialize>(
    kind: &str,
    v: &T,
    write: impl FnOnce(&T, &mut Cursor<Vec<u8>>) -> std::io::Result<()>,
    read: impl FnOnce(&[u8]) -> Result<T, Box<dyn std::error::Error>>,
) -> Value {
    let mut c = Cursor::new(Vec::new());
    let w = attempt(|| write(v, &mut c));
    let b = c.into_inner();
    let w = w.map(|_| b.clone());
    let r = match &w {
        Ok(b) => run(|| read(b).map(|v| tree(&v))),
        Err(_) => err("not written"),
    };
    json!({"op":"l07","kind":kind,"val":tree(v),"w":obytes(&w),"wrote":b.len(),"r":r})
}
pub fn meshex_event(v: &MeshEx) -> Value {
    table_event("MeshEx", v, |v, c| v.write(c), |b| MeshEx::read(&mut Cursor::new(b)))
}
pub fn adj_event(v: &Adj) -> Value {
    table_event("Adj", v, |v, c| v.write(c), |b| Adj::read(&mut Cursor::new(b)))
}
pub fn gen_meshex(r: &mut Rng, c: &Cfg) -> MeshEx {
    let mut m: MeshEx = gen(r, c);
    if r.chance(3, 4) {
        // make the counts agree
        let mut t = tree(&m);
        let n = t["entries"].get(0).map_or(0, |e| e.as_array().unwrap().len());
        if let Some(f) = t["entry_flags"].get_mut(0) {
            *f = Value::Array((0..n).map(|_| json!({"bytes": [[r.below(256)], [r.below(256)]]})).collect());
        } else if n > 0 {
            t["entries"] = json!([]);
        }
        // let entries belong to groups, in any order
        let k = t["mesh_object_groups"].get(0).map_or(0, |g| g.as_array().unwrap().len());
        if r.chance(2, 3) {
            for e in t["entries"].get_mut(0).and_then(|e| e.as_array_mut()).into_iter().flatten() {
                e["mesh_object_group_index"] = crate::tree::bytes(&(r.below(k + (k == 0) as usize) as u32).to_le_bytes());
            }
        }
        m = crate::gen::from_tree(&t).expect("meshex");
    }
    m
}
pub fn l07(out: &mut Out, r: &mut Rng, n: usize, scen: &[Value]) {
    for s in scen {
        match s["kind"].as_str().unwrap() {
            "MeshEx" => out.emit(meshex_event(&crate::gen::from_tree(&s["val"]).expect("scenario"))),
            _ => out.emit(adj_event(&crate::gen::from_tree(&s["val"]).expect("scenario"))),
        }
    }
    for i in 0..n {
        let mut c = vary(r, i % 4 == 0);
        if i % 10 == 0 {
            c.budget = 2000;
            c.len = 60;
        }
        out.emit(meshex_event(&gen_meshex(r, &c)));
        out.emit(adj_event(&gen(r, &c)));
    }
}
