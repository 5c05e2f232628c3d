//! The read/write test of a folder, run as its users run it (L10).
use crate::gen::gen;
use crate::low::{damage, gen_file, gen_meshex, kinds, style, vary, write_file};
use crate::obs::*;
use crate::rng::Rng;
use crate::sch::{Scatter, Spec};
use crate::tree::bytes;
use serde_json::{json, Value};
use ssbh_lib::formats::adj::Adj;
use std::collections::BTreeMap;
use std::io::Cursor;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

const SSBH: [&str; 10] = ["numatb", "numdlb", "numshb", "nusktb", "nurpdb", "nufxlb", "nuanmb", "nuhlpb", "nushdb", "nulstb"];
const OTHER: [&str; 9] = ["txt", "numatbx", "json", "bin", "numatb.json", "adjb.bak", "xnumshexb", "nutexb", "numatb~"];
/// Reported as known findings: the tool skips .nulstb files, aborts on directories that are named like files and on MeshEx
/// files with one table. Each has folders of its own.
/// The extension of each format's files, in the order of the formats.
const BY_FORMAT: [&str; 10] = ["nuhlpb", "numatb", "numdlb", "numshb", "nusktb", "nuanmb", "nulstb", "nurpdb", "nufxlb", "nushdb"];

/// (extension, contents) of a file of the given class and state.
fn file(r: &mut Rng, spec: &Spec, ext: &str, state: &str) -> (String, Vec<u8>) {
    let c = vary(r, false);
    let class = if ext == "none" { *r.pick(&["ssbh", "meshex", "adj", "random"]) } else { ext };
    let own = attempt(|| {
        let mut w = Cursor::new(vec![]);
        match class {
            "meshex" => gen_meshex(r, &c).write(&mut w),
            "adj" => gen::<Adj>(r, &c).write(&mut w),
            _ => Ok(()),
        }
        .map(|_| ("", w.into_inner()))
    });
    let (by, mut b) = match class {
        "ssbh" => {
            let k = *r.pick(&kinds());
            (BY_FORMAT[k.0], write_file(&gen_file(r, &c, k)).unwrap_or_default())
        }
        "random" => {
            let n = r.below(60);
            ("", r.bytes(n))
        }
        _ => own.unwrap_or_default(),
    };
    let mut by = by.to_string();
    match state {
        "moved" => {
            if class != "random" && r.chance(2, 3) {
                let of = |f: &Value| match class { "meshex" => f["fmt"] == "MeshEx", "adj" => f["fmt"] == "Adj", _ => f["fmt"] != "MeshEx" && f["fmt"] != "Adj" };
                let k: Vec<_> = spec.kinds().into_iter().filter(|k| of(k.0)).collect();
                let (f, v) = *r.pick(&k);
                let st = style(r);
                let mut s = Scatter::new(r, st);
                s.file(f, v);
                b = std::mem::take(&mut s.b);
                if let Some(at) = crate::low::FMTS.iter().position(|x| x.0 == f["fmt"].as_str().unwrap()) {
                    by = BY_FORMAT[at].to_string();
                }
            } else {
                let n = 1 + r.below(9);
                let z = r.chance(1, 2);
                b.extend(r.bytes(n).into_iter().map(|x| if z { 0 } else { x }));
            }
        }
        "broken" if ext != "none" => {
            damage(r, &mut b, &[]);
        }
        "unwritable" => {
            // only one of the two tables of entries is there
            while b.len() < 72 || b[8..12] == [0; 4] {
                let c = vary(r, true);
                let mut w = Cursor::new(vec![]);
                if gen_meshex(r, &c).write(&mut w).is_ok() {
                    b = w.into_inner();
                }
            }
            let at = *r.pick(&[32, 40]);
            b[at..at + 8].fill(0);
        }
        _ => {}
    }
    let e = match ext {
        "meshex" => "numshexb".to_string(),
        "adj" => "adjb".to_string(),
        "none" => r.pick(&OTHER).to_string(),
        _ if r.chance(1, 8) => r.pick(&SSBH).to_string(),
        _ => by,
    };
    (e, b)
}
fn all(dir: &Path, m: &mut BTreeMap<PathBuf, Vec<u8>>) {
    for e in std::fs::read_dir(dir).unwrap() {
        let p = e.unwrap().path();
        if p.is_dir() {
            all(&p, m);
            m.insert(p, vec![]);
        } else {
            let b = std::fs::read(&p).unwrap();
            m.insert(p, b);
        }
    }
}
fn session(r: &mut Rng, spec: &Spec, root: &Path, kind: &str, files: &[(String, String, usize)]) -> Value {
    let unwritable = files.iter().any(|f| f.1 == "unwritable");
    let mut case = if unwritable { "one-table" } else { *r.pick(&["", "", "", "", "", "", "", "nulstb", "directory"]) };
    let top = root.join(match case { "directory" => *r.pick(&["dump.numatb", "dump.adjb", "dump"]), _ => *r.pick(&["dump", "a folder", "dump.numat"]) });
    let _ = std::fs::remove_dir_all(root);
    std::fs::create_dir_all(&top).unwrap();
    let stem = *r.pick(&["f", "c00 body ", "model.", "größe_"]);
    let mut list = vec![];
    for (i, (ext, state, depth)) in files.iter().enumerate() {
        let (mut e, b) = file(r, spec, ext, state);
        if case == "nulstb" {
            e = "nulstb".into();
        } else if e == "nulstb" {
            e = (*r.pick(&SSBH[..9])).into();
        }
        let null = |at: usize| b.len() >= 48 && b[at..at + 8] == [0; 8];
        if e == "numshexb" && null(32) != null(40) {
            case = "one-table";
        }
        let mut d = top.clone();
        for k in 0..*depth {
            d = d.join(*r.pick(&["fighter", "a b", if case == "directory" { "x.numshb" } else { "x.numsh" }, "c00"])).join(k.to_string());
        }
        std::fs::create_dir_all(&d).unwrap();
        let name = format!("{stem}{i}.{e}");
        std::fs::write(d.join(&name), &b).unwrap();
        list.push((name, e, b));
    }
    let mut before = BTreeMap::new();
    all(root, &mut before);
    let cli = std::env::var("VERIF_CLI").expect("VERIF_CLI");
    let mut c = Command::new(format!("{cli}/ssbh_test"));
    match r.below(3) {
        0 => c.arg(&top),
        1 => c.arg(top.file_name().unwrap()),
        _ => c.arg(".").current_dir(&top),
    };
    if c.get_current_dir().is_none() {
        c.current_dir(root);
    }
    let o = c.stdin(Stdio::null()).stderr(Stdio::null()).output().expect("ssbh_test");
    let mut after = BTreeMap::new();
    all(root, &mut after);
    let text = String::from_utf8_lossy(&o.stdout).to_string();
    let mut lines: Vec<&str> = text.lines().collect();
    let mut out = vec![];
    for (name, e, b) in list {
        let mut reports = vec![];
        lines.retain(|l| {
            let mine = l.contains(&format!("/{name}")) && !l.contains(&format!("/{name}."));
            if mine {
                reports.push(if l.starts_with("Error reading") { "error" } else if l.contains("not 1:1") { "differs" } else { "other" });
            }
            !mine
        });
        out.push(json!({"name": name, "ext": e, "bytes": bytes(&b), "reports": reports}));
    }
    json!({"op": "l10", "kind": kind, "case": case, "files": out, "lines": lines.len(), "kept": before == after, "ends": o.status.code().unwrap_or(-1)})
}

pub fn l10(out: &mut Out, r: &mut Rng, spec: &Spec, scen: &[Value], most: usize, n: usize) {
    let root = std::env::current_dir().unwrap().join("dump");
    let part = scen.len() / most + 1;
    for s in scen.iter().skip(r.below(part)).step_by(part) {
        let f: Vec<(String, String, usize)> = s["files"].as_array().unwrap().iter().map(|f| (f["ext"].as_str().unwrap().into(), f["state"].as_str().unwrap().into(), f["depth"].as_u64().unwrap() as usize)).collect();
        let e = session(r, spec, &root, "MC_Dump", &f);
        out.emit(e);
    }
    for _ in 0..n {
        let k = r.below(25);
        let mut f = vec![];
        for _ in 0..k {
            let ext = *r.pick(&["ssbh", "ssbh", "ssbh", "meshex", "adj", "none"]);
            let state = if ext == "meshex" && r.chance(1, 8) { "unwritable" } else { *r.pick(&["kept", "kept", "moved", "broken"]) };
            f.push((ext.to_string(), state.to_string(), r.below(4)));
        }
        let e = session(r, spec, &root, "random folder", &f);
        out.emit(e);
    }
    let _ = std::fs::remove_dir_all(&root);
}
