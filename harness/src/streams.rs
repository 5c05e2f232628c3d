//! L11: streams that transfer little at a time, are interrupted, or fail.
use crate::files::{kinds_of, Intern, Kind};
use crate::obs::*;
use crate::rng::Rng;
use serde_json::{json, Value};
use std::io::{Cursor, Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};

/// A stream that behaves as spec/Streams.tla says for a plan.
pub struct Faulty {
    inner: Cursor<Vec<u8>>,
    chunk: usize,
    intr: bool,
    fault: String,
    at: usize,
    kind: ErrorKind,
    pub ops: usize,
    pub hit: bool,
    waiting: bool,
}
impl Faulty {
    fn new(content: Vec<u8>, pos: usize, plan: &Value, kind: ErrorKind) -> Self {
        let n = |k: &str| plan[k].as_u64().unwrap() as usize;
        let mut inner = Cursor::new(content);
        inner.set_position(pos as u64);
        Faulty { inner, chunk: n("chunk"), intr: plan["intr"].as_bool().unwrap(), fault: plan["fault"].as_str().unwrap().to_string(), at: n("at"), kind, ops: 0, hit: false, waiting: false }
    }
    /// How many of n bytes the next operation moves; n = 0 is a move of the position.
    fn answer(&mut self, n: usize) -> Result<usize> {
        if n > 0 && self.intr && !self.waiting {
            self.waiting = true;
            return Err(ErrorKind::Interrupted.into());
        }
        self.waiting = false;
        self.ops += 1;
        match self.fault.as_str() {
            "fail" if self.ops >= self.at => Err(()),
            "once" if self.ops == self.at => Err(()),
            "zero" if self.ops == self.at && n > 0 => {
                self.hit = true;
                Ok(0)
            }
            _ => Ok(if self.chunk == 0 { n } else { n.min(self.chunk) }),
        }
        .map_err(|_| {
            self.hit = true;
            Error::new(self.kind, "the stream failed")
        })
    }
}
impl Read for Faulty {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let n = self.answer(b.len())?;
        self.inner.read(&mut b[..n])
    }
}
impl Write for Faulty {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let n = self.answer(b.len())?;
        self.inner.write(&b[..n])
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
impl Seek for Faulty {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        self.answer(0)?;
        self.inner.seek(p)
    }
}

fn plain() -> Value {
    json!({"chunk": 0, "intr": false, "fault": "none", "at": 1})
}
fn error(r: &mut Rng) -> ErrorKind {
    *r.pick(&[ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::TimedOut, ErrorKind::PermissionDenied, ErrorKind::ConnectionReset, ErrorKind::WouldBlock, ErrorKind::InvalidInput])
}
/// The plans of the model, and others for a call of n operations.
fn plans(r: &mut Rng, scen: &[Value], n: usize, more: usize) -> Vec<Value> {
    let mut p: Vec<Value> = (0..more / 2).map(|_| r.pick(scen).clone()).collect();
    p.push(json!({"chunk": 1, "intr": false, "fault": "none", "at": 1}));
    p.push(json!({"chunk": 0, "intr": true, "fault": "none", "at": 1}));
    for _ in 0..more {
        let at = if r.chance(1, 6) { n + 1 - r.below(4.min(n)) } else { 1 + r.below(n + 1) };
        p.push(json!({"chunk": if r.chance(1, 4) { 1 + r.below(40) } else { 0 }, "intr": r.chance(1, 8), "fault": *r.pick(&["fail", "once", "zero"]), "at": at}));
    }
    p
}

fn streams(out: &mut Out, r: &mut Rng, k: &Kind, which: &str, scen: &[Value], more: usize) {
    let right = match (k.bytes)(which) {
        Ok(b) => b,
        Err(e) => return out.emit(json!({"op": "l11", "kind": k.name, "plain": e, "calls": []})),
    };
    let mut blobs = Intern::default();
    let mut vals = Intern::default();
    let whole = blobs.id(&right);
    let value = (k.read)(&right).map_or(0, |t| vals.id(t.to_string().as_bytes()));
    let ssbh = right.starts_with(b"HBSS");
    let mut calls: Vec<Value> = vec![];
    // A vector in a cursor may get zeros at its end that a stream does not.
    let bare = |b: &[u8]| b[..b.len() - b.iter().rev().take_while(|x| **x == 0).count()].to_vec();
    let mut streamed = vec![];
    // writing
    let mut todo = vec![plain()];
    while let Some(plan) = todo.pop() {
        let first = calls.is_empty();
        let base = if ssbh && !first && r.chance(1, 2) { 16 * (1 + r.below(300)) } else { 0 };
        let before = r.bytes(base);
        let mut f = Faulty::new(before.clone(), base, &plan, error(r));
        let res = (k.write_to)(which, &mut f);
        if first {
            todo = plans(r, scen, f.ops.max(1), more);
            streamed = f.inner.get_ref().clone();
        }
        let all = f.inner.get_ref();
        let kept = all.len() >= base && all[..base] == before[..];
        let of = |b: &[u8]| if first { bare(b) } else { b.to_vec() };
        let want = if first { bare(&right) } else { streamed.clone() };
        let what = if res.is_ok() { all.get(base..).map_or(0, |b| blobs.id(&of(b))) } else { 0 };
        calls.push(json!({"dir": "write", "plan": plan, "base": base, "hit": f.hit, "kept": kept, "what": what, "right": blobs.id(&want), "r": match res { Ok(_) => json!({"k": "ok"}), Err(e) => e }}));
    }
    // reading
    let mut todo = vec![plain()];
    while let Some(plan) = todo.pop() {
        let first = calls.last().is_none_or(|c| c["dir"] == "write");
        let base = if ssbh && !first && r.chance(1, 2) { 16 * (1 + r.below(300)) } else { 0 };
        let mut all = r.bytes(base);
        all.extend_from_slice(if r.chance(1, 2) { &right } else { &streamed });
        if ssbh && r.chance(1, 3) {
            let after = r.below(400);
            all.extend(r.bytes(after));
        }
        let mut f = Faulty::new(all, base, &plan, error(r));
        let res = (k.read_from)(&mut f);
        if first {
            todo = plans(r, scen, f.ops.max(1), more).into_iter().filter(|p| p["fault"] != "zero").collect();
        }
        let (res, what) = match res {
            Ok(t) => (json!({"k": "ok"}), vals.id(t.to_string().as_bytes())),
            Err(e) => (e, 0),
        };
        calls.push(json!({"dir": "read", "plan": plan, "base": base, "hit": f.hit, "kept": true, "what": what, "right": value, "r": res}));
    }
    // a file that cannot grow
    let dir = std::env::current_dir().unwrap().join("streams");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join("full");
    std::os::unix::fs::symlink("/dev/full", &path).unwrap();
    let res = (k.save)(which, &path);
    let file = std::fs::symlink_metadata(&path).map_or(false, |m| m.is_file());
    let what = if res.is_ok() && file { std::fs::read(&path).map_or(0, |b| blobs.id(&b)) } else { 0 };
    calls.push(json!({"dir": "save", "plan": {"chunk": 0, "intr": false, "fault": "fail", "at": 1}, "base": 0, "hit": !file && !right.is_empty(), "kept": true, "what": what, "right": whole, "r": match res { Ok(_) => json!({"k": "ok"}), Err(e) => e }}));
    let _ = std::fs::remove_dir_all(&dir);
    out.emit(json!({"op": "l11", "kind": k.name, "plain": {"k": "ok"}, "calls": calls}));
}

pub fn l11(out: &mut Out, r: &mut Rng, scen: &[Value], rounds: usize, more: usize) {
    for _ in 0..rounds {
        for k in kinds_of(r) {
            for which in ["small", "large"] {
                streams(out, r, &k, which, scen, more);
            }
        }
    }
}
