//! Files built directly from the schemas that the specification exports: every pointed-to item is put anywhere behind
//! its pointer, in any order, with gaps, sharing and overlap.
use crate::rng::Rng;
use serde_json::Value;

pub struct Spec {
    pub fmts: Vec<Value>,
}
impl Spec {
    pub fn load(path: &str) -> Self {
        let s = std::fs::read_to_string(path).expect("schema file");
        let mut fmts: Vec<Value> = s.lines().map(|l| serde_json::from_str(l).expect("schema")).collect();
        fmts.sort_by_key(|f| f["fmt"].as_str().unwrap().to_string());
        Spec { fmts }
    }
    /// (format, version) of every kind of file.
    pub fn kinds(&self) -> Vec<(&Value, &Value)> {
        self.fmts.iter().flat_map(|f| f["vers"].as_array().unwrap().iter().map(move |v| (f, v))).collect()
    }
}

#[derive(Clone)]
pub struct Style {
    pub ascii: bool,
    pub share: usize,
    pub none: usize,
    pub gap: usize,
    pub len: usize,
    pub odd: usize,
    /// longer lists become empty once the file has this many bytes
    pub max: usize,
    /// one of the lists or texts (counting down to 1) is that long
    pub long: (usize, usize),
    /// before one of the items (counting down to 1) that many bytes are left out
    pub far: (usize, usize),
}
impl Style {
    pub fn hit(x: &mut (usize, usize)) -> Option<usize> {
        if x.0 > 0 {
            x.0 -= 1;
            if x.0 == 0 {
                return Some(x.1);
            }
        }
        None
    }
}

pub struct Scatter<'a> {
    pub r: &'a mut Rng,
    pub st: Style,
    pub b: Vec<u8>,
    /// which bytes are in use
    used: Vec<bool>,
    /// placed targets: schema, position
    placed: Vec<(String, usize)>,
    /// offset, count and tag fields: position, width
    pub fields: Vec<(usize, usize)>,
}

fn n(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}

pub fn by_bytes(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}

impl<'a> Scatter<'a> {
    pub fn new(r: &'a mut Rng, st: Style) -> Self {
        Scatter { r, st, b: vec![], used: vec![], placed: vec![], fields: vec![] }
    }
    fn grow(&mut self, to: usize) {
        while self.b.len() < to {
            let x = if self.r.chance(1, 3) { 0 } else { self.r.next() as u8 };
            self.b.push(x);
            self.used.push(false);
        }
    }
    pub fn put(&mut self, p: usize, d: &[u8]) {
        self.grow(p + d.len());
        self.b[p..p + d.len()].copy_from_slice(d);
        for i in p..p + d.len() {
            self.used[i] = true;
        }
    }
    /// A place for len bytes at or after from.
    fn place(&mut self, from: usize, len: usize) -> usize {
        let far = Style::hit(&mut self.st.far);
        for _ in 0..6 {
            if far.is_none() && self.b.len() > from {
                let p = from + self.r.below(self.b.len() - from + 1);
                if (p..p + len).all(|i| i >= self.used.len() || !self.used[i]) {
                    self.grow(p + len);
                    (p..p + len).for_each(|i| self.used[i] = true);
                    return p;
                }
            }
        }
        let gap = far.unwrap_or(0) + self.r.below(self.st.gap + 1);
        let p = self.b.len().max(from) + gap;
        self.grow(p + len);
        (p..p + len).for_each(|i| self.used[i] = true);
        p
    }
    fn text(&mut self) -> Vec<u8> {
        let k = Style::hit(&mut self.st.long).unwrap_or_else(|| self.r.below(9));
        (0..k)
            .map(|_| if self.st.ascii { b'!' + self.r.below(90) as u8 } else { 1 + self.r.below(255) as u8 })
            .collect()
    }
    /// Bytes a value occupies in place (text: decided by the caller).
    fn size(&self, s: &Value) -> usize {
        match s["k"].as_str().unwrap() {
            "b" | "bits" | "rep" => n(&s["n"]),
            "st" => s["f"].as_array().unwrap().iter().map(|f| self.size(&f["t"])).sum::<usize>() + n(&s["pad"]),
            "tup" => n(&s["n"]) * self.size(&s["t"]),
            "unit" => 0,
            "ptr" => 8,
            "aptr" => n(&s["w"]),
            "arr" | "buf" | "en" => 16,
            "al" => self.size(&s["t"]),
            k => panic!("size of {k}"),
        }
    }
    fn offset(&mut self, at: usize, w: usize, v: u64) {
        self.fields.push((at, w));
        self.put(at, &v.to_le_bytes()[..w]);
    }
    /// A target of type s behind position from; cnt elements.
    fn target(&mut self, s: &Value, from: usize, cnt: usize) -> usize {
        if s["k"] == "cs" {
            if self.r.below(100) < self.st.odd && from < self.b.len() {
                // anywhere: whatever text happens to be there
                return from + self.r.below(self.b.len() - from);
            }
            let mut t = self.text();
            t.push(0);
            let p = self.place(from, t.len());
            self.put(p, &t);
            return p;
        }
        if s["k"] == "al" {
            return self.target(&s["t"], from, cnt);
        }
        if s["k"] == "vec" {
            return self.target(&s["t"], from, cnt);
        }
        let key = format!("{cnt}{s}");
        if self.r.below(100) < self.st.share {
            let c: Vec<usize> = self.placed.iter().filter(|(k, p)| *k == key && *p >= from).map(|x| x.1).collect();
            if !c.is_empty() {
                return *self.r.pick(&c);
            }
        }
        let size = self.size(s);
        let p = self.place(from, size * cnt);
        self.placed.push((key, p));
        for i in 0..cnt {
            self.inline(s, p + i * size);
        }
        p
    }
    fn count_of(&mut self, s: &Value) -> usize {
        if let Some(k) = Style::hit(&mut self.st.long) {
            self.st.max = 0;
            let s = if s["k"] == "vec" { &s["t"] } else { s };
            return k.min(1 + 4000 / self.size(s).max(1));
        }
        self.count()
    }
    pub fn count(&mut self) -> usize {
        if self.b.len() > self.st.max {
            return self.r.below(2);
        }
        self.r.below(self.st.len + 1)
    }
    pub fn inline(&mut self, s: &Value, p: usize) {
        match s["k"].as_str().unwrap() {
            "b" | "bits" => {
                let d = match self.r.below(6) {
                    0 => vec![0; n(&s["n"])],
                    1 => vec![255; n(&s["n"])],
                    _ => self.r.bytes(n(&s["n"])),
                };
                self.put(p, &d);
            }
            "rep" => {
                let vs: Vec<&Value> = s["vars"].as_object().unwrap().values().collect();
                let d = by_bytes(vs[self.r.below(vs.len())]);
                self.fields.push((p, d.len()));
                self.put(p, &d);
            }
            "st" => {
                let mut q = p;
                for f in s["f"].as_array().unwrap() {
                    self.inline(&f["t"], q);
                    q += self.size(&f["t"]);
                }
                let pad = self.r.bytes(n(&s["pad"]));
                self.put(q, &pad);
            }
            "tup" => {
                let z = self.size(&s["t"]);
                for i in 0..n(&s["n"]) {
                    self.inline(&s["t"], p + i * z);
                }
            }
            "unit" => (),
            "al" => self.inline(&s["t"], p),
            "ptr" => {
                if self.r.below(100) < self.st.none {
                    self.offset(p, 8, 0);
                } else {
                    self.put(p, &[0; 8]);
                    let t = self.target(&s["t"], p + 8, 1);
                    self.offset(p, 8, (t - p) as u64);
                }
            }
            "aptr" => {
                let w = n(&s["w"]);
                if self.r.below(100) < self.st.none {
                    self.offset(p, w, 0);
                } else {
                    self.put(p, &vec![0; w]);
                    let from = if self.st.odd > 0 { 1 } else { p + w };
                    let t = self.target(&s["t"], from, 1);
                    self.offset(p, w, t as u64);
                }
            }
            "en" => {
                let vs: Vec<(String, Value)> = s["vars"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                let (_, v) = self.r.pick(&vs).clone();
                self.put(p, &[0; 8]);
                self.offset(p + 8, 8, n(&v["tag"]) as u64);
                if self.r.below(100) >= self.st.none {
                    let t = self.target(&v["t"], p + 16, 1);
                    self.offset(p, 8, (t - p) as u64);
                } else {
                    self.fields.push((p, 8));
                    if self.r.chance(1, 2) {
                        let d = self.r.bytes(8);
                        self.put(p + 8, &d);
                    }
                }
            }
            "buf" => {
                let c = if self.r.below(100) < self.st.none { 0 } else { Style::hit(&mut self.st.long).unwrap_or_else(|| self.r.below(20)) };
                self.put(p, &[0; 16]);
                let off = if c == 0 && self.r.chance(1, 2) {
                    0
                } else if self.r.below(100) < self.st.odd && c > 0 {
                    self.grow(p + 16 + c);
                    self.r.below(self.b.len() - c - p)
                } else {
                    self.place(p + 16, c) - p
                };
                self.offset(p, 8, off as u64);
                self.offset(p + 8, 8, c as u64);
            }
            "arr" => {
                let c = self.count_of(&s["t"]);
                self.put(p, &[0; 16]);
                let off = if c == 0 {
                    match self.r.below(4) {
                        0 => self.r.next() >> 1,
                        1 => self.r.below(500) as u64,
                        _ => 0,
                    }
                } else {
                    (self.target(&s["t"], p + 16, c) - p) as u64
                };
                self.offset(p, 8, off);
                self.offset(p + 8, 8, c as u64);
            }
            k => panic!("inline {k}"),
        }
    }
    /// A complete file of the given format and version.
    pub fn file(&mut self, f: &Value, v: &Value) {
        let t = &v["t"];
        match f["fmt"].as_str().unwrap() {
            "Adj" => {
                let c = self.count_of(&serde_json::json!({"k": "b", "n": 8}));
                self.put(0, &(c as u32).to_le_bytes());
                self.fields.push((0, 4));
                let d = self.r.bytes(8 * c);
                self.put(4, &d);
                let k = Style::hit(&mut self.st.long).unwrap_or_else(|| self.r.below(30));
                let d = self.r.bytes(k);
                self.put(4 + 8 * c, &d);
            }
            "MeshEx" => {
                let (e, g) = (t["f"][2]["t"]["t"].clone(), t["f"][1]["t"]["t"].clone());
                let (ne, ng) = (self.count_of(&e), self.count_of(&g));
                let junk = self.r.bytes(8);
                self.put(0, &junk);
                self.put(8, &(ne as u32).to_le_bytes());
                self.put(12, &(ng as u32).to_le_bytes());
                self.fields.extend([(8, 4), (12, 4)]);
                self.put(16, &[0; 36]);
                for (i, c) in [1, ng, ne, ne].into_iter().enumerate() {
                    let at = 16 + 8 * i;
                    if self.r.below(100) < self.st.none {
                        self.offset(at, 8, 0);
                    } else {
                        let ty = &t["f"][i]["t"]["t"];
                        let p = self.target(ty, 52, c);
                        self.offset(at, 8, p as u64);
                    }
                }
                let d = self.r.bytes(4);
                self.put(48, &d);
            }
            _ => {
                self.put(0, b"HBSS");
                let junk = self.r.bytes(12);
                self.put(4, &junk);
                self.put(16, &by_bytes(&f["magic"]));
                self.put(20, &(n(&v["maj"]) as u16).to_le_bytes());
                self.put(22, &(n(&v["min"]) as u16).to_le_bytes());
                self.fields.extend([(0, 4), (16, 4), (20, 2), (22, 2)]);
                let size = self.size(t);
                self.grow(24 + size);
                (24..24 + size).for_each(|i| self.used[i] = true);
                self.inline(t, 24);
            }
        }
    }
}
