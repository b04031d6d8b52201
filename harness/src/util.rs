//! Small helpers: random numbers, template parsing, failure reporting.
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }
    pub fn u128(&mut self) -> u128 {
        ((self.next() as u128) << 64) | self.next() as u128
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, l: &'a [T]) -> &'a T {
        &l[self.below(l.len())]
    }
}

pub fn seed_of(parts: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for p in parts {
        h = (h ^ p).wrapping_mul(0x1000_0000_01b3).rotate_left(17);
    }
    h
}

#[derive(Clone, Debug, Default)]
pub struct Tpl {
    pub id: usize,
    pub op: String,
    pub d: usize,
    pub w: usize,
    pub k: String,
    pub n: usize,
    pub a: Vec<i64>,
    pub s: String,
    pub k2: String,
    pub w2: usize,
    pub out: String,
    pub max: usize,
    pub r: Vec<i64>,
    /// thousands of levels; argument tokens start at 1000001
    pub far: bool,
}
impl Tpl {
    pub fn key(&self) -> (bool, &str, usize, usize, &str, usize, &[i64], &str, &str, usize) {
        (self.far, &self.op, self.d, self.w, &self.k, self.n, &self.a, &self.s, &self.k2, self.w2)
    }
    pub fn show(&self) -> String {
        let r: Vec<i64> = self.r.iter().take(24).cloned().collect();
        format!(
            "template op={} d={} w={} k={} n={} a={:?} s={} to={}{} expects {} {} r={:?}{}",
            self.op,
            self.d,
            self.w,
            self.k,
            self.n,
            self.a,
            self.s,
            self.k2,
            self.w2,
            self.out,
            self.max,
            r,
            if self.r.len() > 24 { ".." } else { "" }
        )
    }
}

enum J {
    S(String),
    N(i64),
    A(Vec<i64>),
    B,
}
/// Parses one template as TLC prints it: a quoted, escaped flat JSON object.
pub fn parse_tpl(line: &str, id: usize) -> Option<Tpl> {
    let line = line.trim();
    if !line.starts_with("\"{") {
        return None;
    }
    let txt = line[1..line.len() - 1].replace("\\\"", "\"");
    let b = txt.as_bytes();
    let mut i = 1;
    let mut m: BTreeMap<String, J> = BTreeMap::new();
    let string = |i: &mut usize| {
        let s = *i + 1;
        let mut e = s;
        while b[e] != b'"' {
            e += 1;
        }
        *i = e + 1;
        txt[s..e].to_string()
    };
    let number = |i: &mut usize| {
        let s = *i;
        while *i < b.len() && (b[*i] == b'-' || b[*i].is_ascii_digit()) {
            *i += 1;
        }
        txt[s..*i].parse::<i64>().expect("number in template")
    };
    while b[i] != b'}' {
        if b[i] == b',' {
            i += 1;
        }
        let key = string(&mut i);
        i += 1; // :
        let v = match b[i] {
            b'"' => J::S(string(&mut i)),
            b'[' => {
                i += 1;
                let mut l = vec![];
                while b[i] != b']' {
                    if b[i] == b',' {
                        i += 1;
                    }
                    l.push(number(&mut i));
                }
                i += 1;
                J::A(l)
            }
            b't' => {
                i += 4;
                J::B
            }
            b'f' => {
                i += 5;
                J::B
            }
            _ => J::N(number(&mut i)),
        };
        m.insert(key, v);
    }
    let mut t = Tpl { id, ..Default::default() };
    for (key, v) in m {
        match (key.as_str(), v) {
            ("op", J::S(s)) => t.op = s,
            ("k", J::S(s)) => t.k = s,
            ("s", J::S(s)) => t.s = s,
            ("k2", J::S(s)) => t.k2 = s,
            ("out", J::S(s)) => t.out = s,
            ("d", J::N(x)) => t.d = x as usize,
            ("w", J::N(x)) => t.w = x as usize,
            ("n", J::N(x)) => t.n = x as usize,
            ("w2", J::N(x)) => t.w2 = x as usize,
            ("max", J::N(x)) => t.max = x as usize,
            ("a", J::A(l)) => t.a = l,
            ("r", J::A(l)) => t.r = l,
            ("far", _) => t.far = true,
            ("ph", _) | ("ok", _) => {}
            (k, _) => panic!("template field {k}"),
        }
    }
    if t.far {
        // r is run-length coded: first token, step, length
        t.r = t.r.chunks(3).flat_map(|c| (0..c[2]).map(move |i| c[0] + c[1] * i)).collect();
    }
    Some(t)
}

pub const HUGE: [usize; 9] = [
    256,
    257,
    65536,
    65537,
    1 << 32,
    (1 << 32) + 1,
    1 << 63,
    usize::MAX - 1,
    usize::MAX,
];

/// Collected results of a run.
pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub rounds: usize,
    pub fails: Mutex<Vec<String>>,
    pub nfails: AtomicUsize,
    pub templates: AtomicU64,
    pub cases: AtomicU64,
    pub calls: AtomicU64,
    pub per_op: Mutex<BTreeMap<String, (u64, u64)>>,
}
impl Ctx {
    pub fn new(prop: &str, seed: u64, rounds: usize) -> Ctx {
        Ctx {
            prop: prop.to_string(),
            seed,
            rounds,
            fails: Mutex::new(vec![]),
            nfails: AtomicUsize::new(0),
            templates: AtomicU64::new(0),
            cases: AtomicU64::new(0),
            calls: AtomicU64::new(0),
            per_op: Mutex::new(BTreeMap::new()),
        }
    }
    pub fn wants(&self, p: &str) -> bool {
        self.prop == p || self.prop == "all"
    }
    pub fn fail(&self, props: &[&str], f: impl FnOnce() -> String) {
        if !props.iter().any(|p| self.wants(p)) {
            return;
        }
        if self.nfails.fetch_add(1, Relaxed) < 40 {
            let s = f();
            crate::heap::off(|| self.fails.lock().unwrap().push(format!("{}\t{}", props.join("+"), s)));
        }
    }
    pub fn enough(&self) -> bool {
        self.nfails.load(Relaxed) >= 40
    }
    pub fn count(&self, op: &str, t: u64, c: u64) {
        self.templates.fetch_add(t, Relaxed);
        self.cases.fetch_add(c, Relaxed);
        crate::heap::off(|| {
            let mut m = self.per_op.lock().unwrap();
            let e = m.entry(op.to_string()).or_insert((0, 0));
            e.0 += t;
            e.1 += c;
        })
    }
}

/// Where each worker is, for the watchdog and for post-mortems of crashes.
pub struct Progress {
    pub slots: Vec<AtomicU64>,
    pub beats: Vec<AtomicU64>,
    pub notes: Vec<Mutex<String>>,
    file: Option<std::fs::File>,
}
impl Progress {
    pub fn new(n: usize, path: Option<&str>) -> Progress {
        Progress {
            slots: (0..n).map(|_| AtomicU64::new(0)).collect(),
            beats: (0..n).map(|_| AtomicU64::new(0)).collect(),
            notes: (0..n).map(|_| Mutex::new(String::new())).collect(),
            file: path.map(|p| std::fs::File::create(p).unwrap()),
        }
    }
    pub fn at(&self, slot: usize, note: String) {
        use std::os::unix::fs::FileExt;
        self.beats[slot].fetch_add(1, Relaxed);
        if let Some(f) = &self.file {
            let mut b = note.clone().into_bytes();
            b.truncate(499);
            b.resize(499, b' ');
            b.push(b'\n');
            let _ = f.write_at(&b, slot as u64 * 500);
        }
        *self.notes[slot].lock().unwrap() = crate::heap::off(|| note.as_str().to_string());
        self.slots[slot].store(1, Relaxed);
    }
    pub fn done(&self, slot: usize) {
        self.at(slot, String::new());
        self.slots[slot].store(0, Relaxed);
    }
}

thread_local! {
    static NOISE: std::cell::RefCell<Option<Box<dyn FnMut()>>> = const { std::cell::RefCell::new(None) };
}
/// Between two calls of a recorded script: whatever was asked for, if anything.
pub fn noise() {
    if let Some(mut f) = NOISE.with(|n| n.borrow_mut().take()) {
        f();
        NOISE.with(|n| *n.borrow_mut() = Some(f));
    }
}
pub fn set_noise(f: Option<Box<dyn FnMut()>>) {
    NOISE.with(|n| *n.borrow_mut() = f);
}
