//! The simulator core: one recorded choice sequence decides everything in a run.
use std::cell::RefCell;
use std::collections::BTreeMap;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.rotate_left(29).wrapping_mul(0xD6E8FEB86659FD93));
    r.next();
    r.next()
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    mix(h, b.len() as u64)
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}
pub type R<T = ()> = Result<T, Violation>;
pub fn viol<T>(class: impl Into<String>, msg: impl Into<String>) -> R<T> {
    Err(Violation { class: class.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($fmt:tt)*) => {
        if !$cond { return $crate::core::viol($class, format!($($fmt)*)); }
    };
}

enum Src {
    Random(Rng),
    Replay(Vec<u64>, usize),
}

pub const DRAW_CAP: usize = 60_000;

pub struct Ctx {
    src: Src,
    pub rec: Vec<u64>,
    pub marks: Vec<usize>,
    pub dict: std::rc::Rc<Vec<u64>>,
    pub trace: Option<Vec<String>>,
    pub counts: BTreeMap<&'static str, u64>,
    pub ticks: u64,
    pub sig: u64,
    pub nontrivial: bool,
    /// values generated lately, so that unrelated fields come out equal now and then
    pub words: std::collections::VecDeque<u64>,
    pub blobs: std::collections::VecDeque<Vec<u8>>,
    /// choices are also written here as they are made
    pub stream: Option<std::fs::File>,
}

impl Ctx {
    pub fn random(seed: u64, dict: std::rc::Rc<Vec<u64>>) -> Self {
        Self::mk(Src::Random(Rng(seed)), dict)
    }
    pub fn replay(v: Vec<u64>, dict: std::rc::Rc<Vec<u64>>) -> Self {
        Self::mk(Src::Replay(v, 0), dict)
    }
    fn mk(src: Src, dict: std::rc::Rc<Vec<u64>>) -> Self {
        Ctx {
            src,
            rec: Vec::with_capacity(256),
            marks: vec![],
            dict,
            trace: None,
            counts: BTreeMap::new(),
            ticks: 0,
            sig: 0x1234,
            nontrivial: false,
            words: Default::default(),
            blobs: Default::default(),
            stream: None,
        }
    }
    /// The only source of decisions. `n == 0` means any u64.
    pub fn draw(&mut self, n: u64) -> u64 {
        let v = match &mut self.src {
            Src::Random(r) => {
                if self.rec.len() >= DRAW_CAP {
                    0
                } else {
                    let x = r.next();
                    if n == 0 {
                        x
                    } else {
                        ((x as u128 * n as u128) >> 64) as u64
                    }
                }
            }
            Src::Replay(v, p) => {
                let x = v.get(*p).copied().unwrap_or(0);
                *p += 1;
                if n == 0 {
                    x
                } else {
                    x % n
                }
            }
        };
        if let Some(f) = &mut self.stream {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        if self.rec.len() < DRAW_CAP + 1000 {
            self.rec.push(v);
        }
        v
    }
    pub fn exhausted(&self) -> bool {
        self.rec.len() >= DRAW_CAP
    }
    pub fn mark(&mut self) {
        self.marks.push(self.rec.len());
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        self.draw(n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability p/q; a zero choice is false.
    pub fn chance(&mut self, p: u64, q: u64) -> bool {
        self.draw(q) >= q - p
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    /// Content bytes from one choice; the zero choice gives zeros.
    pub fn fill(&mut self, out: &mut [u8]) {
        let s = self.draw(0);
        if s == 0 {
            out.iter_mut().for_each(|b| *b = 0);
            return;
        }
        let mut r = Rng(s);
        for ch in out.chunks_mut(8) {
            let b = r.next().to_be_bytes();
            ch.copy_from_slice(&b[..ch.len()]);
        }
    }
    pub fn dict_word(&mut self) -> Option<u64> {
        let n = self.dict.len();
        if n == 0 {
            return None;
        }
        let i = self.below(n);
        Some(self.dict[i])
    }
    pub fn count(&mut self, k: &'static str) {
        *self.counts.entry(k).or_default() += 1;
    }
    pub fn count_n(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_default() += n;
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        let t = self.ticks;
        if let Some(tr) = &mut self.trace {
            if tr.len() < 4000 {
                tr.push(format!("t={t} {}", f()));
            }
        }
    }
    /// Fold something into the measure of distinct histories.
    pub fn note(&mut self, x: u64) {
        self.sig = mix(self.sig, x);
    }
    pub fn tick(&mut self, n: u64) {
        self.ticks += n;
    }
}

// ---------------------------------------------------------------- panics
thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}
pub fn take_panic() -> (String, String) {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
}
/// Panic location in the simulator's own sources?
pub fn is_harness_loc(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/sim/")
}

// ---------------------------------------------------------------- network
/// Discrete-event network. Delivery order is (time, sequence number).
pub struct Packet {
    pub at: u64,
    pub seq: u64,
    pub from: usize,
    pub to: usize,
    pub bytes: Vec<u8>,
    pub tag: u64,
    pub damaged: bool,
}
pub struct NetCfg {
    pub drop: u64,
    pub dup: u64,
    pub corrupt: u64,
    pub delay: u64,
    /// per mille chance that a link is cut when a message is sent
    pub partition: u64,
}
pub struct Net {
    pub q: Vec<Packet>,
    seq: u64,
    pub cfg: NetCfg,
    cut_until: BTreeMap<(usize, usize), u64>,
    pub healed: bool,
}
impl Net {
    pub fn swarm(c: &mut Ctx, corrupting: bool) -> Net {
        let lvl = |c: &mut Ctx| *c.pick(&[0u64, 0, 30, 150, 350]);
        let cfg = NetCfg {
            drop: lvl(c),
            dup: lvl(c),
            corrupt: if corrupting { lvl(c) } else { 0 },
            delay: *c.pick(&[1, 1, 10, 200]),
            partition: *c.pick(&[0, 0, 0, 20, 80]),
        };
        Net { q: vec![], seq: 0, cfg, cut_until: BTreeMap::new(), healed: false }
    }
    pub fn heal(&mut self) {
        self.healed = true;
        self.cut_until.clear();
    }
    pub fn send(&mut self, c: &mut Ctx, from: usize, to: usize, bytes: Vec<u8>, tag: u64) {
        let key = (from.min(to), from.max(to));
        if !self.healed {
            if self.cfg.partition > 0 && c.chance(self.cfg.partition, 1000) {
                let d = 20 + c.draw(400);
                self.cut_until.insert(key, c.ticks + d);
                c.count("fault.partition");
                c.log(|| format!("link {key:?} cut for {d}"));
            }
            if self.cut_until.get(&key).is_some_and(|t| *t > c.ticks) {
                c.count("fault.lost_in_partition");
                return;
            }
            if self.cfg.drop > 0 && c.chance(self.cfg.drop, 1000) {
                c.count("fault.drop");
                c.log(|| format!("message {from}->{to} tag {tag} dropped"));
                return;
            }
        }
        let copies = if !self.healed && self.cfg.dup > 0 && c.chance(self.cfg.dup, 1000) {
            c.count("fault.duplicate");
            2
        } else {
            1
        };
        for _ in 0..copies {
            let delay = 1 + c.draw(self.cfg.delay.max(1));
            if delay > 5 {
                c.count("fault.delay");
            }
            let mut b = bytes.clone();
            let mut damaged = false;
            if !self.healed && self.cfg.corrupt > 0 && c.chance(self.cfg.corrupt, 1000) {
                crate::damage::damage(c, &mut b, &[]);
                damaged = b != bytes;
            }
            self.seq += 1;
            let p = Packet { at: c.ticks + delay, seq: self.seq, from, to, bytes: b, tag, damaged };
            if self.q.iter().any(|o| o.seq < p.seq && o.to == p.to && o.at > p.at) {
                c.count("fault.reorder");
            }
            self.q.push(p);
        }
    }
    pub fn next(&mut self, c: &mut Ctx) -> Option<Packet> {
        let i = (0..self.q.len()).min_by_key(|i| (self.q[*i].at, self.q[*i].seq))?;
        let p = self.q.swap_remove(i);
        c.ticks = c.ticks.max(p.at);
        Some(p)
    }
}
