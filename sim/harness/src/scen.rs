//! Scenarios: what one simulated execution does (workload, schedule policy, faults), and the
//! per-property generators that draw them from a seed.
use crate::gen::*;
use crate::rt::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Learner {
    Reg,
    Sorted,
    Grad,
    GradMc,
    Amg,
    RegBoost,
    McBoost,
    AmgBoost,
}
impl Learner {
    pub fn boosted(self) -> bool {
        matches!(self, Learner::RegBoost | Learner::McBoost | Learner::AmgBoost)
    }
    pub fn multi_class(self) -> bool {
        matches!(self, Learner::McBoost | Learner::AmgBoost)
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum FaultKind {
    Panic,
    Sleep,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct TaskFault {
    /// false: in the split search; true: in the leaf-output calculation
    pub leaf: bool,
    pub at: u32,
    pub kind: FaultKind,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Train {
    pub data: usize,
    pub learner: Learner,
    pub mt: bool,
    pub levels: u32,
    pub iters: u32,
    /// learning rate in thousandths
    pub lr: u32,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub fault: Option<TaskFault>,
    /// the configuration declares this many more classes than the labels have
    #[serde(default)]
    pub misdeclared: i8,
    /// the model is used on rows of this seed and number, and then dropped
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub then: Option<(u64, usize)>,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum LoadKind {
    Single,
    OneHot,
    Paired,
    Names,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct FileSpec {
    pub seed: u64,
    pub rows: usize,
    pub cols: usize,
    /// > 0: the last column is a class index below this
    pub classes: usize,
    pub flavor: u8,
    pub corrupt: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Train(Train),
    /// predict row by row, in batch, and score, on n query rows
    Use { model: usize, qseed: u64, n: usize },
    Load { kind: LoadKind, a: usize, b: usize, k: usize },
    Rewrite { file: usize, spec: FileSpec },
    Part { data: usize, col: usize, pick: u64, sorted: bool },
    Print { model: usize, indent: usize },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Client {
    /// run as a task inside the worker pool instead of on a thread of its own
    pub nested: bool,
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct SimCfg {
    pub seed: u64,
    pub policy: u32,
    pub workers: u32,
    pub sync_den: u32,
    pub mem_mean: u32,
    pub pct_depth: u32,
    pub pct_len: u64,
    pub spur_den: u32,
    pub stall_den: u32,
    pub stall_len: u32,
    pub io_eintr: u32,
    pub io_short: u32,
    pub io_eio: u32,
    pub io_trunc: u32,
    pub io_open: u32,
    pub w_eintr: u32,
    pub w_short: u32,
    pub w_err: u32,
    pub alloc_fail_at: u64,
    /// > 0: the failing allocation is this many 65536ths into the calls' own allocations
    #[serde(default)]
    pub alloc_frac: u32,
    #[serde(default)]
    pub alloc_fail_n: u32,
    pub thread_fail_at: u64,
    pub clock_jump: u32,
    pub ns_per_step: u64,
    pub max_steps: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Scenario {
    pub prop: String,
    pub sim: SimCfg,
    pub data: Vec<DataSpec>,
    pub files: Vec<FileSpec>,
    pub setup: Vec<Op>,
    pub clients: Vec<Client>,
    pub post: Vec<Op>,
    /// run the shipped program instead of the clients (files: train features/labels, test features/labels)
    pub program: bool,
    /// > 0: the clients and the calls after them run this many times over in the one process
    #[serde(default)]
    pub repeat: u32,
    /// each of these repetitions is this many passes over the calls (0 counts as 1)
    #[serde(default)]
    pub passes: u32,
}

impl Scenario {
    pub fn all_ops(&self) -> Vec<&Op> {
        self.setup.iter().chain(self.clients.iter().flat_map(|c| c.ops.iter())).chain(self.post.iter()).collect()
    }
    pub fn n_ops(&self) -> usize {
        self.all_ops().len()
    }
}

// ------------------------------------------------------------------ generators

pub fn gen_data(r: &mut Rng, learner: Learner, big: bool) -> DataSpec {
    let c = r.below(1000);
    let (n, f) = if c < 350 {
        (r.range(1, 12), r.range(1, 4))
    } else if c < 720 {
        (r.range(12, 60), r.range(1, 8))
    } else if c < 900 || !big {
        (r.range(60, 220), r.range(2, 10))
    } else if c < 945 {
        (r.range(10, 40), r.range(40, 170))
    } else if c < 955 {
        (r.range(2, 12), r.range(170, 400))
    } else if c < 994 {
        (r.range(220, 1600), r.range(2, 6))
    } else if c < 999 || r.chance(3, 4) {
        (r.range(1600, 6000), r.range(1, 3))
    } else {
        (r.range(6000, 24_000), 1)
    };
    let mut k = match r.below(60) {
        0 => r.range(22, 64),
        1..=3 => r.range(8, 22),
        4..=12 => 1,
        _ => r.range(2, 5),
    };
    let lk = match learner {
        Learner::McBoost | Learner::AmgBoost => *r.pick(&[L_ONEHOT_RULE, L_ONEHOT_RULE, L_ONEHOT_NOISY]),
        Learner::GradMc | Learner::Amg => L_RESID,
        _ => *r.pick(&[
            L_ONEHOT_RULE, L_ONEHOT_RULE, L_ONEHOT_NOISY, L_ONEHOT_NOISY, L_INT, L_INT, L_INT, L_REAL, L_REAL, L_REAL, L_OFFSET, L_CONST, L_XOR, L_XOR, L_SPARSE,
            L_SPARSE, L_RULE_REAL, L_RULE_REAL, L_TINY, L_LARGE, L_SCALES, L_NEG, L_GEOM, L_RARE, L_BUMPS,
        ]),
    };
    if matches!(learner, Learner::McBoost | Learner::AmgBoost | Learner::GradMc | Learner::Amg) && !r.chance(1, 10) {
        k = k.max(2);
    }
    let mut fk = *r.pick(&[0u8, 0, 0, 0, 1, 1, 1, 2, 2, 3, 3, 5, 6]);
    if matches!(lk, L_GEOM | L_BUMPS) {
        fk = 4;
    }
    let (mut n, mut f) = (n, f);
    if big && r.chance(1, 250) {
        // more targets or classes than eight bits can number
        k = *r.pick(&[65u64, 127, 128, 129, 200, 255, 256, 257, 258, 300]);
        n = n.min(40);
        f = f.min(4);
    }
    DataSpec { seed: r.next(), n: n as usize, f: f as usize, k: k as usize, fk, lk, rows: None, cols: None, bad: 0 }
}

pub fn gen_train(r: &mut Rng, data: usize, spec: &DataSpec, learner: Learner, mt: bool) -> Train {
    let cost = spec.n * spec.f;
    let mut levels = *r.pick(&[0u32, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12]);
    if spec.lk == L_GEOM && r.chance(1, 2) {
        levels = r.range(12, 60) as u32;
    }
    let iters = if !learner.boosted() {
        1
    } else if cost > 2000 {
        r.range(1, 2) as u32
    } else if cost > 300 {
        r.range(1, 5) as u32
    } else {
        *r.pick(&[1u32, 1, 2, 2, 3, 3, 4, 4, 6, 6, 8, 12, if cost < 60 { 90 } else { 16 }])
    };
    let mut levels = if learner.boosted() { levels.min(6) } else { levels };
    if spec.n > 6000 {
        levels = levels.min(4);
    } else if r.chance(1, if learner.boosted() { 60 } else { 25 }) {
        // no limit in effect, however it is written
        levels = *r.pick(&[64u32, 127, 128, 255, 256, 257, 1000, 32_768, 65_535, 65_536, 65_537, 1 << 31, u32::MAX]);
    }
    let mut iters = iters;
    if learner.boosted() && r.chance(1, 40) {
        iters = if cost < 60 && r.chance(1, 3) { r.range(100, 300) as u32 } else { 0 };
    }
    let lr = if r.chance(1, 12) { *r.pick(&[0u32, 1, 50, 900, 1500, 2000]) } else { *r.pick(&[100u32, 100, 300, 500, 1000]) };
    Train { data, learner, mt, levels, iters, lr, fault: None, misdeclared: 0, then: None }
}

pub fn gen_sim(r: &mut Rng, heavy: bool) -> SimCfg {
    let p = r.below(20);
    let policy = if p < 11 { POL_RANDOM } else if p < 18 { POL_PCT } else { POL_SEQ };
    let mut c = SimCfg {
        seed: r.next(),
        policy,
        workers: if r.chance(1, 40) { *r.pick(&[12u32, 16, 24, 33]) } else { *r.pick(&[1u32, 2, 2, 2, 3, 3, 4, 4, 5, 8]) },
        sync_den: *r.pick(&[1u32, 2, 4, 8, 16, 64]),
        mem_mean: *r.pick(&[0u32, 0, 40, 400, 4000]),
        pct_depth: r.range(1, 6) as u32,
        spur_den: *r.pick(&[0u32, 0, 40, 400]),
        stall_den: *r.pick(&[0u32, 0, 0, 100, 1000]),
        stall_len: *r.pick(&[200u32, 20_000, 1_000_000]),
        clock_jump: *r.pick(&[0u32, 0, 2, 10]),
        ns_per_step: *r.pick(&[1u64, 10, 1000]),
        ..Default::default()
    };
    if heavy {
        c.sync_den = c.sync_den.max(8);
        if c.mem_mean > 0 {
            c.mem_mean = c.mem_mean.max(4000);
        }
    }
    if policy == POL_PCT {
        c.sync_den = 0;
        c.mem_mean = 0;
    }
    if policy == POL_SEQ {
        c.sync_den = 0;
        c.mem_mean = 0;
        c.spur_den = 0;
        c.stall_den = 0;
    }
    c
}

/// Sometimes let a call run on malformed data.
fn maybe_spoil(r: &mut Rng, s: &mut Scenario, t: &mut Train, num: u64, den: u64) {
    if t.learner != Learner::Sorted && r.chance(num, den) {
        if r.chance(1, 7) {
            t.misdeclared = *r.pick(&[-1i8, 1]);
            return;
        }
        let mut d = s.data[t.data].clone();
        d.bad = *r.pick(&[1u8, 1, 2, 2, 3, 4, 5, 6, 7, 7, 8]);
        if r.chance(1, 4) {
            d.f = 1;
        }
        s.data.push(d);
        t.data = s.data.len() - 1;
    }
}

fn heavy(specs: &[DataSpec]) -> bool {
    specs.iter().any(|s| s.n * s.f > 1500)
}

const ALL: [Learner; 8] = [
    Learner::Reg, Learner::Sorted, Learner::Grad, Learner::GradMc, Learner::Amg, Learner::RegBoost, Learner::McBoost, Learner::AmgBoost,
];
const MT: [Learner; 7] = [
    Learner::Reg, Learner::Grad, Learner::GradMc, Learner::Amg, Learner::RegBoost, Learner::McBoost, Learner::AmgBoost,
];

fn single_train(r: &mut Rng, s: &mut Scenario, learner: Learner, mt: bool, big: bool) {
    let mut d = gen_data(r, learner, big);
    let mut t = gen_train(r, 0, &d, learner, mt);
    if big && r.chance(1, if s.prop == "C03" { 80 } else { 400 }) && matches!(learner, Learner::Reg | Learner::Sorted | Learner::Grad | Learner::RegBoost) {
        deep(r, &mut d, &mut t);
    }
    s.data.push(d);
    if matches!(s.prop.as_str(), "C01" | "C02") {
        maybe_spoil(r, s, &mut t, 1, 30);
    }
    s.clients.push(Client { nested: r.chance(1, 6), ops: vec![Op::Train(t)] });
}

fn tiny(s: &mut Scenario, ops: &mut [Op]) {
    for f in s.files.iter_mut() {
        f.rows = f.rows.min(12);
        f.cols = f.cols.min(4);
        f.classes = f.classes.min(10);
    }
    for d in s.data.iter_mut() {
        d.k = d.k.min(4);
    }
    for o in ops.iter_mut() {
        if let Op::Load { kind: LoadKind::OneHot, a, k, .. } = o {
            *k = (*k).min(s.files[*a].classes);
        }
        if let Op::Rewrite { spec, .. } = o {
            spec.rows = spec.rows.min(12);
            spec.cols = spec.cols.min(4);
            spec.classes = spec.classes.min(10);
        }
    }
}

/// A tree deeper than eight bits can count.
fn deep(r: &mut Rng, d: &mut DataSpec, t: &mut Train) {
    d.lk = L_GEOM;
    d.fk = 4;
    d.k = 1;
    d.f = 1;
    d.n = r.range(262, 330) as usize;
    d.seed &= !3;
    t.levels = *r.pick(&[128u32, 254, 255, 256, 256, 257, 258, 260, 300, 1000, u32::MAX]);
    t.iters = t.iters.min(1);
}

fn small(d: &mut DataSpec, n: usize, f: usize) {
    d.n = d.n.min(n);
    d.f = d.f.min(f);
}

pub fn gen_file(r: &mut Rng, allow_bad: bool) -> FileSpec {
    let rows = match r.below(40) {
        0 | 1 => r.range(0, 1),
        2..=27 => r.range(1, 30),
        28..=36 => r.range(30, 300),
        37 if r.chance(1, 300) => r.range(2500, 67_000),
        _ => r.range(300, 2500),
    } as usize;
    let (rows, cols) = match r.below(60) {
        0 => (r.range(0, 6) as usize, r.range(300, 6000) as usize), // very long lines
        1 => (rows.min(60), r.range(10, 120) as usize),
        _ if rows > 2500 => (rows, r.range(1, 2) as usize),
        _ => (rows, r.range(1, 9) as usize),
    };
    FileSpec {
        seed: r.next(),
        rows,
        cols,
        classes: 0,
        flavor: *r.pick(&[0u8, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]),
        corrupt: if allow_bad && r.chance(1, 4) { r.range(1, 18) as u8 } else { 0 },
    }
}

fn load_ops(r: &mut Rng, s: &mut Scenario, n: usize, allow_bad: bool) -> Vec<Op> {
    let mut ops = Vec::new();
    for _ in 0..n {
        match r.below(8) {
            0 | 1 => {
                s.files.push(gen_file(r, allow_bad));
                ops.push(Op::Load { kind: LoadKind::Single, a: s.files.len() - 1, b: 0, k: 0 });
            }
            2 | 3 => {
                let mut f = gen_file(r, allow_bad);
                f.cols = f.cols.max(2);
                f.classes = match r.below(12) {
                    0 => r.range(11, 300),
                    1 => r.range(200, 1000),
                    _ => r.range(1, 10),
                } as usize;
                if f.classes > 10 {
                    f.rows = f.rows.min(150);
                }
                let k = f.classes;
                s.files.push(f);
                // sometimes fewer targets than classes in the file: must be refused
                let k = if allow_bad && r.chance(1, 8) { k.saturating_sub(1).max(1) } else { k };
                ops.push(Op::Load { kind: LoadKind::OneHot, a: s.files.len() - 1, b: 0, k });
            }
            4..=6 => {
                let f = gen_file(r, allow_bad);
                let lb = allow_bad && r.chance(1, 2);
                let mut l = gen_file(r, lb);
                l.rows = if allow_bad && r.chance(1, 6) {
                    (f.rows as i64 + *r.pick(&[-1i64, 1, 2, -2])).max(0) as usize
                } else {
                    f.rows
                };
                s.files.push(f);
                s.files.push(l);
                ops.push(Op::Load { kind: LoadKind::Paired, a: s.files.len() - 2, b: s.files.len() - 1, k: 0 });
            }
            _ => {
                let mut f = gen_file(r, allow_bad);
                if f.corrupt > 0 && r.chance(1, 2) {
                    f.corrupt = 16;
                }
                s.files.push(f);
                ops.push(Op::Load { kind: LoadKind::Names, a: s.files.len() - 1, b: 0, k: 0 });
            }
        }
        if r.chance(2, 5) {
            // the same path again, after its content changed (often keeping the size) or unchanged
            if let Some(Op::Load { kind, a, b, k }) = ops.last().cloned() {
                if r.chance(3, 4) {
                    let old = s.files[a].clone();
                    let mut nf = FileSpec { seed: r.next(), ..old };
                    if r.chance(1, 2) && kind != LoadKind::Paired {
                        nf.rows = r.range(1, 40) as usize;
                    }
                    nf.corrupt = 0;
                    ops.push(Op::Rewrite { file: a, spec: nf });
                }
                ops.push(Op::Load { kind, a, b, k });
            }
        }
    }
    ops
}

fn storm(r: &mut Rng, s: &mut Scenario, l: Learner) {
    let nc = r.range(3, 8);
    let mut first: Option<DataSpec> = None;
    for _ in 0..nc {
        let mut d = gen_data(r, l, false);
        d.n = r.range(3, 40) as usize;
        d.f = r.range(2, 7) as usize;
        d.k = d.k.min(6);
        // like shapes make mix-ups between callers plausible
        if let Some(f) = &first {
            if r.chance(1, 2) {
                d.n = f.n;
                d.f = f.f;
                d.k = f.k;
            }
        }
        first.get_or_insert(d.clone());
        let di = s.data.len();
        s.data.push(d);
        let mut ops = vec![];
        for _ in 0..r.range(1, 2) {
            let mt = r.chance(3, 4);
            let mut t = gen_train(r, di, &s.data[di].clone(), l, mt);
            t.iters = t.iters.min(3);
            t.levels = t.levels.clamp(1, 5);
            ops.push(Op::Train(t));
        }
        s.clients.push(Client { nested: r.chance(4, 5), ops });
    }
}

/// Few rows, and columns that are mostly copies of earlier ones.
fn many_ties(r: &mut Rng, d: &mut DataSpec, wide: usize) {
    d.n = d.n.min(24);
    d.f = wide;
    d.fk = 7;
    d.k = d.k.min(4);
    if r.chance(1, 2) && d.lk < L_RESID {
        d.lk = *r.pick(&[L_ONEHOT_RULE, L_ONEHOT_NOISY]);
    }
}

fn io_faults(r: &mut Rng, c: &mut SimCfg) {
    let lv = [0u32, 0, 100, 600, 2500];
    match r.below(6) {
        0 => {} // none
        1 => c.io_short = *r.pick(&[2000u32, 7000, 10000]),
        2 => c.io_eintr = *r.pick(&[200u32, 1500]),
        3 => {
            c.io_eio = *r.pick(&[300u32, 2000]);
            c.io_short = *r.pick(&[0u32, 8000]);
        }
        4 => {
            c.io_trunc = *r.pick(&[500u32, 4000]);
            c.io_short = *r.pick(&[0u32, 8000]);
        }
        _ => {
            c.io_eintr = *r.pick(&lv);
            c.io_short = *r.pick(&[0u32, 3000, 9000]);
            c.io_eio = *r.pick(&lv);
            c.io_trunc = *r.pick(&lv);
            c.io_open = *r.pick(&[0u32, 500, 3000]);
        }
    }
}

fn model_for(r: &mut Rng, s: &mut Scenario, learner: Learner, n: usize) {
    let mut d = gen_data(r, learner, false);
    small(&mut d, n, 8);
    if r.chance(1, 120) {
        d.k = *r.pick(&[65usize, 127, 128, 129, 255, 256, 257, 300]);
        small(&mut d, 30, 3);
    }
    let ex = r.chance(1, 2);
    let t = gen_train(r, s.data.len(), &d, learner, ex);
    s.data.push(d);
    s.setup.push(Op::Train(t));
}

pub fn generate(prop: &str, seed: u64) -> Scenario {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut s = Scenario { prop: prop.into(), ..Default::default() };
    match prop {
        "C01" => {
            let l = *r.pick(&ALL);
            let mt = r.chance(3, 4);
            single_train(r, &mut s, l, mt, true);
            s.sim = gen_sim(r, heavy(&s.data));
        }
        "C02" => {
            let l = *r.pick(&MT);
            single_train(r, &mut s, l, true, true);
            s.sim = gen_sim(r, heavy(&s.data));
        }
        "C03" => {
            let l = *r.pick(&[Learner::Reg, Learner::Reg, Learner::Sorted, Learner::Sorted, Learner::Grad, Learner::RegBoost, Learner::McBoost, Learner::AmgBoost]);
            let mt = r.chance(1, 2);
            single_train(r, &mut s, l, mt, true);
            s.sim = gen_sim(r, heavy(&s.data));
        }
        "C04" if r.chance(1, 1500) => {
            // more rows than sixteen bits can number
            let fk = *r.pick(&[0u8, 2, 4]);
            s.data.push(DataSpec { seed: r.next(), n: r.range(65_536, 68_000) as usize, f: 1, k: 1, fk, lk: L_INT, rows: None, cols: None, bad: 0 });
            s.clients.push(Client { nested: false, ops: vec![Op::Part { data: 0, col: 0, pick: r.next(), sorted: r.chance(4, 5) }] });
            s.sim = gen_sim(r, true);
        }
        "C04" => {
            s.sim = gen_sim(r, false);
            for _ in 0..r.range(1, 3) {
                let l = *r.pick(&[Learner::Reg, Learner::Reg, Learner::Sorted, Learner::Sorted, Learner::Sorted]);
                let d = gen_data(r, l, true);
                let ex = r.chance(1, 2);
                let t = gen_train(r, s.data.len(), &d, l, ex);
                s.data.push(d);
                let di = s.data.len() - 1;
                let mut ops = vec![Op::Train(t)];
                for _ in 0..r.range(1, 4) {
                    ops.push(Op::Part { data: di, col: r.next() as usize, pick: r.next(), sorted: r.chance(1, 2) });
                }
                s.clients.push(Client { nested: r.chance(1, 6), ops });
            }
            if heavy(&s.data) {
                s.sim = gen_sim(r, true);
            }
        }
        "C05" => {
            let l = *r.pick(&[Learner::RegBoost, Learner::McBoost, Learner::McBoost, Learner::AmgBoost, Learner::AmgBoost, Learner::Grad, Learner::GradMc, Learner::Amg]);
            let mut d = gen_data(r, l, true);
            let long = l.boosted() && r.chance(1, 4);
            if long {
                small(&mut d, 30, 4);
                d.k = d.k.min(5);
            }
            let ex = r.chance(1, 2);
            let mut t = gen_train(r, 0, &d, l, ex);
            if long {
                t.iters = *r.pick(&[30u32, 60, 120, 250, 257, 300]);
                if r.chance(1, 30) {
                    small(&mut d, 12, 2);
                    t.levels = t.levels.min(2);
                    t.iters = r.range(500, 1100) as u32;
                }
                t.lr = *r.pick(&[100u32, 500, 1000, 1000, 1500]);
                t.levels = t.levels.min(4);
            }
            s.data.push(d);
            s.clients.push(Client { nested: false, ops: vec![Op::Train(t)] });
            s.sim = gen_sim(r, long || heavy(&s.data));
        }
        "C06" if r.chance(1, 600) => {
            // more rows than sixteen bits can number
            let fk = *r.pick(&[0u8, 2, 4]);
            let lk = *r.pick(&[L_INT, L_INT, L_BUMPS]);
            let mut d = DataSpec { seed: r.next(), n: r.range(65_536, 68_000) as usize, f: 1, k: 1, fk, lk, rows: None, cols: None, bad: 0 };
            let mut t = gen_train(r, 0, &d, Learner::Sorted, false);
            t.levels = r.range(1, 2) as u32;
            d.f = 1;
            s.data.push(d);
            s.clients.push(Client { nested: false, ops: vec![Op::Train(t)] });
            s.sim = gen_sim(r, true);
        }
        "C06" => {
            let mt = false;
            single_train(r, &mut s, Learner::Sorted, mt, true);
            s.sim = gen_sim(r, heavy(&s.data));
        }
        "C07" => {
            s.sim = gen_sim(r, true);
            let nc = *r.pick(&[1u64, 1, 1, 2, 3]);
            for _ in 0..nc {
                let n = r.range(1, 3) as usize;
                let ops = load_ops(r, &mut s, n, true);
                s.clients.push(Client { nested: false, ops });
            }
            io_faults(r, &mut s.sim);
            if r.chance(1, 12) {
                let e = r.range(3, 11);
                s.sim.alloc_fail_at = 1 + r.below(1 << e);
            }
        }
        "C08" if r.chance(1, 12) => {
            // partitions and predictions only: short calls whose every step meets the others'
            let nc = r.range(2, 6);
            for _ in 0..nc {
                let mut d = gen_data(r, Learner::Sorted, false);
                d.n = *r.pick(&[2u64, 5, 12, 40, 120]) as usize + r.below(4) as usize;
                d.f = d.f.min(3);
                d.k = d.k.min(4);
                s.data.push(d);
                let data = s.data.len() - 1;
                let ops = (0..r.range(1, 3)).map(|_| Op::Part { data, col: r.next() as usize, pick: r.next(), sorted: r.chance(3, 4) }).collect();
                s.clients.push(Client { nested: r.chance(1, 3), ops });
            }
            s.sim = gen_sim(r, false);
            if s.sim.policy == POL_SEQ {
                s.sim.policy = POL_RANDOM;
            }
            if s.sim.policy == POL_RANDOM {
                s.sim.sync_den = *r.pick(&[1u32, 2, 4]);
            }
        }
        "C08" if r.chance(1, 3) => {
            // a storm: the same learner trained by many callers at once, mostly from pool tasks
            let l = *r.pick(&[Learner::Sorted, Learner::Sorted, Learner::Reg, Learner::Grad, Learner::Amg, Learner::RegBoost, Learner::McBoost, Learner::AmgBoost]);
            storm(r, &mut s, l);
            s.sim = gen_sim(r, false);
            s.sim.workers = r.range(2, 4) as u32;
            if s.sim.policy == POL_SEQ {
                s.sim.policy = POL_RANDOM;
            }
            if s.sim.policy == POL_RANDOM {
                s.sim.sync_den = *r.pick(&[1u32, 2, 4, 8]);
            }
        }
        "C08" => {
            let nm = r.range(0, 3);
            for _ in 0..nm {
                let l = *r.pick(&ALL);
                model_for(r, &mut s, l, 60);
            }
            let nc = r.range(2, 5);
            for _ in 0..nc {
                let mut ops = Vec::new();
                for _ in 0..r.range(1, 3) {
                    match r.below(8) {
                        0..=4 => {
                            // half of the time train on a dataset another client uses too
                            let l = *r.pick(&ALL);
                            let reuse = (0..s.data.len()).filter(|&i| s.data[i].bad == 0 && compatible(&s.data[i], l)).collect::<Vec<_>>();
                            let di = if !reuse.is_empty() && r.chance(1, 2) {
                                *r.pick(&reuse)
                            } else {
                                let mut d = gen_data(r, l, false);
                                small(&mut d, 120, 10);
                                s.data.push(d);
                                s.data.len() - 1
                            };
                            let mt = r.chance(3, 4);
                            let mut t = gen_train(r, di, &s.data[di].clone(), l, mt);
                            maybe_spoil(r, &mut s, &mut t, 1, 12);
                            ops.push(Op::Train(t));
                        }
                        5 | 6 if nm > 0 => ops.push(Op::Use { model: r.below(nm) as usize, qseed: r.next(), n: if r.chance(1, 6) { r.range(100, 400) } else { r.range(1, 20) } as usize }),
                        _ => {
                            let mut o = load_ops(r, &mut s, 1, false);
                            ops.append(&mut o);
                        }
                    }
                }
                s.clients.push(Client { nested: r.chance(1, 4), ops });
            }
            s.sim = gen_sim(r, heavy(&s.data));
        }
        "C09" if r.chance(1, 3) => {
            // one small call during which memory runs out
            let l = *r.pick(&ALL);
            let mut d = gen_data(r, l, false);
            small(&mut d, *r.pick(&[6usize, 12, 40]), 4);
            d.k = d.k.min(4);
            let mt = r.chance(3, 4);
            let mut t = gen_train(r, 0, &d, l, mt);
            t.iters = t.iters.min(3);
            s.data.push(d);
            s.clients.push(Client { nested: r.chance(1, 6), ops: vec![Op::Train(t)] });
            s.sim = gen_sim(r, false);
            s.sim.alloc_frac = r.range(1, 65536) as u32;
            s.sim.alloc_fail_n = *r.pick(&[1u32, 1, 1, 2, 5]);
        }
        "C09" if r.chance(1, 30) => {
            // small calls that fail, and others that do not, dozens of times over
            let nc = r.range(1, 2);
            for _ in 0..nc {
                let mut ops = vec![];
                for i in 0..r.range(1, 3) {
                    let l = *r.pick(&ALL);
                    let mut d = gen_data(r, l, false);
                    small(&mut d, 8, 3);
                    d.k = d.k.min(3);
                    let mt = r.chance(3, 4);
                    let mut t = gen_train(r, s.data.len(), &d, l, mt);
                    t.iters = t.iters.min(2);
                    s.data.push(d);
                    if i == 0 || r.chance(1, 3) {
                        if l != Learner::Sorted && r.chance(1, 2) {
                            let leaf = matches!(l, Learner::Grad | Learner::GradMc | Learner::Amg) && r.chance(1, 2);
                            t.fault = Some(TaskFault { leaf, at: r.range(1, 3) as u32, kind: FaultKind::Panic });
                        } else {
                            maybe_spoil(r, &mut s, &mut t, 1, 1);
                        }
                    }
                    ops.push(Op::Train(t));
                }
                s.clients.push(Client { nested: r.chance(1, 6), ops });
            }
            s.passes = *r.pick(&[20u32, 40, 80, 150, 300]);
            s.sim = gen_sim(r, true);
            s.sim.mem_mean = 0;
            s.sim.workers = s.sim.workers.min(4);
        }
        "C09" => {
            let nc = *r.pick(&[1u64, 1, 2, 3]);
            for _ in 0..nc {
                let mut ops = Vec::new();
                for _ in 0..r.range(1, 2) {
                    let l = *r.pick(&ALL);
                    let mut d = gen_data(r, l, false);
                    small(&mut d, 80, 8);
                    let mt = r.chance(3, 4);
                    let mut t = gen_train(r, s.data.len(), &d, l, mt);
                    s.data.push(d);
                    if l != Learner::Sorted && r.chance(2, 3) {
                        let leaf = matches!(l, Learner::Grad | Learner::GradMc | Learner::Amg) && r.chance(1, 2);
                        let hi = *r.pick(&[2u64, 6, 20]);
                        t.fault = Some(TaskFault { leaf, at: r.range(1, hi) as u32, kind: if r.chance(7, 8) { FaultKind::Panic } else { FaultKind::Sleep } });
                    }
                    maybe_spoil(r, &mut s, &mut t, 1, 5);
                    ops.push(Op::Train(t));
                }
                s.clients.push(Client { nested: r.chance(1, 4), ops });
            }
            // later calls in the same process
            let l = *r.pick(&ALL);
            let mut d = gen_data(r, l, false);
            small(&mut d, 40, 6);
            let t = gen_train(r, s.data.len(), &d, l, true);
            s.data.push(d);
            s.post.push(Op::Train(t));
            if r.chance(1, 2) {
                // and a good call just like one that may have failed
                if let Op::Train(t) = s.clients[0].ops[0].clone() {
                    let mut d = s.data[t.data].clone();
                    d.bad = 0;
                    s.data.push(d);
                    s.post.push(Op::Train(Train { fault: None, misdeclared: 0, data: s.data.len() - 1, ..t }));
                }
            }
            s.sim = gen_sim(r, heavy(&s.data));
            match r.below(10) {
                0..=3 => {
                    s.sim.alloc_frac = r.range(1, 65536) as u32;
                    s.sim.alloc_fail_n = *r.pick(&[1u32, 1, 1, 2, 5]);
                }
                4 => {
                    let more = if r.chance(1, 3) { 20 } else { 0 };
                    s.sim.thread_fail_at = r.range(1, s.sim.workers as u64 + more);
                }
                _ => {}
            }
        }
        "C10" if r.chance(1, 150) => {
            // many rows
            let l = *r.pick(&ALL);
            let mut d = gen_data(r, l, false);
            d.n = *r.pick(&[1100u64, 2100, 2100, 4200, 4200, 8300, 16_500]) as usize + r.below(60) as usize;
            d.f = r.range(1, if d.n > 5000 { 1 } else { 2 }) as usize;
            d.k = d.k.min(2);
            let mt = r.chance(4, 5);
            let mut t = gen_train(r, 0, &d, l, mt);
            t.levels = t.levels.min(3);
            t.iters = t.iters.min(2);
            s.data.push(d);
            s.clients.push(Client { nested: r.chance(1, 4), ops: vec![Op::Train(t)] });
            s.sim = gen_sim(r, true);
        }
        "C10" if r.chance(1, 12) => {
            // many callers of one multi-threaded learner, all inside the pool
            let l = *r.pick(&[Learner::Reg, Learner::Reg, Learner::Reg, Learner::Grad, Learner::GradMc, Learner::Amg, Learner::RegBoost, Learner::McBoost, Learner::AmgBoost]);
            let alike = r.chance(1, 2);
            let mut d = gen_data(r, l, false);
            for _ in 0..*r.pick(&[4u64, 5, 6, 8, 10, 14]) {
                if !alike {
                    d = gen_data(r, l, false);
                }
                d.n = r.range(12, 40) as usize;
                d.f = r.range(1, 4) as usize;
                d.k = d.k.min(3);
                if d.lk == L_CONST {
                    d.lk = L_REAL;
                }
                let mut t = gen_train(r, s.data.len(), &d, l, true);
                t.levels = r.range(2, 6) as u32;
                t.iters = t.iters.min(2);
                s.data.push(d.clone());
                s.clients.push(Client { nested: r.chance(11, 12), ops: vec![Op::Train(t)] });
            }
            s.sim = gen_sim(r, false);
            s.sim.workers = *r.pick(&[2u32, 2, 3, 3, 4, 6]);
        }
        "C10" if r.chance(1, 5) => {
            let l = *r.pick(&ALL);
            storm(r, &mut s, l);
            s.sim = gen_sim(r, false);
            s.sim.workers = *r.pick(&[1u32, 1, 2, 2, 3, 4]);
        }
        "C10" => {
            let nc = *r.pick(&[1u64, 2, 3, 4, 6, 9]);
            for _ in 0..nc {
                let mut ops = Vec::new();
                for _ in 0..r.range(1, 2) {
                    let l = *r.pick(&ALL);
                    let mut d = gen_data(r, l, false);
                    small(&mut d, if nc > 3 { 40 } else { 120 }, 8);
                    let mt = r.chance(4, 5);
                    let mut t = gen_train(r, s.data.len(), &d, l, mt);
                    s.data.push(d);
                    if l != Learner::Sorted && r.chance(1, 4) {
                        t.fault = Some(TaskFault { leaf: false, at: r.range(1, 6) as u32, kind: if r.chance(3, 4) { FaultKind::Sleep } else { FaultKind::Panic } });
                    }
                    maybe_spoil(r, &mut s, &mut t, 1, 12);
                    ops.push(Op::Train(t));
                }
                s.clients.push(Client { nested: r.chance(1, 3), ops });
            }
            s.sim = gen_sim(r, heavy(&s.data));
            if s.sim.policy != POL_SEQ && r.chance(1, 2) {
                s.sim.spur_den = 20;
                s.sim.stall_den = 50;
            }
            s.sim.workers = *r.pick(&[1u32, 1, 2, 2, 3, 4, 8]);
        }
        "C11" => {
            let nm = r.range(1, 3);
            for _ in 0..nm {
                let l = *r.pick(&[Learner::Reg, Learner::Reg, Learner::Sorted, Learner::RegBoost, Learner::McBoost, Learner::AmgBoost]);
                model_for(r, &mut s, l, 120);
            }
            if r.chance(1, 5) {
                // models that come and go, asked for the same rows
                for _ in 0..r.range(1, 2) {
                    let mut t = match r.pick(&s.setup) {
                        Op::Train(t) => t.clone(),
                        _ => unreachable!(),
                    };
                    let cost = s.data[t.data].n * s.data[t.data].f;
                    t.iters = t.iters.min(if cost > 300 { 2 } else { 8 });
                    let q = (r.next(), r.range(1, 6) as usize);
                    let mut ops = vec![];
                    for _ in 0..r.range(2, 5) {
                        match r.below(4) {
                            0 => t.levels = r.range(0, 4) as u32,
                            1 => t.lr = *r.pick(&[100u32, 300, 500, 1000]),
                            2 => {
                                let mut d = s.data[t.data].clone();
                                d.seed = r.next();
                                s.data.push(d);
                                t.data = s.data.len() - 1;
                            }
                            _ => {}
                        }
                        ops.push(Op::Train(Train { then: Some(q), mt: r.chance(1, 3), ..t.clone() }));
                    }
                    s.clients.push(Client { nested: r.chance(1, 3), ops });
                }
            }
            let nc = r.range(1, 4);
            for _ in 0..nc {
                let mut ops = Vec::new();
                for _ in 0..r.range(1, 3) {
                    let n = *r.pick(&[1u64, 1, 3, 3, 10, 10, 40, 40, 300, 300, 1500]);
                    ops.push(Op::Use { model: r.below(nm) as usize, qseed: r.next(), n: n as usize });
                }
                s.clients.push(Client { nested: r.chance(1, 3), ops });
            }
            s.sim = gen_sim(r, false);
        }
        "C12" => {
            let most = if r.chance(1, 8) { 220 } else { 60 };
            model_for(r, &mut s, Learner::Reg, most);
            if r.chance(1, 10) {
                // a deep, narrow tree
                s.data[0].lk = L_GEOM;
                s.data[0].fk = 4;
                s.data[0].k = s.data[0].k.min(2);
                s.data[0].n = r.range(15, 60) as usize;
                if let Op::Train(t) = &mut s.setup[0] {
                    t.levels = r.range(12, 60) as u32;
                    if r.chance(1, 20) {
                        deep(r, &mut s.data[0], t);
                    }
                }
            }
            let wide = if r.chance(1, 8) { r.range(5, 90) } else { r.below(4) };
            s.clients.push(Client { nested: r.chance(1, 6), ops: vec![Op::Print { model: 0, indent: wide as usize }] });
            if r.chance(1, 2) {
                let l = *r.pick(&MT);
                let mut d = gen_data(r, l, false);
                small(&mut d, 40, 6);
                let t = gen_train(r, s.data.len(), &d, l, true);
                s.data.push(d);
                s.clients.push(Client { nested: false, ops: vec![Op::Train(t)] });
            }
            if r.chance(1, 3) {
                s.clients[0].ops.push(Op::Print { model: 0, indent: 1 });
            }
            s.sim = gen_sim(r, true);
            match r.below(4) {
                0 => {}
                1 => s.sim.w_short = 6000,
                2 => {
                    s.sim.w_eintr = 3000;
                    s.sim.w_short = 3000;
                }
                _ => {
                    s.sim.w_err = *r.pick(&[300u32, 2000]);
                    s.sim.w_short = *r.pick(&[0u32, 5000]);
                }
            }
        }
        "C13" => {
            s.program = true;
            let n = if r.chance(1, 40) { r.range(0, 10) } else if r.chance(1, 10) { r.range(24, 60) } else { r.range(11, 24) } as usize;
            let f = r.range(1, if n > 30 { 2 } else { 4 }) as usize;
            let m = if r.chance(1, 8) { r.range(12, 120) } else { r.range(1, 12) } as usize;
            let flavor = *r.pick(&[0u8, 0, 1, 2, 3, 5, 8, 10, 12]);
            let file = |r: &mut Rng, rows, cols| FileSpec { seed: r.next(), rows, cols, classes: 0, flavor, corrupt: 0 };
            s.files.push(file(r, n, f));
            s.files.push(file(r, n, 10));
            s.files.push(file(r, m, f));
            s.files.push(file(r, m, 10));
            match r.below(8) {
                0 => {
                    let i = r.below(4) as usize;
                    s.files[i].corrupt = r.range(1, 18) as u8;
                }
                1 => {
                    let i = r.below(4) as usize;
                    s.files[i].rows += 1;
                }
                _ => {}
            }
            s.sim = gen_sim(r, true);
            s.sim.sync_den = s.sim.sync_den.max(if s.sim.policy == POL_RANDOM { 16 } else { 0 });
            s.sim.mem_mean = 0;
            if r.chance(2, 3) {
                io_faults(r, &mut s.sim);
            }
            if r.chance(1, 12) {
                let e = r.range(3, 16);
                s.sim.alloc_fail_at = 1 + r.below(1 << e);
            }
            if r.chance(1, 4) {
                s.sim.w_short = 3000;
                s.sim.w_eintr = 2000;
                s.sim.w_err = *r.pick(&[0u32, 500, 2000]);
            }
        }
        "C16" if r.chance(1, 4) => {
            // one or two small calls, very many times: leaks of a few bytes a call add up
            let faults = r.chance(1, 2);
            let mut ops = vec![];
            for _ in 0..r.range(1, 2) {
                match r.below(7) {
                    0 | 1 => {
                        let l = *r.pick(&ALL);
                        let mut d = gen_data(r, l, false);
                        small(&mut d, 8, 3);
                        d.k = d.k.min(3);
                        let mt = r.chance(3, 4);
                        let mut t = gen_train(r, s.data.len(), &d, l, mt);
                        t.iters = t.iters.min(2);
                        s.data.push(d);
                        if faults && l != Learner::Sorted && r.chance(1, 2) {
                            t.fault = Some(TaskFault { leaf: false, at: r.range(1, 3) as u32, kind: FaultKind::Panic });
                        } else if faults {
                            maybe_spoil(r, &mut s, &mut t, 1, 2);
                        }
                        ops.push(Op::Train(t));
                    }
                    2 | 3 => {
                        let l = *r.pick(&[Learner::Reg, Learner::Sorted, Learner::RegBoost, Learner::McBoost, Learner::AmgBoost]);
                        if s.setup.is_empty() {
                            model_for(r, &mut s, l, 12);
                        }
                        ops.push(Op::Use { model: 0, qseed: r.next(), n: r.range(1, 6) as usize });
                    }
                    _ => {
                        let mut o = load_ops(r, &mut s, 1, faults);
                        ops.append(&mut o);
                    }
                }
            }
            tiny(&mut s, &mut ops);
            s.repeat = 14;
            s.passes = *r.pick(&[10u32, 10, 30, 30, 60]);
            s.clients.push(Client { nested: r.chance(1, 12), ops });
            s.sim = gen_sim(r, true);
            s.sim.mem_mean = 0;
            s.sim.clock_jump = 0;
            s.sim.workers = s.sim.workers.min(4);
            if faults {
                io_faults(r, &mut s.sim);
                s.sim.io_trunc = 0;
            }
        }
        "C16" => {
            let nc = *r.pick(&[1u64, 1, 2, 3]);
            let faults = r.chance(1, 2);
            for _ in 0..nc {
                let mut ops = vec![];
                for _ in 0..r.range(1, 4) {
                    match r.below(7) {
                        6 => {
                            if s.setup.is_empty() {
                                model_for(r, &mut s, Learner::Reg, 30);
                            }
                            if matches!(s.setup[0], Op::Train(Train { learner: Learner::Reg, .. })) && s.clients.is_empty() {
                                ops.push(Op::Print { model: 0, indent: r.below(3) as usize });
                            }
                        }
                        0..=2 => {
                            let l = *r.pick(&ALL);
                            let mut d = gen_data(r, l, false);
                            small(&mut d, 40, 5);
                            d.k = d.k.min(if r.chance(1, 4) { 40 } else { 5 });
                            let mt = r.chance(3, 4);
                            let mut t = gen_train(r, s.data.len(), &d, l, mt);
                            t.iters = t.iters.min(4);
                            s.data.push(d);
                            if faults && l != Learner::Sorted && r.chance(1, 2) {
                                t.fault = Some(TaskFault { leaf: false, at: r.range(1, 4) as u32, kind: FaultKind::Panic });
                            } else if faults {
                                maybe_spoil(r, &mut s, &mut t, 1, 2);
                            }
                            ops.push(Op::Train(t));
                        }
                        3 => {
                            if s.setup.is_empty() {
                                let l = *r.pick(&[Learner::Reg, Learner::Sorted, Learner::RegBoost, Learner::McBoost, Learner::AmgBoost]);
                                model_for(r, &mut s, l, 30);
                            }
                            ops.push(Op::Use { model: 0, qseed: r.next(), n: r.range(1, 30) as usize });
                        }
                        _ => {
                            let mut o = load_ops(r, &mut s, 1, faults);
                            ops.append(&mut o);
                        }
                    }
                }
                s.clients.push(Client { nested: r.chance(1, 5), ops });
            }
            for f in s.files.iter_mut() {
                f.rows = f.rows.min(200);
                f.cols = f.cols.min(40);
            }
            s.repeat = 14;
            s.sim = gen_sim(r, true);
            s.sim.clock_jump = 0;
            s.sim.workers = s.sim.workers.min(4);
            if faults {
                io_faults(r, &mut s.sim);
                s.sim.io_trunc = 0;
            }
        }
        "C17" if r.chance(1, 6) => {
            // a few small calls made hundreds of times over: every pass returns what the first one did
            let mut ops: Vec<Op> = vec![];
            for _ in 0..r.range(1, 3) {
                match r.below(6) {
                    0..=2 => {
                        let l = *r.pick(&ALL);
                        let mut d = gen_data(r, l, false);
                        small(&mut d, 8, 3);
                        d.k = d.k.min(3);
                        let mt = r.chance(3, 4);
                        let mut t = gen_train(r, s.data.len(), &d, l, mt);
                        t.iters = t.iters.min(2);
                        s.data.push(d);
                        if l != Learner::Sorted && r.chance(1, 4) {
                            t.fault = Some(TaskFault { leaf: false, at: r.range(1, 3) as u32, kind: FaultKind::Panic });
                        } else {
                            maybe_spoil(r, &mut s, &mut t, 1, 6);
                        }
                        if s.data[t.data].bad == 0 && r.chance(1, 3) {
                            t.then = Some((r.next(), r.range(1, 3) as usize));
                        }
                        ops.push(Op::Train(t));
                    }
                    3 | 4 => {
                        let l = *r.pick(&ALL);
                        if s.setup.is_empty() {
                            model_for(r, &mut s, l, 12);
                        }
                        ops.push(Op::Use { model: 0, qseed: r.next(), n: r.range(1, 6) as usize });
                    }
                    _ => {
                        let mut o = load_ops(r, &mut s, 1, true);
                        o.retain(|o| matches!(o, Op::Load { .. }));
                        ops.append(&mut o);
                    }
                }
            }
            tiny(&mut s, &mut ops);
            s.clients.push(Client { nested: r.chance(1, 8), ops });
            s.passes = *r.pick(&[35u32, 70, 140, 270, 530]);
            s.sim = gen_sim(r, true);
            s.sim.mem_mean = 0;
            s.sim.workers = s.sim.workers.min(4);
        }
        "C17" => {
            // one caller with a past: many calls of every kind, alike in shape, some of them failing
            let nm = r.range(1, 3);
            let wide = if r.chance(1, 5) { r.range(9, 14) as usize } else { 0 };
            let then = if r.chance(1, 2) { Some((r.next(), r.range(1, 5) as usize)) } else { None };
            for _ in 0..nm {
                let l = *r.pick(&ALL);
                model_for(r, &mut s, l, 40);
            }
            if wide > 0 {
                for d in s.data.iter_mut() {
                    many_ties(r, d, wide);
                }
            }
            let mut ops: Vec<Op> = vec![];
            for _ in 0..r.range(6, 18) {
                if ops.len() > 40 {
                    break;
                }
                match r.below(10) {
                    0..=5 => {
                        let old: Vec<Train> = ops.iter().chain(s.setup.iter()).filter_map(|o| if let Op::Train(t) = o { Some(t.clone()) } else { None }).filter(|t| s.data[t.data].bad == 0 && t.misdeclared == 0).collect();
                        let o = r.pick(&old).clone();
                        let mut t = match r.below(6) {
                            0 => o, // the very same call again
                            1 => Train { levels: r.range(0, 6) as u32, ..o },
                            2 => Train { iters: if o.learner.boosted() { r.range(1, 6) as u32 } else { 1 }, lr: *r.pick(&[100u32, 300, 500, 1000]), ..o },
                            3 => {
                                // same shape, other content
                                let mut d = s.data[o.data].clone();
                                d.seed = r.next();
                                s.data.push(d);
                                Train { data: s.data.len() - 1, ..o }
                            }
                            4 => {
                                // another learner on the same data
                                let c: Vec<Learner> = ALL.iter().cloned().filter(|l| compatible(&s.data[o.data], *l)).collect();
                                let l = *r.pick(&c);
                                Train { learner: l, iters: if l.boosted() { r.range(1, 4) as u32 } else { 1 }, levels: o.levels.min(6), mt: r.chance(1, 2), ..o }
                            }
                            _ => {
                                let l = *r.pick(&ALL);
                                let mut d = gen_data(r, l, false);
                                small(&mut d, 40, 6);
                                if wide > 0 {
                                    many_ties(r, &mut d, wide);
                                }
                                let mt = r.chance(1, 2);
                                let mut t = gen_train(r, s.data.len(), &d, l, mt);
                                t.iters = t.iters.min(6);
                                s.data.push(d);
                                t
                            }
                        };
                        t.fault = None;
                        t.then = None;
                        if t.learner != Learner::Sorted && r.chance(1, 6) {
                            t.fault = Some(TaskFault { leaf: false, at: r.range(1, 8) as u32, kind: FaultKind::Panic });
                        }
                        if r.chance(5, 6) {
                            t.then = then;
                        }
                        maybe_spoil(r, &mut s, &mut t, 1, 6);
                        if s.data[t.data].bad > 0 {
                            t.then = None;
                        }
                        ops.push(Op::Train(t));
                    }
                    6 | 7 => ops.push(Op::Use { model: r.below(nm) as usize, qseed: if r.chance(1, 3) { 7 } else { r.next() }, n: r.range(1, 20) as usize }),
                    8 => {
                        let di = r.below(s.data.len() as u64) as usize;
                        if s.data[di].bad == 0 {
                            ops.push(Op::Part { data: di, col: r.next() as usize, pick: r.next(), sorted: r.chance(1, 2) });
                        }
                    }
                    _ => {
                        let mut o = load_ops(r, &mut s, 1, true);
                        ops.append(&mut o);
                    }
                }
            }
            ops.truncate(50);
            s.clients.push(Client { nested: r.chance(1, 4), ops });
            for f in s.files.iter_mut() {
                f.rows = f.rows.min(200);
                f.cols = f.cols.min(60);
            }
            s.sim = gen_sim(r, true);
        }
        _ => panic!("unknown property {}", prop),
    }
    s
}

pub fn compatible(d: &DataSpec, l: Learner) -> bool {
    match l {
        Learner::McBoost | Learner::AmgBoost => (d.lk == L_ONEHOT_RULE || d.lk == L_ONEHOT_NOISY) && d.k >= 2,
        Learner::GradMc | Learner::Amg => d.lk == L_RESID,
        _ => true,
    }
}

// ------------------------------------------------------------------ files

/// The bytes of a generated CSV file.
/// Flavours: 1 CRLF, 2 blank lines and integral floats, 3 no final newline, 4 quoted header with
/// commas, 5 quoted cells, 6 blanks around cells, 7 unusual numerals, 8 odd header names,
/// 9 byte-order mark, 10 CR line ends, 11 very long numerals, 12 header with line breaks and quotes.
/// Corruptions of one cell or row (1-12) or of the bytes (13-18): see below.
pub fn content(f: &FileSpec) -> Vec<u8> {
    let mut r = Rng::new(f.seed);
    let nl = match f.flavor {
        1 => "\r\n",
        10 => "\r",
        _ => "\n",
    };
    let mut s = String::new();
    if f.flavor == 9 {
        s.push('\u{feff}');
    }
    for c in 0..f.cols {
        if c > 0 {
            s.push(',');
        }
        match f.flavor {
            4 => s.push_str(&format!("\"col, {}\"", c)),
            8 => s.push_str(["", "x", "x", "größe", " padded ", "'q'", "#tag", "1.5"][(c + f.seed as usize % 7) % 8]),
            12 => s.push_str(&format!("\"col \"\"{}\"\"\nsecond line\"", c)),
            _ => s.push_str(&format!("c{}_{}", c, f.seed % 97)),
        }
    }
    s.push_str(nl);
    let bad_row = if f.rows > 0 { r.below(f.rows as u64) as usize } else { 0 };
    let bad_col = r.below(f.cols as u64) as usize;
    for i in 0..f.rows {
        for c in 0..f.cols {
            let last = c + 1 == f.cols;
            let mut cell = if last && f.classes > 0 {
                let v = r.below(f.classes as u64);
                if f.flavor == 2 {
                    format!("{}.0", v)
                } else if f.flavor == 11 {
                    format!("{:03}", v)
                } else {
                    format!("{}", v)
                }
            } else {
                match r.below(10) {
                    0 => format!("{}", r.below(10)),
                    1 => format!("-{}", r.below(1000)),
                    2 => format!("{:e}", (r.unit() - 0.5) * 1e9),
                    3 => format!("{}", r.unit()),
                    4 => format!("{:.3}", r.unit() * 100.0 - 50.0),
                    5 => "0".to_string(),
                    6 => format!("{}", (r.below(1 << 52) as f64) * 0.1),
                    7 if f.flavor == 11 => format!("{}.{:019}{:019}", r.below(1 << 60), r.below(1 << 60), r.below(1 << 60)),
                    8 if f.flavor == 11 => format!("{}{:030}E-{}", r.below(1000), r.below(1 << 60), r.range(0, 60)),
                    8 => format!("{:E}", (r.unit() - 0.5) * 1e-7),
                    9 if f.flavor == 7 => r.pick(&["+5", ".5", "5.", "-.25", "inf", "-inf", "nan", "1e400", "1e-400", "-0", "+1e2", "00012"]).to_string(),
                    _ => format!("{}", r.below(100_000)),
                }
            };
            if f.flavor == 6 && r.chance(1, 30) {
                cell = match r.below(3) {
                    0 => format!(" {}", cell),
                    1 => format!("{} ", cell),
                    _ => format!("\t{} ", cell),
                };
            }
            let mut skip = false;
            if i == bad_row {
                match f.corrupt {
                    1 if c == bad_col => cell = "x7".into(),
                    2 if c == bad_col => cell = String::new(),
                    3 if last => cell.push_str(",9"),
                    4 if last && f.classes > 0 => cell = ["-1", "0.5", "nan", "1e9", "-0.7", "4294967296", "256"][r.below(7) as usize].into(),
                    4 if c == bad_col => cell = "1.2.3".into(),
                    5 if c == bad_col => cell.push('\u{fffd}'),
                    6 if last => skip = true,
                    7 if last => cell.push(','),
                    8 if c == 0 => cell.insert(0, '#'),
                    9 if c == bad_col => cell = format!("'{}'", cell),
                    10 if c == bad_col => cell = format!("\"{}", cell),
                    11 if c == bad_col => cell = r.pick(&["1;2", "0x10", "1_000", "1e", "--5", "1 2", "5%", "NA", "null", "true", "-", "?"]).to_string(),
                    12 if c == bad_col => cell = format!("{}\u{0}", cell),
                    _ => {}
                }
            }
            if skip {
                continue;
            }
            if c > 0 {
                s.push(',');
            }
            if f.flavor == 5 && r.chance(1, 4) {
                cell = format!("\"{}\"", cell);
            }
            s.push_str(&cell);
        }
        if i + 1 < f.rows || f.flavor != 3 {
            s.push_str(nl);
        }
        if f.flavor == 2 && r.chance(1, 10) {
            s.push_str(nl); // blank line
        }
    }
    let mut b = s.into_bytes();
    let body = b.iter().position(|c| *c == b'\n' || *c == b'\r').map_or(0, |p| p + 1);
    match f.corrupt {
        13 => b.clear(),
        14 => b = nl.as_bytes().to_vec(),
        15 if body < b.len() => {
            let p = body + r.below((b.len() - body) as u64) as usize;
            b[p] = 0xff;
        }
        16 => {
            let p = r.below(body.max(1) as u64) as usize;
            b.insert(p, 0xc3);
        }
        // as a crash leaves files: the end never reached the disk, or only its length did
        17 if body < b.len() => {
            let p = body + r.below((b.len() - body) as u64) as usize;
            b[p..].iter_mut().for_each(|c| *c = 0);
        }
        18 if body < b.len() => b.truncate(body + r.below((b.len() - body) as u64) as usize),
        _ => {}
    }
    b
}

pub fn file_name(i: usize, program: bool) -> String {
    if program {
        ["features_train_mt", "labels_train_mt", "features_test_mt", "labels_test_mt"]
            .iter()
            .map(|n| format!("common/data-files/multi-target/{}.csv", n))
            .nth(i)
            .unwrap()
    } else {
        format!("f{}.csv", i)
    }
}
