//! Seeded data generation: every dataset is a pure function of a small spec, so a replay file
//! carries the spec (plus the row/column selection left after shrinking), never floats.
use common::datasets::MultiTargetDataSet;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Rng {
        let mut r = Rng(s ^ 0x5DEECE66D1234567);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.wrapping_mul(0xA24BAED4963EE407).rotate_left(17));
    r.next()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct DataSpec {
    pub seed: u64,
    pub n: usize,
    pub f: usize,
    pub k: usize,
    /// 0 mixed columns, 1 integers with ties, 2 reals, 3 few distinct values, 4 a ramp first,
    /// 5 extreme magnitudes, 6 orders repeated across columns
    pub fk: u8,
    /// see `LABELS`
    pub lk: u8,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub rows: Option<Vec<u32>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub cols: Option<Vec<u32>>,
    /// > 0: malformed, see `spoil`; a call on it usually fails, which must not concern any other
    #[serde(default)]
    pub bad: u8,
}

pub const L_ONEHOT_RULE: u8 = 0;
pub const L_ONEHOT_NOISY: u8 = 1;
pub const L_INT: u8 = 2;
pub const L_REAL: u8 = 3;
pub const L_OFFSET: u8 = 4;
pub const L_CONST: u8 = 5;
pub const L_XOR: u8 = 6;
pub const L_SPARSE: u8 = 7;
pub const L_RULE_REAL: u8 = 8;
pub const L_RESID: u8 = 9;
pub const L_TINY: u8 = 10;
pub const L_LARGE: u8 = 11;
pub const L_SCALES: u8 = 12;
pub const L_NEG: u8 = 13;
pub const L_GEOM: u8 = 14;
pub const L_RARE: u8 = 15;
pub const L_BUMPS: u8 = 16;

fn column(r: &mut Rng, n: usize, fk: u8, prev: &[Vec<f64>]) -> Vec<f64> {
    let kind = match fk {
        1 => *r.pick(&[0u8, 1, 1]),
        2 => 2,
        3 => *r.pick(&[0u8, 7, 0]),
        4 if prev.is_empty() => *r.pick(&[8u8, 8, 10, 18]),
        5 => *r.pick(&[3u8, 9, 12, 12, 13, 14, 15, 16, 17, 18]),
        6 => *r.pick(&[0u8, 1, 2, 5, 6, 6, 6]),
        7 => *r.pick(&[0u8, 1, 2, 5, 5, 5, 5, 5, 6]),
        _ => *r.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16]),
    };
    match kind {
        0 => {
            let m = r.range(2, 5);
            (0..n).map(|_| r.below(m) as f64).collect()
        }
        1 => {
            let m = r.range(6, 40);
            (0..n).map(|_| r.below(m) as f64 - 7.0).collect()
        }
        2 => (0..n).map(|_| r.unit() * 20.0 - 10.0).collect(),
        3 => (0..n).map(|_| 1.0 + r.below(4) as f64 * 1e-9).collect(), // differ only in the last digits
        4 => vec![r.range(0, 3) as f64; n],
        5 if !prev.is_empty() => r.pick(prev).clone(),
        6 if !prev.is_empty() => {
            // same order, other values
            let p = r.pick(prev);
            if p.iter().all(|x| x.abs() < 1e150 && (*x == 0.0 || x.abs() > 1e-290)) {
                p.iter().map(|x| x * 2.0).collect()
            } else {
                p.clone()
            }
        }
        7 => (0..n).map(|_| r.below(2) as f64).collect(),
        8 => (0..n).map(|i| i as f64).collect(),
        9 => (0..n).map(|_| (r.unit() - 0.5) * 1e9).collect(),
        10 => (0..n).map(|i| (n - i) as f64 / 3.0).collect(),
        11 => {
            // mostly one value
            (0..n).map(|_| if r.chance(1, 8) { r.below(3) as f64 } else { 5.5 }).collect()
        }
        12 => (0..n).map(|_| r.below(9) as f64 * 1e-17).collect(),
        13 => (0..n).map(|_| f64::from_bits(r.below(6))).collect(), // subnormal numbers
        14 => (0..n).map(|_| (r.unit() - 0.5) * 1e300).collect(),
        15 => (0..n).map(|_| *r.pick(&[-0.0f64, 0.0, 0.0, 1.0, -1.0])).collect(),
        16 => {
            let b = *r.pick(&[1.0f64, 1e6, 0.1, -3.0]);
            (0..n).map(|_| f64::from_bits(b.to_bits() + r.below(5))).collect() // neighbouring floats
        }
        17 => (0..n).map(|_| 9007199254740990.0 + r.below(4) as f64).collect(), // around 2^53
        18 => {
            // a shuffled geometric ramp
            let mut v: Vec<f64> = (0..n).map(|i| 1.25f64.powi(i as i32 % 900 - 450)).collect();
            for i in (1..n).rev() {
                v.swap(i, r.below(i as u64 + 1) as usize);
            }
            v
        }
        _ => (0..n).map(|_| r.below(3) as f64 * 0.5).collect(),
    }
}

pub fn make(s: &DataSpec) -> MultiTargetDataSet {
    let mut r = Rng::new(s.seed);
    let mut cols: Vec<Vec<f64>> = Vec::new();
    for _ in 0..s.f {
        let c = column(&mut r, s.n, s.fk, &cols);
        cols.push(c);
    }
    let k = s.k;
    let a = r.below(s.f as u64) as usize;
    let b = r.below(s.f as u64) as usize;
    let med = |c: &Vec<f64>| {
        let mut v = c.clone();
        v.sort_by(|x, y| x.partial_cmp(y).unwrap());
        v[v.len() / 2]
    };
    let (ma, mb) = (med(&cols[a]), med(&cols[b]));
    let mut rank0 = vec![0usize; s.n];
    if matches!(s.lk, L_GEOM | L_BUMPS) {
        let mut o: Vec<usize> = (0..s.n).collect();
        o.sort_by(|&x, &y| cols[0][x].partial_cmp(&cols[0][y]).unwrap().then(x.cmp(&y)));
        for (p, &i) in o.iter().enumerate() {
            rank0[i] = p;
        }
    }
    let labels: Vec<Vec<f64>> = (0..s.n)
        .map(|i| {
            let ga = cols[a][i] >= ma;
            let gb = cols[b][i] >= mb;
            let onehot = |c: usize| {
                let mut v = vec![0.0; k];
                v[c % k] = 1.0;
                v
            };
            match s.lk {
                L_ONEHOT_RULE => onehot(ga as usize + 2 * gb as usize),
                L_ONEHOT_NOISY => {
                    if r.chance(1, 3) {
                        onehot(r.below(k as u64) as usize)
                    } else {
                        onehot(ga as usize + gb as usize)
                    }
                }
                L_INT => (0..k).map(|_| r.below(5) as f64 - 1.0).collect(),
                L_REAL => (0..k).map(|_| r.unit() * 6.0 - 3.0).collect(),
                L_OFFSET => (0..k).map(|j| 1000.0 * (j + 1) as f64 + r.unit() * 50.0).collect(),
                L_CONST => (0..k).map(|j| 0.1 * (j + 1) as f64).collect(),
                L_XOR => (0..k).map(|j| if ga != gb { 1.0 + j as f64 } else { 0.0 }).collect(),
                L_SPARSE => (0..k).map(|_| if r.chance(1, 6) { 1.0 } else { 0.0 }).collect(),
                L_TINY => (0..k).map(|j| (r.unit() - 0.3) * 1e-9 + if ga { (j + 1) as f64 * 1e-9 } else { 0.0 }).collect(),
                L_LARGE => (0..k).map(|_| r.below(20_000) as f64 * 1000.0 - 5e6).collect(),
                L_SCALES => (0..k).map(|j| (r.unit() + gb as u8 as f64) * [1e-4, 1.0, 1e5, 30.0][j % 4]).collect(),
                L_NEG => (0..k).map(|j| -1.0 - r.below(6) as f64 - j as f64).collect(),
                L_GEOM => {
                    // growing with the rank in column 0: the best split peels rows off one by one
                    if k == 1 && s.seed % 4 == 0 {
                        let rank = rank0[i] as i32 % 330;
                        // each label 2.8 times the one before: no two rows share a side
                        return vec![2f64.powi(rank + rank / 2) * if rank % 2 == 1 { std::f64::consts::SQRT_2 } else { 1.0 }];
                    }
                    let rank = rank0[i] as i32 % 40;
                    (0..k).map(|j| (2.0 + j as f64).powi(rank.min(40 / (j as i32 + 1)))).collect()
                }
                L_RARE => (0..k).map(|j| if i % 37 == (s.seed % 37) as usize { 40.0 + j as f64 } else { 0.5 }).collect(),
                L_BUMPS => {
                    let q = rank0[i] * 7 / s.n.max(1);
                    (0..k).map(|j| if (q + j) % 2 == 0 { 1.0 } else { 0.0 }).collect()
                }
                L_RESID => {
                    let p: Vec<f64> = (0..k).map(|_| (r.unit() * 4.0 - 2.0).exp()).collect();
                    let t: f64 = p.iter().sum();
                    let o = onehot(ga as usize + 2 * gb as usize);
                    (0..k).map(|j| o[j] - p[j] / t).collect()
                }
                _ => (0..k)
                    .map(|j| (ga as u8 as f64) * 3.0 + (gb as u8 as f64) * (j as f64 + 1.0) + r.unit() * 0.5)
                    .collect(),
            }
        })
        .collect();
    let row_sel: Vec<usize> = match &s.rows {
        Some(v) => v.iter().map(|&x| x as usize).collect(),
        None => (0..s.n).collect(),
    };
    let col_sel: Vec<usize> = match &s.cols {
        Some(v) => v.iter().map(|&x| x as usize).collect(),
        None => (0..s.f).collect(),
    };
    let rows: Vec<Vec<f64>> = row_sel.iter().map(|&i| col_sel.iter().map(|&c| cols[c][i]).collect()).collect();
    let fc: Vec<Vec<f64>> = col_sel.iter().map(|&c| row_sel.iter().map(|&i| cols[c][i]).collect()).collect();
    let ls: Vec<Vec<f64>> = row_sel.iter().map(|&i| labels[i].clone()).collect();
    let mut d = MultiTargetDataSet { feature_rows: rows, labels: ls, feature_columns: fc };
    spoil(&mut d, s.bad, s.seed as usize);
    d
}

fn spoil(d: &mut MultiTargetDataSet, how: u8, at: usize) {
    let n = d.labels.len();
    match how {
        0 => {}
        // with a single row nothing is compared, and what comes of it is nobody's business
        1 if n < 2 => {}
        1 => {
            // a feature value that cannot be ordered
            let (i, c) = (at % n, (at >> 8) % d.feature_columns.len());
            d.feature_rows[i][c] = f64::NAN;
            d.feature_columns[c][i] = f64::NAN;
        }
        2 => {
            // the first label row (which tells the number of classes) shorter than the others
            d.labels[0].pop();
        }
        3 => d.labels[0].push(1.0),
        4 => {
            d.labels[at % n].pop();
        }
        5 => {
            d.feature_columns.pop();
        }
        6 => {
            d.feature_rows[at % n].pop();
        }
        7 => d.labels[n - 1].push(1e9),
        _ => {
            d.feature_rows.clear();
            d.labels.clear();
            d.feature_columns.clear();
        }
    }
}

/// Rows to ask predictions for: training rows, perturbed rows, and points around thresholds.
pub fn query_rows(d: &MultiTargetDataSet, seed: u64, n: usize) -> MultiTargetDataSet {
    let mut r = Rng::new(seed);
    let mut rows = Vec::new();
    let mut labels = Vec::new();
    let odd_labels = seed % 5 == 0;
    for _ in 0..n {
        let i = r.below(d.feature_rows.len() as u64) as usize;
        let mut row = d.feature_rows[i].clone();
        if r.chance(1, 2) {
            for c in 0..row.len() {
                match r.below(8) {
                    0 => row[c] += 0.25,
                    1 => row[c] -= 1e-9,
                    4 => row[c] = *r.pick(&[f64::INFINITY, f64::NEG_INFINITY, -0.0, 0.0, f64::MAX, f64::MIN_POSITIVE]),
                    5 => row[c] = f64::from_bits((row[c].to_bits() ^ 1).min(f64::MAX.to_bits() | (row[c].to_bits() & (1 << 63)))),
                    2 => row[c] = d.feature_columns[c][r.below(d.feature_rows.len() as u64) as usize],
                    3 => row[c] = (r.unit() - 0.5) * 1e6,
                    _ => {}
                }
            }
        }
        let j = if r.chance(3, 4) { i } else { r.below(d.labels.len() as u64) as usize };
        rows.push(row);
        let mut label = d.labels[j].clone();
        if odd_labels && r.chance(1, 2) {
            // a row of several classes or none, or a label between the usual ones
            match r.below(4) {
                0 => label.iter_mut().for_each(|x| *x = 1.0),
                1 => label.iter_mut().for_each(|x| *x = 0.0),
                2 => {
                    let c = r.below(label.len() as u64) as usize;
                    label[c] = 1.0;
                }
                _ => {
                    let c = r.below(label.len() as u64) as usize;
                    label[c] = 0.5;
                }
            }
        }
        labels.push(label);
    }
    let cols = (0..d.feature_columns.len()).map(|c| rows.iter().map(|x: &Vec<f64>| x[c]).collect()).collect();
    MultiTargetDataSet { feature_rows: rows, labels, feature_columns: cols }
}
