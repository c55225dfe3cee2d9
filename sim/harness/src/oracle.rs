//! Reference models and invariants. Nothing here calls the code under test: the datasets are
//! regenerated from their specs, models arrive as canonical dumps.
use crate::model::*;
use crate::scen::*;
use common::datasets::MultiTargetDataSet;

const EPS: f64 = f64::EPSILON;
type Res = Result<(), String>;

// ------------------------------------------------------------------ C03: best split, stop rule, depth cap
struct Best {
    gain: f64,
    col: usize,
    val: f64,
}

/// Exact-as-possible impurity bookkeeping on centred labels.
struct NodeStat {
    n: f64,
    total: f64,            // sum over targets of the population variance
    centred: Vec<Vec<f64>>, // per row (position in idx), per target
    tol: f64,
}
fn node_stat(idx: &[usize], y: &[Vec<f64>], unc: f64) -> NodeStat {
    let n = idx.len() as f64;
    let k = y[idx[0]].len();
    let mut mean = vec![0.0; k];
    let mut meansq = 0.0;
    let mut meanabs = 0.0;
    for &i in idx {
        for j in 0..k {
            mean[j] += y[i][j];
            meansq += y[i][j] * y[i][j];
            meanabs += y[i][j].abs();
        }
    }
    for m in mean.iter_mut() {
        *m /= n;
    }
    meansq /= n;
    meanabs /= n;
    let centred: Vec<Vec<f64>> = idx.iter().map(|&i| (0..k).map(|j| y[i][j] - mean[j]).collect()).collect();
    let total = centred.iter().map(|c| c.iter().map(|x| x * x).sum::<f64>()).sum::<f64>() / n;
    // rounding of the textbook (sum of squares minus n times squared mean) formulas, and the
    // effect of not knowing the labels better than unc
    let tol = 8.0 * (n + 8.0) * (n + 8.0).sqrt() * EPS * meansq + 8.0 * (meanabs * unc + k as f64 * unc * unc) + 1e-300;
    NodeStat { n, total, centred, tol }
}
fn order(idx: &[usize], col: &[f64]) -> Vec<usize> {
    // positions within idx, by (value, row)
    let mut o: Vec<usize> = (0..idx.len()).collect();
    o.sort_by(|&a, &b| col[idx[a]].partial_cmp(&col[idx[b]]).unwrap().then(idx[a].cmp(&idx[b])));
    o
}
fn split_gain(st: &NodeStat, left: &[f64], left_sq: f64, total_sq: f64, nl: f64) -> f64 {
    let nr = st.n - nl;
    let mut l = left_sq;
    let mut r = total_sq - left_sq;
    for s in left {
        l -= s * s / nl;
        r -= s * s / nr; // the centred sums of the two sides cancel
    }
    st.total - (l + r) / st.n
}
fn best_of_col(st: &NodeStat, idx: &[usize], col: &[f64]) -> Option<(f64, f64)> {
    let o = order(idx, col);
    let k = st.centred[0].len();
    let total_sq = st.total * st.n;
    let mut left = vec![0.0; k];
    let mut lsq = 0.0;
    let mut best: Option<(f64, f64)> = None;
    for p in 0..o.len() {
        if p > 0 && col[idx[o[p]]] != col[idx[o[p - 1]]] {
            let g = split_gain(st, &left, lsq, total_sq, p as f64);
            if best.map_or(true, |b| g > b.0) {
                best = Some((g, col[idx[o[p]]]));
            }
        }
        for j in 0..k {
            let c = st.centred[o[p]][j];
            left[j] += c;
            lsq += c * c;
        }
    }
    best
}
fn best_split(st: &NodeStat, idx: &[usize], cols: &[Vec<f64>]) -> Option<Best> {
    let mut b: Option<Best> = None;
    for (c, col) in cols.iter().enumerate() {
        if let Some((g, v)) = best_of_col(st, idx, col) {
            if b.as_ref().map_or(true, |x| g > x.gain) {
                b = Some(Best { gain: g, col: c, val: v });
            }
        }
    }
    b
}
/// Same order and same ties on these rows: every candidate split is literally the same partition.
fn isomorphic(idx: &[usize], a: &[f64], b: &[f64]) -> bool {
    let (oa, ob) = (order(idx, a), order(idx, b));
    if oa != ob {
        return false;
    }
    (1..oa.len()).all(|p| {
        let (i, j) = (idx[oa[p]], idx[oa[p - 1]]);
        (a[i] == a[j]) == (b[i] == b[j])
    })
}

#[derive(Default)]
pub struct SplitStats {
    pub splits: u64,
    pub leaves: u64,
}

pub fn check_splits(t: &TreeD, d: &MultiTargetDataSet, y: &[Vec<f64>], unc: f64, max_levels: u32, st: &mut SplitStats) -> Res {
    let idx: Vec<usize> = (0..y.len()).collect();
    rec_splits(t, 0, &idx, d, y, unc, 0, max_levels, st)
}
#[allow(clippy::too_many_arguments)]
fn rec_splits(t: &TreeD, node: usize, idx: &[usize], d: &MultiTargetDataSet, y: &[Vec<f64>], unc: f64, level: u32, max: u32, st: &mut SplitStats) -> Res {
    if idx.is_empty() {
        return Err(format!("node {} at level {} receives no training rows", node, level));
    }
    let s = node_stat(idx, y, unc);
    let best = best_split(&s, idx, &d.feature_columns);
    match &t[node] {
        NodeD::Broken => Err(format!("node {} is partially built", node)),
        NodeD::Leaf(_) => {
            st.leaves += 1;
            if level > max {
                return Err(format!("leaf at level {} beyond the depth limit {}", level, max));
            }
            if level < max {
                if let Some(b) = best {
                    if b.gain > 2.0 * s.tol {
                        return Err(format!(
                            "stopped at level {} of {} with {} rows although splitting on feature {} >= {:?} reduces the variance by {:e}",
                            level, max, idx.len(), b.col, b.val, b.gain
                        ));
                    }
                }
            }
            Ok(())
        }
        NodeD::Split { col, val, t: a, f: b } => {
            st.splits += 1;
            if level >= max {
                return Err(format!("split at level {} although the depth limit is {}", level, max));
            }
            let c = *col as usize;
            if c >= d.feature_columns.len() {
                return Err(format!("split on feature {} of {}", c, d.feature_columns.len()));
            }
            let fc = &d.feature_columns[c];
            let (mut ti, mut fi) = (vec![], vec![]);
            for &i in idx {
                if fc[i] >= *val {
                    ti.push(i)
                } else {
                    fi.push(i)
                }
            }
            if ti.is_empty() || fi.is_empty() {
                return Err(format!("split on feature {} >= {:?} leaves one side of {} rows empty", c, val, idx.len()));
            }
            if !ti.iter().any(|&i| fc[i] == *val) {
                return Err(format!("threshold {:?} of feature {} is not a value of the node's rows", val, c));
            }
            let k = y[0].len();
            let mut left = vec![0.0; k];
            let mut lsq = 0.0;
            for (p, &i) in idx.iter().enumerate() {
                if fc[i] < *val {
                    for j in 0..k {
                        left[j] += s.centred[p][j];
                        lsq += s.centred[p][j] * s.centred[p][j];
                    }
                }
            }
            let g = split_gain(&s, &left, lsq, s.total * s.n, fi.len() as f64);
            let b0 = best.unwrap();
            if g < b0.gain - 2.0 * s.tol {
                return Err(format!(
                    "level {}, {} rows: chose feature {} >= {:?} reducing the variance by {:e}, but feature {} >= {:?} reduces it by {:e}",
                    level, idx.len(), c, val, g, b0.col, b0.val, b0.gain
                ));
            }
            if g < -2.0 * s.tol {
                return Err(format!("split on feature {} >= {:?} increases the variance by {:e}", c, val, -g));
            }
            for j in 0..c {
                if isomorphic(idx, &d.feature_columns[j], fc) {
                    return Err(format!(
                        "level {}, {} rows: chose feature {} although feature {} orders the rows identically and comes first",
                        level, idx.len(), c, j
                    ));
                }
            }
            rec_splits(t, *a, &ti, d, y, unc, level + 1, max, st)?;
            rec_splits(t, *b, &fi, d, y, unc, level + 1, max, st)
        }
    }
}

// ------------------------------------------------------------------ C06: the pre-sorted learner against the standard one
/// Same questions in the same places, same label rows in each leaf. Labels that are small
/// integers leave no room; for others a different question is accepted only where rounding
/// decides between two that reduce the variance equally, and the comparison ends there.
pub fn same_as_standard(a: &TreeD, b: &TreeD, d: &MultiTargetDataSet) -> Res {
    let exact = d.labels.iter().flatten().all(|x| x.fract() == 0.0 && x.abs() <= 64.0);
    let idx: Vec<usize> = (0..d.labels.len()).collect();
    rec_same(a, 0, b, 0, &idx, d, exact, "root")
}
fn gain_of(idx: &[usize], d: &MultiTargetDataSet, c: usize, v: f64) -> Option<(f64, f64)> {
    let s = node_stat(idx, &d.labels, 0.0);
    let fc = d.feature_columns.get(c)?;
    let mut left = vec![0.0; d.labels[0].len()];
    let (mut sq, mut n) = (0.0, 0.0);
    for (p, &i) in idx.iter().enumerate() {
        if fc[i] < v {
            n += 1.0;
            for j in 0..left.len() {
                left[j] += s.centred[p][j];
                sq += s.centred[p][j] * s.centred[p][j];
            }
        }
    }
    if n == 0.0 || n == s.n {
        return Some((0.0, s.tol));
    }
    Some((split_gain(&s, &left, sq, s.total * s.n, n), s.tol))
}
#[allow(clippy::too_many_arguments)]
fn rec_same(a: &TreeD, i: usize, b: &TreeD, j: usize, idx: &[usize], d: &MultiTargetDataSet, exact: bool, at: &str) -> Res {
    let differ = || Err(format!("at {}: pre-sorted learner {}, standard learner {}", at, brief(&a[i]), brief(&b[j])));
    match (&a[i], &b[j]) {
        (NodeD::Split { col: c, val: v, t: x, f: y }, NodeD::Split { col: c2, val: v2, t: x2, f: y2 }) => {
            let (c, c2) = (*c as usize, *c2 as usize);
            if c != c2 || v != v2 {
                if exact || idx.is_empty() || c >= d.feature_columns.len() || c2 >= d.feature_columns.len() {
                    return differ();
                }
                let ((g, tol), (g2, _)) = (gain_of(idx, d, c, *v).unwrap(), gain_of(idx, d, c2, *v2).unwrap());
                if (g - g2).abs() <= 2.0 * tol && !(c != c2 && isomorphic(idx, &d.feature_columns[c], &d.feature_columns[c2])) {
                    return Ok(());
                }
                return differ();
            }
            let (ti, fi): (Vec<usize>, Vec<usize>) = idx.iter().partition(|&&r| d.feature_columns[c][r] >= *v);
            let short = if at.len() > 200 { "deep".to_string() } else { at.to_string() };
            rec_same(a, *x, b, *x2, &ti, d, exact, &format!("{}/true", short))?;
            rec_same(a, *y, b, *y2, &fi, d, exact, &format!("{}/false", short))
        }
        (NodeD::Leaf(LeafD::Sorted { labels: l, .. }), NodeD::Leaf(LeafD::Data { labels: m, .. })) => {
            let k = |v: &Vec<Vec<f64>>| {
                let mut x: Vec<Vec<u64>> = v.iter().map(|r| r.iter().map(|f| f.to_bits()).collect()).collect();
                x.sort();
                x
            };
            if k(l) != k(m) {
                return differ();
            }
            Ok(())
        }
        (NodeD::Split { col, val, .. }, NodeD::Leaf(_)) | (NodeD::Leaf(_), NodeD::Split { col, val, .. }) if !exact && !idx.is_empty() => {
            match gain_of(idx, d, *col as usize, *val) {
                Some((g, tol)) if g.abs() <= 2.0 * tol => Ok(()),
                _ => differ(),
            }
        }
        _ => differ(),
    }
}

// ------------------------------------------------------------------ C04: conservation and routing
type Key = Vec<u64>;
fn key(row: &[f64], label: &[f64]) -> Key {
    row.iter().chain([f64::NAN].iter()).chain(label.iter()).map(|x| x.to_bits()).collect()
}
/// A leaf (or partition side) must hold exactly the given rows of d, nothing mixed up.
pub fn check_side(l: &LeafD, idx: &[usize], d: &MultiTargetDataSet) -> Res {
    match l {
        LeafD::Data { rows, cols, labels } => {
            if rows.len() != labels.len() {
                return Err(format!("{} rows but {} labels", rows.len(), labels.len()));
            }
            let mut a: Vec<Key> = rows.iter().zip(labels).map(|(r, l)| key(r, l)).collect();
            let mut b: Vec<Key> = idx.iter().map(|&i| key(&d.feature_rows[i], &d.labels[i])).collect();
            a.sort();
            b.sort();
            if a != b {
                return Err(format!("holds {} rows, expected {} (or a row lost its label)", a.len(), b.len()));
            }
            // with no rows there is no telling how many columns there are
            if cols.len() != d.feature_columns.len() && !(rows.is_empty() && cols.is_empty()) {
                return Err(format!("{} feature columns, expected {}", cols.len(), d.feature_columns.len()));
            }
            for (c, col) in cols.iter().enumerate() {
                if col.len() != rows.len() || (0..col.len()).any(|i| col[i].to_bits() != rows[i][c].to_bits()) {
                    return Err(format!("feature column {} disagrees with the rows", c));
                }
            }
            Ok(())
        }
        LeafD::Sorted { cols, labels } => {
            if cols.len() != d.feature_columns.len() {
                return Err(format!("{} feature columns, expected {}", cols.len(), d.feature_columns.len()));
            }
            for (c, col) in cols.iter().enumerate() {
                let mut ids: Vec<usize> = col.iter().map(|p| p.1 as usize).collect();
                for (i, (x, id)) in col.iter().enumerate() {
                    let id = *id as usize;
                    if id >= d.labels.len() || d.feature_columns[c][id].to_bits() != x.to_bits() {
                        return Err(format!("feature column {} holds value {:?} for row {}", c, x, id));
                    }
                    if i > 0 && !(col[i - 1].0 <= *x) {
                        return Err(format!("feature column {} is not in ascending order", c));
                    }
                }
                ids.sort();
                if ids != idx {
                    return Err(format!("feature column {} holds {} rows, expected {} ({:?} vs {:?})", c, ids.len(), idx.len(), short(&ids), short(idx)));
                }
            }
            let mut a: Vec<Key> = labels.iter().map(|l| key(&[], l)).collect();
            let mut b: Vec<Key> = idx.iter().map(|&i| key(&[], &d.labels[i])).collect();
            a.sort();
            b.sort();
            if a != b {
                return Err(format!("holds {} labels, expected {} (or other rows' labels)", a.len(), b.len()));
            }
            Ok(())
        }
        _ => Err("leaf without rows".into()),
    }
}
fn short(v: &[usize]) -> Vec<usize> {
    v.iter().take(12).cloned().collect()
}
pub fn check_conservation(t: &TreeD, d: &MultiTargetDataSet) -> Res {
    let mut at: Vec<Vec<usize>> = vec![vec![]; t.len()];
    for i in 0..d.feature_rows.len() {
        let l = route(t, &d.feature_rows[i]);
        at[l].push(i);
    }
    for (j, n) in t.iter().enumerate() {
        if let NodeD::Leaf(l) = n {
            check_side(l, &at[j], d).map_err(|e| format!("leaf {}: {}", j, e))?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C05: leaf formulas and the additive recurrence
fn mc_leaf_terms(idx: &[usize], y: &[Vec<f64>], j: usize, k: f64) -> (f64, f64) {
    let mut s = 0.0;
    let mut d = 0.0;
    for &i in idx {
        let r = y[i][j];
        s += r;
        d += r.abs() * (1.0 - r.abs());
    }
    ((k - 1.0) / k * s, d)
}
/// v is an acceptable multi-class leaf output for target j
fn mc_leaf_ok(v: f64, idx: &[usize], y: &[Vec<f64>], j: usize, unc: f64) -> Result<bool, String> {
    if !v.is_finite() {
        return Err(format!("leaf output {:?}", v));
    }
    let k = y[0].len() as f64;
    let (s, d) = mc_leaf_terms(idx, y, j, k);
    let n = idx.len() as f64;
    let du = n * (3.0 * unc + 4.0 * EPS) + 4.0 * n * EPS * d;
    let su = n * (unc + 2.0 * n * EPS);
    if d <= 2.0 * du {
        return Ok(true); // the denominator is indistinguishable from zero: only finiteness is required
    }
    Ok((v * d - s).abs() <= v.abs() * du + su + 1e-9 * s.abs() + 1e-300)
}
fn sq_leaf_ok(v: f64, idx: &[usize], y: &[Vec<f64>], j: usize, unc: f64) -> bool {
    let n = idx.len() as f64;
    let s: f64 = idx.iter().map(|&i| y[i][j]).sum();
    let a: f64 = idx.iter().map(|&i| y[i][j].abs()).sum();
    (v - s / n).abs() <= 2.0 * unc + (4.0 * n + 16.0) * EPS * a / n + 1e-300
}

pub fn check_leaf_outputs(t: &TreeD, d: &MultiTargetDataSet, y: &[Vec<f64>], unc: f64, mc: bool) -> Res {
    let mut at: Vec<Vec<usize>> = vec![vec![]; t.len()];
    for i in 0..d.feature_rows.len() {
        at[route(t, &d.feature_rows[i])].push(i);
    }
    let k = y[0].len();
    for (n, node) in t.iter().enumerate() {
        let idx = &at[n];
        match node {
            NodeD::Leaf(LeafD::Out(v)) => {
                if v.len() != k {
                    return Err(format!("leaf {} has {} outputs for {} targets", n, v.len(), k));
                }
                if idx.is_empty() {
                    return Err(format!("leaf {} receives no training rows", n));
                }
                for j in 0..k {
                    let ok = if mc { mc_leaf_ok(v[j], idx, y, j, unc).map_err(|e| format!("leaf {} target {}: {}", n, j, e))? } else { v[j].is_finite() && sq_leaf_ok(v[j], idx, y, j, unc) };
                    if !ok {
                        let (s, dd) = mc_leaf_terms(idx, y, j, k as f64);
                        let mean = idx.iter().map(|&i| y[i][j]).sum::<f64>() / idx.len() as f64;
                        return Err(format!(
                            "leaf {} ({} rows) target {}: output {:?}, expected {:?}",
                            n, idx.len(), j, v[j], if mc { s / dd } else { mean }
                        ));
                    }
                }
            }
            NodeD::Leaf(LeafD::Amg { max, class }) => {
                let c = *class as usize;
                if c >= k || idx.is_empty() {
                    return Err(format!("leaf {}: class {} of {}, {} rows", n, c, k, idx.len()));
                }
                if !mc_leaf_ok(*max, idx, y, c, unc).map_err(|e| format!("leaf {}: {}", n, e))? {
                    let (s, dd) = mc_leaf_terms(idx, y, c, k as f64);
                    return Err(format!("leaf {}: value {:?} for class {}, expected {:?}", n, max, c, s / dd));
                }
                // no other class may be clearly larger
                for j in 0..k {
                    let (s, dd) = mc_leaf_terms(idx, y, j, k as f64);
                    let nn = idx.len() as f64;
                    let du = nn * (3.0 * unc + 4.0 * EPS) + 4.0 * nn * EPS * dd;
                    let su = nn * (unc + 2.0 * nn * EPS) + 1e-9 * s.abs();
                    if dd <= 2.0 * du {
                        continue;
                    }
                    let lo = if s - su > 0.0 { (s - su) / (dd + du) } else { (s - su) / (dd - du) };
                    let slack = 1e-9 * max.abs() + 1e-300;
                    if lo > *max + slack {
                        return Err(format!("leaf {}: kept class {} (value {:?}) although class {} has value about {:?}", n, c, max, j, s / dd));
                    }
                }
            }
            NodeD::Leaf(_) => return Err(format!("leaf {} has no output", n)),
            NodeD::Broken => return Err(format!("node {} is partially built", n)),
            _ => {}
        }
    }
    Ok(())
}

/// What a leaf adds to the score of every target.
pub fn leaf_vector(n: &NodeD, k: usize) -> Vec<f64> {
    match n {
        NodeD::Leaf(LeafD::Out(v)) => v.clone(),
        NodeD::Leaf(LeafD::Amg { max, class }) => {
            let mut v = vec![-max / (k as f64 - 1.0); k];
            if (*class as usize) < k {
                v[*class as usize] = *max;
            }
            v
        }
        _ => vec![0.0; k],
    }
}
pub fn softmax(f: &[f64]) -> Vec<f64> {
    let m = f.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    let e: Vec<f64> = f.iter().map(|x| (x - m).exp()).collect();
    let s: f64 = e.iter().sum();
    e.iter().map(|x| x / s).collect()
}

/// Walk the boosting recurrence: for every round, the residuals the round had to fit.
/// Calls `f(round, tree, residuals, uncertainty)`.
pub fn replay_boost(m: &ModelD, learner: Learner, d: &MultiTargetDataSet, mut f: impl FnMut(usize, &TreeD, &[Vec<f64>], f64) -> Res) -> Res {
    let k = d.labels[0].len();
    let n = d.labels.len();
    let mut score: Vec<Vec<f64>> = vec![m.init.clone(); n];
    let ymax = d.labels.iter().flatten().fold(0.0f64, |a, b| a.max(b.abs()));
    // fmax bounds every intermediate value the additions passed through
    let mut fmax = m.init.iter().fold(0.0f64, |a, b| a.max(b.abs()));
    for (i, t) in m.trees.iter().enumerate() {
        let r: Vec<Vec<f64>> = (0..n)
            .map(|x| {
                let p = if learner.multi_class() { softmax(&score[x]) } else { score[x].clone() };
                (0..k).map(|j| d.labels[x][j] - p[j]).collect()
            })
            .collect();
        let unc = if learner.multi_class() { (16.0 + 4.0 * i as f64) * EPS * (1.0 + fmax) } else { (4.0 + 4.0 * i as f64) * EPS * (ymax + fmax) };
        if r.iter().flatten().any(|x| !x.is_finite()) {
            return Err(format!("round {}: a training row's score is no longer finite", i));
        }
        // beyond this the reference itself cannot tell the residuals
        f(i, t, &r, unc.min(if learner.multi_class() { 1.0 } else { f64::MAX }))?;
        for x in 0..n {
            let v = leaf_vector(&t[route(t, &d.feature_rows[x])], k);
            for j in 0..k {
                score[x][j] += m.lr * v[j];
                fmax = fmax.max(score[x][j].abs());
            }
        }
    }
    if score.iter().flatten().any(|x| !x.is_finite()) {
        return Err("a training row's score is not finite after the last round".into());
    }
    Ok(())
}

pub fn check_init(m: &ModelD, t: &Train, d: &MultiTargetDataSet) -> Res {
    let k = d.labels[0].len();
    if m.init.len() != k {
        return Err(format!("initial guess has {} targets, expected {}", m.init.len(), k));
    }
    for j in 0..k {
        let (want, tol) = if t.learner.multi_class() {
            (1.0 / k as f64, EPS)
        } else {
            let n = d.labels.len() as f64;
            let s: f64 = d.labels.iter().map(|l| l[j]).sum();
            let a: f64 = d.labels.iter().map(|l| l[j].abs()).sum();
            (s / n, (4.0 * n + 8.0) * EPS * a / n + 1e-300)
        };
        if !((m.init[j] - want).abs() <= tol) {
            return Err(format!("initial guess for target {} is {:?}, expected {:?}", j, m.init[j], want));
        }
    }
    if m.trees.len() != t.iters as usize {
        return Err(format!("{} trees after {} boosting rounds", m.trees.len(), t.iters));
    }
    if m.lr != t.lr as f64 / 1000.0 {
        return Err(format!("learning rate {:?}, configured {:?}", m.lr, t.lr as f64 / 1000.0));
    }
    Ok(())
}

// ------------------------------------------------------------------ C11: predictions and scores
pub fn raw_score(m: &ModelD, row: &[f64]) -> Vec<f64> {
    let k = m.init.len();
    let mut f = m.init.clone();
    for t in &m.trees {
        let v = leaf_vector(&t[route(t, row)], k);
        for j in 0..k {
            f[j] += m.lr * v[j];
        }
    }
    f
}
pub struct Used {
    pub preds: Vec<Vec<f64>>,
    pub batch: Vec<Vec<f64>>,
    pub score: f64,
    pub extra: f64,
    /// the scores asked for a second time
    pub again: (f64, f64),
}
pub fn dec_used(b: &[u8]) -> Used {
    let mut r = R(b);
    Used { preds: r.m(), batch: r.m(), score: r.d(), extra: r.d(), again: (r.d(), r.d()) }
}
fn close(a: f64, b: f64, rel: f64, abs: f64) -> bool {
    (a - b).abs() <= rel * a.abs().max(b.abs()) + abs
}
fn mse(p: &[Vec<f64>], y: &[Vec<f64>]) -> f64 {
    let mut t = 0.0;
    for i in 0..p.len() {
        t += p[i].iter().zip(&y[i]).map(|(a, b)| (a - b) * (a - b)).sum::<f64>() / p[i].len() as f64;
    }
    t / p.len() as f64
}
fn leaf_labels(n: &NodeD) -> &[Vec<f64>] {
    match n {
        NodeD::Leaf(LeafD::Data { labels, .. }) | NodeD::Leaf(LeafD::Sorted { labels, .. }) => labels,
        _ => &[],
    }
}
fn check_onehot(p: &[f64], scores: &[f64], tol: f64, what: &str) -> Res {
    let ones = p.iter().filter(|&&x| x == 1.0).count();
    let zeros = p.iter().filter(|&&x| x == 0.0).count();
    if p.len() != scores.len() || ones != 1 || zeros + 1 != p.len() {
        return Err(format!("{}: {:?} is not a one-hot vector over {} classes", what, p, scores.len()));
    }
    let c = p.iter().position(|&x| x == 1.0).unwrap();
    let mx = scores.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    if scores[c] < mx - tol {
        return Err(format!("{}: predicted class {} with scores {:?}", what, c, scores));
    }
    Ok(())
}
pub fn check_used(u: &Used, m: &ModelD, learner: Learner, q: &MultiTargetDataSet) -> Res {
    let n = q.feature_rows.len();
    let same = |a: f64, b: f64| a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan();
    if !same(u.score, u.again.0) || !same(u.extra, u.again.1) {
        return Err(format!("the same rows scored twice with the same model: first {:?} {:?}, then {:?} {:?}", u.score, u.extra, u.again.0, u.again.1));
    }
    match learner {
        Learner::Reg | Learner::Sorted => {
            let t = &m.trees[0];
            let mut means = vec![];
            let mut sc = 0.0f64;
            for i in 0..n {
                let ls = leaf_labels(&t[route(t, &q.feature_rows[i])]);
                if ls.is_empty() {
                    return Err("a leaf without labels".into());
                }
                let k = ls[0].len();
                means.push((0..k).map(|j| ls.iter().map(|l| l[j]).sum::<f64>() / ls.len() as f64).collect::<Vec<_>>());
                sc = sc.max(means[i].iter().chain(&q.labels[i]).fold(0.0f64, |a, b| a.max(b.abs())));
            }
            let want = mse(&means, &q.labels);
            if !close(u.extra, want, 1e-9, 1e-9 * sc * sc * 1e-3 + 1e-300) {
                return Err(format!("mean squared error {:?}, expected {:?}", u.extra, want));
            }
            if learner == Learner::Reg {
                if u.preds.len() != n {
                    return Err("missing predictions".into());
                }
                let mut correct = 0.0;
                for i in 0..n {
                    let ls = leaf_labels(&t[route(t, &q.feature_rows[i])]);
                    let cnt: Vec<f64> = (0..ls[0].len()).map(|j| ls.iter().filter(|l| l[j] == 1.0).count() as f64).collect();
                    check_onehot(&u.preds[i], &cnt, 0.0, &format!("row {}", i))?;
                    // equal counts: the first class
                    let c = u.preds[i].iter().position(|&x| x == 1.0).unwrap();
                    if (0..c).any(|j| cnt[j] >= cnt[c]) {
                        return Err(format!("row {}: predicted class {} with leaf counts {:?}", i, c, cnt));
                    }
                    if u.preds[i] == q.labels[i] {
                        correct += 1.0;
                    }
                }
                if u.score != correct / n as f64 {
                    return Err(format!("accuracy {:?}, but {} of {} predictions are correct", u.score, correct, n));
                }
            }
            Ok(())
        }
        Learner::Grad | Learner::GradMc | Learner::Amg => Ok(()),
        _ => {
            if u.preds.len() != n || u.batch.len() != n {
                return Err(format!("{} row predictions and {} batch predictions for {} rows", u.preds.len(), u.batch.len(), n));
            }
            let mut correct = 0.0;
            for i in 0..n {
                let same = u.preds[i].len() == u.batch[i].len() && u.preds[i].iter().zip(&u.batch[i]).all(|(a, b)| a.to_bits() == b.to_bits());
                if !same {
                    return Err(format!("row {}: batch prediction {:?}, row prediction {:?}", i, u.batch[i], u.preds[i]));
                }
                let f = raw_score(m, &q.feature_rows[i]);
                let mag = f.iter().chain(&m.init).fold(0.0f64, |a, b| a.max(b.abs()))
                    + m.trees.iter().map(|t| leaf_vector(&t[route(t, &q.feature_rows[i])], m.init.len()).iter().fold(0.0f64, |a, b| a.max(b.abs()))).sum::<f64>() * m.lr;
                let tol = (8.0 + 4.0 * m.trees.len() as f64) * EPS * mag + 1e-300;
                if learner.multi_class() {
                    check_onehot(&u.preds[i], &f, 2.0 * tol, &format!("row {}", i))?;
                    // exactly equal scores: the first class
                    let c = u.preds[i].iter().position(|&x| x == 1.0).unwrap();
                    let vs: Vec<Vec<f64>> = m.trees.iter().map(|t| leaf_vector(&t[route(t, &q.feature_rows[i])], f.len())).collect();
                    if (0..c).any(|j| m.init[j].to_bits() == m.init[c].to_bits() && vs.iter().all(|v| v[j].to_bits() == v[c].to_bits())) {
                        return Err(format!("row {}: predicted class {} although an earlier class has exactly the same score: {:?}", i, c, f));
                    }
                } else if u.preds[i].len() != f.len() || u.preds[i].iter().zip(&f).any(|(a, b)| !((a - b).abs() <= tol)) {
                    return Err(format!("row {}: predicted {:?}, the trees add up to {:?}", i, u.preds[i], f));
                }
                if u.preds[i] == q.labels[i] {
                    correct += 1.0;
                }
            }
            if learner.multi_class() {
                if u.score != correct / n as f64 {
                    return Err(format!("score {:?}, but {} of {} predictions are correct", u.score, correct, n));
                }
            } else {
                let want = mse(&u.preds, &q.labels);
                if !close(u.score, want, 1e-9, 1e-300) {
                    return Err(format!("score {:?}, mean squared error is {:?}", u.score, want));
                }
            }
            Ok(())
        }
    }
}

// ------------------------------------------------------------------ C12: printed tree
pub fn render(t: &TreeD, node: usize, pre: &str, names: &[String], out: &mut String) {
    match &t[node] {
        NodeD::Split { col, val, t: a, f: b } => {
            let q = format!("Is {} >= {}", names[*col as usize], val);
            out.push_str(&format!("{} {:?}\n", pre, q));
            out.push_str(&format!("{}--> True: \n", pre));
            render(t, *a, &format!("{}    ", pre), names, out);
            out.push_str(&format!("{}--> False: \n", pre));
            render(t, *b, &format!("{}    ", pre), names, out);
        }
        NodeD::Leaf(LeafD::Data { rows, cols, labels }) => {
            let d = Some(MultiTargetDataSet { feature_rows: rows.clone(), labels: labels.clone(), feature_columns: cols.clone() });
            out.push_str(&format!("{} Predict:{:?}\n", pre, d));
        }
        _ => out.push_str(&format!("{} ?\n", pre)),
    }
}

// ------------------------------------------------------------------ C07: CSV reference
/// Numbers in the file's records, or why it cannot be loaded. The flag says that some cell is an
/// unusual numeral (blanks around it, a sign or point nobody writes, infinity, not a number),
/// which a reader may also refuse.
pub fn parse_csv_odd(b: &[u8]) -> Result<(Vec<Vec<f64>>, bool), String> {
    let mut rd = csv::ReaderBuilder::new().has_headers(true).flexible(false).from_reader(b);
    let mut out = vec![];
    let mut odd = false;
    for rec in rd.records() {
        let rec = rec.map_err(|e| format!("{}", e))?;
        let mut row = vec![];
        for f in rec.iter() {
            let t = f.trim();
            let x = t.parse::<f64>().map_err(|e| format!("{:?}: {}", f, e))?;
            odd |= t.len() != f.len() || !x.is_finite() || t.starts_with(['+', '.']) || t.ends_with('.') || t.starts_with("-.");
            row.push(x);
        }
        out.push(row);
    }
    Ok((out, odd))
}
pub fn parse_csv(b: &[u8]) -> Result<Vec<Vec<f64>>, String> {
    parse_csv_odd(b).map(|x| x.0)
}
pub fn parse_header(b: &[u8]) -> Result<Vec<String>, String> {
    let mut rd = csv::ReaderBuilder::new().has_headers(true).flexible(false).from_reader(b);
    Ok(rd.headers().map_err(|e| format!("{}", e))?.iter().map(|s| s.to_string()).collect())
}
pub fn same_matrix(a: &[Vec<f64>], b: &[Vec<f64>]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.to_bits() == q.to_bits()))
}
pub fn transpose(rows: &[Vec<f64>], width: usize) -> Vec<Vec<f64>> {
    (0..width).map(|c| rows.iter().map(|r| r[c]).collect()).collect()
}
