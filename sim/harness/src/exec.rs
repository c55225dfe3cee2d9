//! Runs one scenario inside the simulator (in a forked child) against the real library.
use crate::gen::*;
use crate::model::*;
use crate::rt::*;
use crate::scen::*;
use common::data_processor::{create_dataset_with_sorted_features, new_partition};
use common::data_reader;
use common::datasets::*;
use common::question::Question;
use common::results::BestSplitResult;
use multi_target_decision_tree::decision_trees::*;
use multi_target_decision_tree::grad_boost_decision_trees::grad_boost_leaf_output::*;
use multi_target_decision_tree::grad_boost_decision_trees::*;
use multi_target_decision_tree::leaf::*;
use multi_target_decision_tree::node::TreeNode;
use multi_target_decision_tree::split_finder::{SplitFinder, SplitMetric};
use multi_target_decision_tree::{data_partitioner, printer, scorer};
use multi_target_grad_boost::boosting_ensemble::boosting_types::*;
use multi_target_grad_boost::boosting_ensemble::GradientBoostedEnsemble;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

pub const MAX_CLIENTS: usize = 16;

// ------------------------------------------------------------------ failing tasks
// The split finder and the leaf calculator are plain function pointers in the public
// configuration: the seam through which a task is made to panic or stall.
struct FaultState {
    split_cnt: AtomicU32,
    leaf_cnt: AtomicU32,
    split_at: AtomicU32,
    leaf_at: AtomicU32,
    kind: AtomicU32,
    fired: AtomicU32,
}
#[allow(clippy::declare_interior_mutable_const)]
const FS0: FaultState = FaultState {
    split_cnt: AtomicU32::new(0),
    leaf_cnt: AtomicU32::new(0),
    split_at: AtomicU32::new(0),
    leaf_at: AtomicU32::new(0),
    kind: AtomicU32::new(0),
    fired: AtomicU32::new(0),
};
static FS: [FaultState; MAX_CLIENTS] = [FS0; MAX_CLIENTS];
struct Injected;

fn hit(c: usize, n: u32, at: u32) {
    if at != 0 && n == at {
        FS[c].fired.fetch_add(1, SeqCst);
        if FS[c].kind.load(SeqCst) == 0 {
            std::panic::panic_any(Injected);
        }
        std::thread::sleep(std::time::Duration::from_millis(50));
    }
}
fn real_finder() -> SplitFinder {
    SplitFinder::new(SplitMetric::Variance)
}
fn split_hook<const C: usize>(d: &MultiTargetDataSet, k: u32) -> BestSplitResult {
    let n = FS[C].split_cnt.fetch_add(1, SeqCst) + 1;
    hit(C, n, FS[C].split_at.load(SeqCst));
    (real_finder().find_best_split)(d, k)
}
fn leaf_hook_r<const C: usize>(d: &MultiTargetDataSet) -> Vec<f64> {
    let n = FS[C].leaf_cnt.fetch_add(1, SeqCst) + 1;
    hit(C, n, FS[C].leaf_at.load(SeqCst));
    (LeafOutputCalculator::new(LeafOutputType::Regression).calculate_leaf_output)(d)
}
fn leaf_hook_m<const C: usize>(d: &MultiTargetDataSet) -> Vec<f64> {
    let n = FS[C].leaf_cnt.fetch_add(1, SeqCst) + 1;
    hit(C, n, FS[C].leaf_at.load(SeqCst));
    (LeafOutputCalculator::new(LeafOutputType::MultiClassClassification).calculate_leaf_output)(d)
}
macro_rules! table {
    ($f:ident) => {
        [$f::<0>, $f::<1>, $f::<2>, $f::<3>, $f::<4>, $f::<5>, $f::<6>, $f::<7>, $f::<8>, $f::<9>, $f::<10>, $f::<11>, $f::<12>, $f::<13>, $f::<14>, $f::<15>]
    };
}
type SplitFn = fn(&MultiTargetDataSet, u32) -> BestSplitResult;
type LeafFn = fn(&MultiTargetDataSet) -> Vec<f64>;
static SPLIT_FNS: [SplitFn; MAX_CLIENTS] = table!(split_hook);
static LEAF_R: [LeafFn; MAX_CLIENTS] = table!(leaf_hook_r);
static LEAF_M: [LeafFn; MAX_CLIENTS] = table!(leaf_hook_m);

// ------------------------------------------------------------------ models
pub enum Model {
    Reg(Box<TreeNode<RegressionLeaf>>),
    Sorted(Box<TreeNode<RegressionLeafNewPartition<'static>>>),
    Grad(Box<TreeNode<GradBoostLeaf>>),
    Amg(Box<TreeNode<AMGBoostLeaf>>),
    RB(RegressionBoostModel),
    MB(MultiClassBoostModel),
    AB(AMGBoostModel),
}
fn dump(m: &Model) -> ModelD {
    let one = |t: TreeD| ModelD { trees: vec![t], init: vec![], lr: 0.0 };
    match m {
        Model::Reg(n) => one(dump_tree(n)),
        Model::Sorted(n) => one(dump_tree(n)),
        Model::Grad(n) => one(dump_tree(n)),
        Model::Amg(n) => one(dump_tree(n)),
        Model::RB(m) => ModelD { trees: m.trees.iter().map(|t| dump_tree(t)).collect(), init: m.initial_guess.clone(), lr: m.learning_rate },
        Model::MB(m) => ModelD { trees: m.trees.iter().map(|t| dump_tree(t)).collect(), init: m.initial_guess.clone(), lr: m.learning_rate },
        Model::AB(m) => ModelD { trees: m.trees.iter().map(|t| dump_tree(t)).collect(), init: m.initial_guess.clone(), lr: m.learning_rate },
    }
}

fn train(t: &Train, data: &'static MultiTargetDataSet, client: usize) -> Model {
    let mut sf = real_finder();
    let mut lr_calc = LeafOutputCalculator::new(LeafOutputType::Regression);
    let mut lm_calc = LeafOutputCalculator::new(LeafOutputType::MultiClassClassification);
    if let Some(f) = t.fault {
        let s = &FS[client];
        s.split_cnt.store(0, SeqCst);
        s.leaf_cnt.store(0, SeqCst);
        s.fired.store(0, SeqCst);
        s.split_at.store(if f.leaf { 0 } else { f.at }, SeqCst);
        s.leaf_at.store(if f.leaf { f.at } else { 0 }, SeqCst);
        s.kind.store(if f.kind == FaultKind::Panic { 0 } else { 1 }, SeqCst);
        sf.find_best_split = SPLIT_FNS[client];
        lr_calc.calculate_leaf_output = LEAF_R[client];
        lm_calc.calculate_leaf_output = LEAF_M[client];
    }
    let cfg = TreeConfig {
        split_finder: sf,
        use_multi_threading: t.mt,
        number_of_classes: (data.labels.first().map_or(1, |l| l.len()) as i64 + t.misdeclared as i64).max(0) as u32,
        max_levels: t.levels,
    };
    let lr = t.lr as f64 / 1000.0;
    match t.learner {
        Learner::Reg => Model::Reg(Box::new(RegressionMultiTargetDecisionTree::new(data.clone(), cfg).root)),
        Learner::Sorted => {
            Model::Sorted(Box::new(RegressionMultiTargetDecisionTreeNewPartition::new(create_dataset_with_sorted_features(data), cfg).root))
        }
        Learner::Grad => Model::Grad(Box::new(GradBoostMultiTargetDecisionTree::new(data.clone(), cfg, lr_calc).root)),
        Learner::GradMc => Model::Grad(Box::new(GradBoostMultiTargetDecisionTree::new(data.clone(), cfg, lm_calc).root)),
        Learner::Amg => Model::Amg(Box::new(AMGBoostTree::new(data.clone(), cfg, lm_calc).root)),
        Learner::RegBoost => Model::RB(RegressionBoostModel::train(data.clone(), cfg, t.iters, lr)),
        Learner::McBoost => Model::MB(MultiClassBoostModel::train(data.clone(), cfg, t.iters, lr)),
        Learner::AmgBoost => Model::AB(AMGBoostModel::train(data.clone(), cfg, t.iters, lr)),
    }
}

fn use_model(m: &Model, q: &MultiTargetDataSet, twice: bool, w: &mut W) {
    match m {
        Model::Reg(n) => {
            let p: Vec<Vec<f64>> = q.feature_rows.iter().map(|row| scorer::classification::predict_class(row, n)).collect();
            w.m(&p);
            w.m(&[]);
        }
        Model::Sorted(_) | Model::Grad(_) | Model::Amg(_) => {
            w.m(&[]);
            w.m(&[]);
        }
        Model::RB(m) => predictions(m, q, w),
        Model::MB(m) => predictions(m, q, w),
        Model::AB(m) => predictions(m, q, w),
    }
    let s = scores(m, q);
    let again = if twice { scores(m, q) } else { s };
    for x in [s.0, s.1, again.0, again.1] {
        w.d(x);
    }
}
fn scores(m: &Model, q: &MultiTargetDataSet) -> (f64, f64) {
    match m {
        Model::Reg(n) => (scorer::classification::calculate_accuracy(q, n), scorer::regression::calculate_overall_mean_squared_error(q, n)),
        Model::Sorted(n) => (0.0, scorer::regression::calculate_overall_mean_squared_error_new_partition(q, n)),
        Model::Grad(_) | Model::Amg(_) => (0.0, 0.0),
        Model::RB(m) => (m.calculate_score(q), 0.0),
        Model::MB(m) => (m.calculate_score(q), 0.0),
        Model::AB(m) => (m.calculate_score(q), 0.0),
    }
}
fn predictions<E: GradientBoostedEnsemble>(m: &E, q: &MultiTargetDataSet, w: &mut W) {
    let p: Vec<Vec<f64>> = q.feature_rows.iter().map(|r| m.predict(r)).collect();
    w.m(&p);
    w.m(&m.calculate_all_predictions(q));
}

pub fn part_value(d: &MultiTargetDataSet, col: usize, pick: u64) -> (usize, f64) {
    let c = col % d.feature_columns.len();
    let v = &d.feature_columns[c];
    let x = v[(pick % v.len() as u64) as usize];
    let mx = v.iter().cloned().fold(f64::MIN, f64::max);
    let mn = v.iter().cloned().fold(f64::MAX, f64::min);
    (c, match (pick >> 32) % 8 {
        0 => x + 0.5,
        1 => mx + 1.0,
        2 => mn - 1.0,
        3 => (mx + mn) / 2.0,
        _ => x,
    })
}

// ------------------------------------------------------------------ running a scenario
pub struct Ctx {
    s: &'static Scenario,
    data: Vec<&'static MultiTargetDataSet>,
    models: Vec<Option<Model>>,
    blob: &'static mut Blob,
    sh: &'static mut Shared,
    dir: String,
}
struct CtxPtr(*mut Ctx);
unsafe impl Send for CtxPtr {}
unsafe impl Sync for CtxPtr {}
impl Clone for CtxPtr {
    fn clone(&self) -> Self {
        CtxPtr(self.0)
    }
}

fn run_op(cp: &CtxPtr, id: usize, op: &'static Op, client: usize, keep: Option<usize>) {
    let c = unsafe { &mut *cp.0 };
    let slot = &mut c.blob.ops[id];
    slot.start = unsafe { sim_seq() };
    slot.io_start = c.sh.io_ops;
    slot.out_start = c.sh.outlen;
    slot.status = 1;
    let mut fired0 = 0;
    if let Op::Train(Train { fault: Some(_), .. }) = op {
        fired0 = 1;
    }
    let r = catch_unwind(AssertUnwindSafe(|| -> Vec<u8> {
        let c = unsafe { &mut *cp.0 };
        let mut w = W(Vec::new());
        match op {
            Op::Train(t) => {
                let m = train(t, c.data[t.data], client);
                enc_model(&dump(&m), &mut w);
                if let Some((qseed, n)) = t.then {
                    let q = query_rows(c.data[t.data], qseed, n);
                    use_model(&m, &q, qseed % 3 == 0, &mut w);
                }
                if let Some(k) = keep {
                    c.models[k] = Some(m);
                }
            }
            Op::Use { model, qseed, n } => {
                if let Some(m) = &c.models[*model] {
                    let di = match &c.s.setup[*model] {
                        Op::Train(t) => t.data,
                        _ => unreachable!(),
                    };
                    let q = query_rows(c.data[di], *qseed, *n);
                    use_model(m, &q, qseed % 3 == 0, &mut w);
                }
            }
            Op::Load { kind, a, b, k } => {
                let fa = format!("{}/{}", c.dir, file_name(*a, false));
                let fb = format!("{}/{}", c.dir, file_name(*b, false));
                match kind {
                    LoadKind::Single => {
                        let d = data_reader::read_csv_data(&fa);
                        w.m(&d.features);
                        w.v(&d.labels);
                    }
                    LoadKind::OneHot | LoadKind::Paired => {
                        let d = if *kind == LoadKind::OneHot {
                            data_reader::read_csv_data_one_hot_multi_target(&fa, *k)
                        } else {
                            data_reader::read_csv_data_multi_target(&fa, &fb)
                        };
                        w.m(&d.feature_rows);
                        w.m(&d.feature_columns);
                        w.m(&d.labels);
                    }
                    LoadKind::Names => {
                        for n in data_reader::get_feature_names(&fa) {
                            w.u(n.len() as u64);
                            w.0.extend_from_slice(n.as_bytes());
                        }
                    }
                }
            }
            Op::Rewrite { file, spec } => {
                raw_write(&format!("{}/{}", c.dir, file_name(*file, false)), &content(spec));
            }
            Op::Part { data, col, pick, sorted } => {
                let d = c.data[*data];
                let (col, val) = part_value(d, *col, *pick);
                if *sorted {
                    let sd = create_dataset_with_sorted_features(d);
                    let all = sd.labels.clone();
                    let (t, f) = new_partition(&sd, col, val, &all);
                    for side in [&t, &f] {
                        let l = RegressionLeafNewPartition { data: Some(side.clone()) };
                        enc_model(&ModelD { trees: vec![vec![NodeD::Leaf(l.dump())]], ..Default::default() }, &mut w);
                    }
                } else {
                    let (f, t) = data_partitioner::partition(d, &Question::new(col as u32, val));
                    for side in [t, f] {
                        let l = RegressionLeaf { data: Some(side) };
                        enc_model(&ModelD { trees: vec![vec![NodeD::Leaf(l.dump())]], ..Default::default() }, &mut w);
                    }
                }
            }
            Op::Print { model, indent } => {
                if let Some(Model::Reg(n)) = &c.models[*model] {
                    let names = names(c.s, *model);
                    printer::print_tree_regression(n, " ".repeat(*indent), &names);
                }
            }
        }
        w.0
    }));
    let c = unsafe { &mut *cp.0 };
    let (status, bytes) = match r {
        Ok(b) => (2, b),
        Err(p) => {
            if p.downcast_ref::<Injected>().is_some() {
                (4, vec![])
            } else if let Some(s) = p.downcast_ref::<String>() {
                (3, s.clone().into_bytes())
            } else if let Some(s) = p.downcast_ref::<&str>() {
                (3, s.as_bytes().to_vec())
            } else {
                (3, b"?".to_vec())
            }
        }
    };
    let off = c.blob.cursor.fetch_add(bytes.len() as u64, SeqCst) as usize;
    if off + bytes.len() > BLOB_CAP {
        c.blob.overflow = 1;
        return;
    }
    c.blob.data[off..off + bytes.len()].copy_from_slice(&bytes);
    let slot = &mut c.blob.ops[id];
    slot.off = off as u64;
    slot.len = bytes.len() as u64;
    slot.end = unsafe { sim_seq() };
    slot.io_end = c.sh.io_ops;
    slot.out_end = c.sh.outlen;
    if fired0 == 1 {
        slot.fault_fired = FS[client].fired.load(SeqCst);
    }
    slot.status = status;
}

pub fn names(s: &Scenario, model: usize) -> Vec<String> {
    match &s.setup[model] {
        Op::Train(t) => {
            let f = s.data[t.data].cols.as_ref().map(|c| c.len()).unwrap_or(s.data[t.data].f);
            let style = s.data[t.data].seed % 5;
            let odd = ["", "with space", "quo\"ted", "line\nbreak", "größe_μ", "back\\slash", "tab\there", "日本", "{}", "%s", "x"];
            (0..f).map(|i| if style == 0 { odd[(i + (s.data[t.data].seed >> 8) as usize % 11) % 11].to_string() } else { format!("feature-{}", i) }).collect()
        }
        _ => vec![],
    }
}

pub fn configure(ar: &Arena, cfg: &SimCfg, dir: &str, replay: Option<&[Ev]>) {
    ar.reset();
    let sh = ar.sh();
    sh.seed = cfg.seed;
    sh.policy = if replay.is_some() { POL_REPLAY } else { cfg.policy };
    sh.ncpu = cfg.workers.max(1);
    sh.sync_den = cfg.sync_den;
    sh.mem_mean = cfg.mem_mean;
    sh.pct_depth = cfg.pct_depth;
    sh.pct_len = cfg.pct_len;
    sh.spur_den = cfg.spur_den;
    sh.stall_den = cfg.stall_den;
    sh.stall_len = cfg.stall_len.max(1);
    sh.max_steps = cfg.max_steps;
    sh.starve_limit = 200_000;
    sh.io_eintr = cfg.io_eintr;
    sh.io_short = cfg.io_short;
    sh.io_eio = cfg.io_eio;
    sh.io_trunc = cfg.io_trunc;
    sh.io_open = cfg.io_open;
    sh.w_eintr = cfg.w_eintr;
    sh.w_short = cfg.w_short;
    sh.w_err = cfg.w_err;
    sh.alloc_fail_at = cfg.alloc_fail_at;
    sh.alloc_fail_n = cfg.alloc_fail_n;
    sh.thread_fail_at = cfg.thread_fail_at;
    sh.clock_jump = cfg.clock_jump;
    sh.ns_per_step = cfg.ns_per_step;
    sh.capture_stdout = 1;
    let d = format!("{}/", dir);
    sh.scratch[..d.len()].copy_from_slice(d.as_bytes());
    if let Some(t) = replay {
        let n = t.len().min(MAX_TRACE);
        sh.replay[..n].copy_from_slice(&t[..n]);
        sh.n_replay = n as u32;
    }
}

pub fn write_files(s: &Scenario, dir: &str) {
    for (i, f) in s.files.iter().enumerate() {
        raw_write(&format!("{}/{}", dir, file_name(i, s.program)), &content(f));
    }
}

/// Execute a scenario in a forked child under the configured simulator.
pub fn execute(ar: &Arena, s: &Scenario, dir: &str, replay: Option<&[Ev]>, wall: u32) -> Exit {
    configure(ar, &s.sim, dir, replay);
    write_files(s, dir);
    if s.program {
        return exec_program(ar, s, dir, wall);
    }
    let workers = s.sim.workers;
    fork_run(wall, || {
        std::env::set_var("RAYON_NUM_THREADS", workers.to_string());
        std::panic::set_hook(Box::new(|_| {}));
        let s: &'static Scenario = Box::leak(Box::new(s.clone()));
        let data: Vec<&'static MultiTargetDataSet> = s.data.iter().map(|d| &*Box::leak(Box::new(make(d)))).collect();
        let ctx = Box::leak(Box::new(Ctx { s, data, models: s.setup.iter().map(|_| None).collect(), blob: ar.blob(), sh: ar.sh(), dir: dir.to_string() }));
        let cp = CtxPtr(ctx as *mut Ctx);
        // ids: setup, then clients in order, then post
        let mut base = s.setup.len();
        let starts: Vec<usize> = s.clients.iter().map(|c| { let b = base; base += c.ops.len(); b }).collect();
        let post0 = base;
        unsafe { sim_start(ar.sh) };
        for (i, op) in s.setup.iter().enumerate() {
            run_op(&cp, i, op, MAX_CLIENTS - 1, Some(i));
        }
        let cursor0 = ar.blob().cursor.load(SeqCst);
        if s.repeat > 0 {
            let cp1 = cp.clone();
            let sample = |i: usize| {
                let c = unsafe { &mut *cp1.0 };
                unsafe { c.blob.samples[i] = [sim_open_files() as i64, sim_live_threads() as i64, sim_live_bytes()] };
                c.blob.nsamples = i as u32 + 1;
            };
            sample(0);
            for rep in 0..(s.repeat as usize).min(MAX_REPS - 1) {
                for pass in 0..s.passes.max(1) {
                    if rep > 0 || pass > 0 {
                        let c = unsafe { &mut *cp.0 };
                        c.blob.cursor.store(cursor0, SeqCst);
                        c.sh.outlen = 0;
                    }
                    run_all(&cp, s, &starts, post0);
                }
                // let finished threads leave and idle ones fall asleep
                std::thread::sleep(std::time::Duration::from_secs(100_000));
                sample(rep + 1);
            }
        } else {
            let mut first: Vec<(u32, u64)> = vec![];
            for pass in 0..s.passes.max(1) {
                if pass > 0 {
                    let c = unsafe { &mut *cp.0 };
                    c.blob.cursor.store(cursor0, SeqCst);
                    c.sh.outlen = 0;
                }
                run_all(&cp, s, &starts, post0);
                if s.passes > 1 {
                    let c = unsafe { &mut *cp.0 };
                    let now: Vec<(u32, u64)> = (s.setup.len()..s.n_ops())
                        .map(|i| {
                            let o = &c.blob.ops[i];
                            let h = if o.status == 2 { c.blob.data[o.off as usize..(o.off + o.len) as usize].iter().fold(0xcbf29ce484222325u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3)) } else { 0 };
                            (o.status, h)
                        })
                        .collect();
                    if pass == 0 {
                        first = now;
                    } else if let Some(i) = (0..now.len()).find(|&i| now[i] != first[i]) {
                        c.blob.changed = [i as u32 + 1, pass + 1];
                        break;
                    }
                }
            }
        }
        unsafe { sim_stop() };
    })
}
fn run_all(cp: &CtxPtr, s: &'static Scenario, starts: &[usize], post0: usize) {
    let nc = s.clients.len();
    if nc == 1 && !s.clients[0].nested {
        run_client(cp, &s.clients[0], starts[0], 0);
    } else if nc > 0 {
        unsafe { sim_exempt(1) };
        let mut hs = vec![];
        for ci in (0..nc).filter(|&ci| !s.clients[ci].nested) {
            let cp = cp.clone();
            let (cl, st) = (&s.clients[ci], starts[ci]);
            hs.push(std::thread::spawn(move || { let cp = cp; run_client(&cp, cl, st, ci) }));
        }
        let nested: Vec<usize> = (0..nc).filter(|&ci| s.clients[ci].nested).collect();
        unsafe { sim_exempt(0) };
        if !nested.is_empty() {
            // tasks inside the shared worker pool that themselves train
            let cpn = cp.clone();
            let _ = catch_unwind(AssertUnwindSafe(|| {
                rayon::scope(|sc| {
                    for ci in nested {
                        let cp = cpn.clone();
                        let (cl, st) = (&s.clients[ci], starts[ci]);
                        sc.spawn(move |_| { let cp = cp; run_client(&cp, cl, st, ci) });
                    }
                })
            }));
        }
        for h in hs {
            let _ = h.join();
        }
    }
    for (i, op) in s.post.iter().enumerate() {
        run_op(cp, post0 + i, op, MAX_CLIENTS - 1, None);
    }
}
fn run_client(cp: &CtxPtr, cl: &'static Client, start: usize, ci: usize) {
    for (j, op) in cl.ops.iter().enumerate() {
        run_op(cp, start + j, op, ci, None);
    }
}

fn exec_program(ar: &Arena, s: &Scenario, dir: &str, wall: u32) -> Exit {
    let bin = std::env::var("SIM_MAIN_BIN").expect("SIM_MAIN_BIN");
    let workers = s.sim.workers;
    fork_run(wall, || unsafe {
        use std::ffi::CString;
        let d = CString::new(dir).unwrap();
        assert_eq!(libc::chdir(d.as_ptr()), 0);
        let fd = libc::dup(ar.fd);
        let env: Vec<CString> = [format!("SIMRT_FD={}", fd), format!("RAYON_NUM_THREADS={}", workers), "RUST_BACKTRACE=0".into()]
            .iter()
            .map(|x| CString::new(x.as_str()).unwrap())
            .collect();
        let mut ep: Vec<*const libc::c_char> = env.iter().map(|c| c.as_ptr()).collect();
        ep.push(std::ptr::null());
        let b = CString::new(bin).unwrap();
        let argv = [b.as_ptr(), std::ptr::null()];
        libc::execve(b.as_ptr(), argv.as_ptr(), ep.as_ptr());
        libc::_exit(79);
    })
}
