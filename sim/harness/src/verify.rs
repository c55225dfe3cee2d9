//! One simulated run: references, execution, and the property's verdict over the recorded history.
use crate::exec::*;
use crate::gen::*;
use crate::model::*;
use crate::oracle::*;
use crate::rt::*;
use crate::scen::*;
use common::datasets::MultiTargetDataSet;
use std::collections::BTreeMap; // no hash maps: their seed must stay unset until a run draws it

#[derive(Clone, Debug)]
pub struct Violation {
    pub msg: String,
}
pub enum Outcome {
    Held,
    Violated(Violation),
    /// the run says nothing (resource limit inside the harness)
    Void(String),
}

#[derive(Default, Clone, serde::Serialize, serde::Deserialize)]
pub struct Obs {
    pub splits: u64,
    pub leaves: u64,
    pub models: u64,
    pub rounds: u64,
    pub rows_predicted: u64,
    pub loads_ok: u64,
    pub loads_failed: u64,
    pub calls_ok: u64,
    pub calls_failed: u64,
    pub task_panics: u64,
    pub task_sleeps: u64,
    pub program_ok: u64,
    pub program_failed: u64,
    pub refs: u64,
    pub aborted: u64,
    pub work_hash: u64,
    pub nontrivial: bool,
    /// largest reference execution, in steps (maximum, not a sum)
    pub ref_steps_max: u64,
    /// steps of this scenario's calls when run alone
    pub base_steps: u64,
}

pub struct Runner {
    pub ar: Arena,
    pub dir: String,
}

struct Rec {
    status: u32,
    fired: u32,
    bytes: Vec<u8>,
    io: (u64, u64),
}

const LEFTOVER_BYTES: i64 = 4 << 10;

/// Processor seconds one simulated execution may use: a backstop for loops the step counter cannot
/// see; the largest legitimate execution takes about 12 s.
fn wall() -> u32 {
    60
}
/// Steps a call may take alone; the largest legitimate one takes about 150 million.
const ALONE_STEPS: u64 = 2_000_000_000;

impl Runner {
    pub fn new(tag: &str) -> Runner {
        let root = if std::fs::metadata("/dev/shm").map_or(false, |m| m.is_dir()) { "/dev/shm" } else { "/tmp" };
        let dir = format!("{}/simcheck-{}", root, tag);
        std::fs::create_dir_all(format!("{}/common/data-files/multi-target", dir)).expect("scratch directory");
        Runner { ar: Arena::new(), dir }
    }
    pub fn cleanup(&self) {
        assert!(self.dir.contains("/simcheck-"));
        let _ = std::fs::remove_dir_all(&self.dir);
    }

    fn rec(&self, i: usize) -> Rec {
        let o = self.ar.blob().ops[i];
        Rec { status: o.status, fired: o.fault_fired, bytes: if o.status >= 2 { self.ar.payload(i).to_vec() } else { vec![] }, io: (o.io_start, o.io_end) }
    }

    /// The same call alone: one client, one worker, sequential schedule, no faults.
    fn isolated(&self, s: &Scenario, setup: Option<&Op>, op: &Op, obs: &mut Obs) -> Result<(u32, Vec<u8>, u64, u64), Outcome> {
        let mut op = op.clone();
        if let Op::Train(t) = &mut op {
            t.fault = None;
        }
        let mut r = Scenario { prop: s.prop.clone(), data: s.data.clone(), ..Default::default() };
        r.sim = SimCfg { seed: 12345, policy: POL_SEQ, workers: 1, max_steps: ALONE_STEPS, ns_per_step: 10, ..Default::default() };
        let mut used: Vec<usize> = vec![];
        if let Some(o) = setup {
            r.setup.push(o.clone());
            if let Op::Use { model, .. } = &mut op {
                *model = 0;
            }
            if let Op::Train(t) = o {
                used.push(t.data);
            }
        }
        if let Op::Train(t) = &op {
            used.push(t.data);
        }
        // only build the datasets the call needs
        for (i, d) in r.data.iter_mut().enumerate() {
            if !used.contains(&i) {
                d.rows = None;
                d.cols = None;
                d.bad = 0;
                d.n = 1;
                d.f = 1;
                d.k = d.k.min(2);
            }
        }
        r.clients.push(Client { nested: false, ops: vec![op] });
        let e = execute(&self.ar, &r, &self.dir, None, wall());
        obs.refs += 1;
        obs.ref_steps_max = obs.ref_steps_max.max(self.ar.sh().steps);
        if e == Exit::Signal(libc::SIGKILL) {
            return Err(Outcome::Void("killed".into()));
        }
        if e != Exit::Code(0) {
            return Err(Outcome::Violated(Violation { msg: format!("the call alone, on one worker, ends with {:?} ({})", e, cstr(&self.ar.sh().diag)) }));
        }
        let id = r.setup.len();
        let rec = self.rec(id);
        Ok((rec.status, rec.bytes, self.ar.sh().steps, self.ar.sh().allocs))
    }

    /// Run a scenario and judge it. `replay`: force a recorded schedule.
    pub fn run(&self, s0: &Scenario, replay: Option<&[Ev]>, obs: &mut Obs) -> (Outcome, Scenario) {
        let mut s = s0.clone();
        let mut seed_r = Rng::new(s.sim.seed ^ 77);
        // ---- references
        let mut refs: BTreeMap<usize, (u32, Vec<u8>)> = BTreeMap::new();
        let mut base_steps = 0u64;
        let mut base_allocs = 0u64;
        let need_ref = matches!(s.prop.as_str(), "C01" | "C02" | "C06" | "C08" | "C09" | "C10" | "C17");
        if need_ref && !s.program {
            let ops: Vec<Op> = s.all_ops().into_iter().cloned().collect();
            let mut cache: Vec<(Op, u32, Vec<u8>, u64, u64)> = vec![];
            for (i, op) in ops.iter().enumerate() {
                let mut want = op.clone();
                let setup = match &want {
                    Op::Train(_) => None,
                    Op::Use { model, .. } => Some(s.setup[*model].clone()),
                    Op::Load { a, b, .. } => {
                        // whatever the file holds by then: allow for the largest
                        let most = s.files.iter().map(|f| content(f).len()).max().unwrap_or(0) as u64;
                        let _ = (a, b);
                        base_steps += 100 * most + 5000;
                        continue;
                    }
                    Op::Rewrite { spec, .. } => {
                        base_steps += 200 * content(spec).len() as u64 + 5000;
                        continue;
                    }
                    _ => continue,
                };
                if let Op::Train(t) = &mut want {
                    t.fault = None;
                    if s.prop == "C02" {
                        t.mt = false;
                    }
                    if s.prop == "C06" {
                        t.learner = Learner::Reg;
                        t.mt = false;
                    }
                }
                if let Some(h) = cache.iter().find(|h| h.0 == want) {
                    refs.insert(i, (h.1, h.2.clone()));
                    base_steps += h.3;
                    base_allocs += h.4;
                    continue;
                }
                match self.isolated(&s, setup.as_ref(), &want, obs) {
                    Ok((st, b, steps, allocs)) => {
                        cache.push((want, st, b.clone(), steps, allocs));
                        base_allocs += allocs;
                        refs.insert(i, (st, b));
                        base_steps += steps;
                    }
                    Err(o) => return (o, s),
                }
            }
        }
        base_steps *= s.passes.max(1) as u64;
        obs.base_steps = base_steps;
        if s.sim.max_steps == 0 {
            s.sim.max_steps = if base_steps > 0 { (30 * (s.clients.len() as u64 + 2) * base_steps).min(ALONE_STEPS.max(10 * base_steps)) + 5_000_000 } else { 2 * ALONE_STEPS };
        }
        if s.sim.pct_len == 0 {
            s.sim.pct_len = if base_steps > 0 { (base_steps + base_steps / 2).max(50) } else { 1 << seed_r.range(8, 21) };
        }
        if s.sim.alloc_frac > 0 && s.sim.alloc_fail_at == 0 {
            s.sim.alloc_fail_at = 1 + (s.sim.alloc_frac as u64 * base_allocs) / 65536;
        }
        // ---- the run
        let exit = execute(&self.ar, &s, &self.dir, replay, wall());
        let sh = self.ar.sh();
        obs.nontrivial = sh.preempts + sh.switches > 0 || sh.fired.iter().sum::<u64>() > 0;
        if s.repeat > 0 && cstr(&sh.diag) == "too many threads" {
            return (Outcome::Violated(Violation { msg: "threads pile up: more than 250 were started by repeated calls".into() }), s);
        }
        if self.ar.blob().overflow != 0 {
            return (Outcome::Void("result buffer full".into()), s);
        }
        match exit {
            Exit::Code(77) if sh.verdict == V_DEADLOCK => {
                return (Outcome::Violated(Violation { msg: format!("deadlock: {}", cstr(&sh.diag)) }), s)
            }
            Exit::Code(77) if sh.verdict == V_STEPS && cstr(&sh.diag) == "livelock" => {
                return (Outcome::Violated(Violation { msg: "livelock: for two million turns every running thread only yielded to the others".into() }), s)
            }
            Exit::Code(77) if sh.verdict == V_STEPS => {
                return (Outcome::Violated(Violation { msg: format!("no completion within {} steps (alone and sequentially: {})", s.sim.max_steps, base_steps) }), s)
            }
            Exit::Code(77) | Exit::Code(78) | Exit::Code(79) => return (Outcome::Void(cstr(&sh.diag)), s),
            Exit::Signal(libc::SIGXCPU) => return (Outcome::Violated(Violation { msg: format!("no completion within {} s of processor time", wall()) }), s),
            Exit::Signal(libc::SIGALRM) => return (Outcome::Violated(Violation { msg: format!("blocked without using the processor for {} s", 5 * wall() / 2) }), s),
            Exit::Signal(libc::SIGKILL) => return (Outcome::Void("killed".into()), s),
            Exit::Signal(_) | Exit::Code(_) if sh.alloc_fired > 0 && exit != Exit::Code(0) => obs.aborted += 1,
            Exit::Code(0) => {}
            Exit::Code(_) if s.program => {}
            e => return (Outcome::Violated(Violation { msg: format!("the process died: {:?}", e) }), s),
        }
        let res = if s.program { self.judge_program(&s, exit, obs) } else { self.judge(&s, &refs, exit, obs) };
        match res {
            Ok(()) => (Outcome::Held, s),
            Err(msg) => (Outcome::Violated(Violation { msg }), s),
        }
    }

    fn judge(&self, s: &Scenario, refs: &BTreeMap<usize, (u32, Vec<u8>)>, exit: Exit, obs: &mut Obs) -> Result<(), String> {
        let ops: Vec<Op> = s.all_ops().into_iter().cloned().collect();
        let recs: Vec<Rec> = (0..ops.len()).map(|i| self.rec(i)).collect();
        if s.repeat > 0 {
            self.check_leftovers(s)?;
        }
        let ch = self.ar.blob().changed;
        if ch[0] > 0 {
            let i = s.setup.len() + ch[0] as usize - 1;
            return Err(format!("call {} ({}) returned something else the {}th time it was made than the first time", i, describe(&ops[i], s), ch[1]));
        }
        let (alloc_fired, thread_fired) = (self.ar.sh().alloc_fired, self.ar.sh().thread_fired);
        let aborted = exit != Exit::Code(0);
        let data: Vec<MultiTargetDataSet> = s.data.iter().map(make).collect();
        let mut files = s.files.clone();
        let mut h = 0u64;
        for (i, op) in ops.iter().enumerate() {
            let r = &recs[i];
            let what = || format!("call {} ({})", i, describe(op, s));
            if r.status < 2 {
                // a call inside the pool never starts when the pool itself could not be started
                if aborted || (r.status == 0 && (thread_fired > 0 || alloc_fired > 0)) {
                    continue;
                }
                return Err(format!("{} never finished", what()));
            }
            if r.status == 2 {
                obs.calls_ok += 1
            } else {
                obs.calls_failed += 1
            }
            for b in r.bytes.chunks(8) {
                h = h.rotate_left(5) ^ b.iter().fold(0u64, |a, x| a << 8 | *x as u64).wrapping_mul(0x9E3779B97F4A7C15);
            }
            match op {
                Op::Train(t) => {
                    obs.models += 1;
                    let injected = t.fault.map_or(false, |f| f.kind == FaultKind::Panic) && r.fired > 0;
                    if t.fault.map_or(false, |f| f.kind == FaultKind::Sleep) {
                        obs.task_sleeps += r.fired as u64;
                    }
                    if injected {
                        obs.task_panics += 1;
                    }
                    if r.status != 2 {
                        // an injected failure excuses exactly this call; a refused worker thread excuses every call
                        let ref_failed = refs.get(&i).map_or(false, |x| x.0 != 2);
                        if injected || thread_fired > 0 || alloc_fired > 0 || ref_failed || (s.data[t.data].bad > 0 || t.misdeclared != 0) && s.repeat > 0 {
                            continue;
                        }
                        return Err(format!("{} failed: {}", what(), String::from_utf8_lossy(&r.bytes)));
                    }
                    if injected && s.prop == "C09" {
                        return Err(format!("{} returned a model although one of its tasks panicked", what()));
                    }
                    let mut left = R(&r.bytes);
                    let m = dec_model(&mut left);
                    let uses = left.0;
                    if let Some(e) = broken(&m) {
                        return Err(format!("{}: {}", what(), e));
                    }
                    let d = &data[t.data];
                    match s.prop.as_str() {
                        "C01" | "C08" | "C09" | "C17" => {
                            if let Some((st, b)) = refs.get(&i) {
                                if *st != 2 {
                                    return Err(format!("{} succeeded although the same call alone fails: {}", what(), String::from_utf8_lossy(b)));
                                }
                                let mut left = R(b);
                                if let Some(e) = diff(&m, &dec_model(&mut left)) {
                                    return Err(format!("{}: differs from the same call alone on one worker: {}", what(), e));
                                }
                                if uses != left.0 {
                                    return Err(format!("{}: predictions or scores of the model differ from those of the same model alone", what()));
                                }
                            }
                        }
                        "C02" => {
                            let (st, b) = &refs[&i];
                            if *st != 2 {
                                return Err(format!("{} succeeded although the single-threaded call fails", what()));
                            }
                            if let Some(e) = diff(&m, &dec_model(&mut R(b))) {
                                return Err(format!("{}: multi-threaded and single-threaded training differ: {}", what(), e));
                            }
                        }
                        "C03" => {
                            let mut st = SplitStats::default();
                            let e = if t.learner.boosted() {
                                replay_boost(&m, t.learner, d, |round, tree, y, unc| {
                                    check_splits(tree, d, y, unc, t.levels, &mut st).map_err(|e| format!("round {}: {}", round, e))
                                })
                            } else {
                                check_splits(&m.trees[0], d, &d.labels, 0.0, t.levels, &mut st)
                            };
                            obs.splits += st.splits;
                            obs.leaves += st.leaves;
                            e.map_err(|e| format!("{}: {}", what(), e))?;
                        }
                        "C04" => {
                            check_conservation(&m.trees[0], d).map_err(|e| format!("{}: {}", what(), e))?;
                            obs.leaves += m.trees[0].len() as u64;
                        }
                        "C05" => {
                            let mc = matches!(t.learner, Learner::GradMc | Learner::Amg | Learner::McBoost | Learner::AmgBoost);
                            if t.learner.boosted() {
                                check_init(&m, t, d).map_err(|e| format!("{}: {}", what(), e))?;
                                replay_boost(&m, t.learner, d, |round, tree, y, unc| {
                                    check_leaf_outputs(tree, d, y, unc, mc).map_err(|e| format!("round {}: {}", round, e))
                                })
                                .map_err(|e| format!("{}: {}", what(), e))?;
                                obs.rounds += m.trees.len() as u64;
                            } else {
                                check_leaf_outputs(&m.trees[0], d, &d.labels, 0.0, mc).map_err(|e| format!("{}: {}", what(), e))?;
                            }
                            obs.leaves += m.trees.iter().map(|t| t.len() as u64).sum::<u64>();
                        }
                        "C11" => {
                            if let Some((qseed, n)) = t.then {
                                obs.rows_predicted += n as u64;
                                let q = query_rows(d, qseed, n);
                                check_used(&dec_used(uses), &m, t.learner, &q).map_err(|e| format!("{}: {}", what(), e))?;
                            }
                        }
                        "C06" => {
                            let (st, b) = &refs[&i];
                            if *st != 2 {
                                return Err(format!("{} succeeded although the standard learner fails", what()));
                            }
                            same_as_standard(&m.trees[0], &dec_model(&mut R(b)).trees[0], d).map_err(|e| format!("{}: {}", what(), e))?;
                            obs.leaves += m.trees[0].len() as u64;
                        }
                        _ => {}
                    }
                }
                Op::Use { model, qseed, n } => {
                    if recs[*model].status != 2 {
                        continue;
                    }
                    if r.status != 2 {
                        return Err(format!("{} failed: {}", what(), String::from_utf8_lossy(&r.bytes)));
                    }
                    obs.rows_predicted += *n as u64;
                    let t = match &s.setup[*model] {
                        Op::Train(t) => t,
                        _ => unreachable!(),
                    };
                    if let Some((st, b)) = refs.get(&i) {
                        if *st != 2 || *b != r.bytes {
                            return Err(format!("{}: predictions or scores differ from the same call alone", what()));
                        }
                    }
                    if s.prop == "C11" {
                        let m = dec_model(&mut R(&recs[*model].bytes));
                        let q = query_rows(&data[t.data], *qseed, *n);
                        check_used(&dec_used(&r.bytes), &m, t.learner, &q).map_err(|e| format!("{}: {}", what(), e))?;
                    }
                }
                Op::Rewrite { file, spec } => files[*file] = spec.clone(),
                Op::Load { kind, a, b, k } => {
                    if r.status == 2 {
                        obs.loads_ok += 1
                    } else {
                        obs.loads_failed += 1
                    }
                    let disk = |f: usize| -> Vec<u8> {
                        if ops[i + 1..].iter().any(|o| matches!(o, Op::Rewrite { file, .. } if *file == f)) {
                            content(&files[f])
                        } else {
                            std::fs::read(format!("{}/{}", self.dir, file_name(f, false))).unwrap_or_default()
                        }
                    };
                    if s.repeat > 0 {
                        continue; // whose turn it was to rewrite the file is not tracked over repetitions
                    }
                    // after a truncation only a file read once tells what its reader saw
                    let touches = |f: usize| {
                        ops.iter().filter(|o| match o {
                            Op::Rewrite { file, .. } => *file == f,
                            Op::Load { kind, a, b, .. } => *a == f || (*kind == LoadKind::Paired && *b == f),
                            _ => false,
                        }).count()
                    };
                    if self.ar.sh().fired[4] > 0 && (touches(*a) > 1 || (*kind == LoadKind::Paired && touches(*b) > 1)) {
                        continue;
                    }
                    let fa = disk(*a);
                    let fb = if *kind == LoadKind::Paired { disk(*b) } else { vec![] };
                    let mut faults = self.faults_between(r.io);
                    faults.0 += alloc_fired;
                    check_load(*kind, &fa, &fb, *k, r.status, &r.bytes, faults).map_err(|e| format!("{}: {}", what(), e))?;
                }
                Op::Part { data: di, col, pick, sorted } => {
                    let d = &data[*di];
                    let (c, v) = part_value(d, *col, *pick);
                    let (mut ti, mut fi) = (vec![], vec![]);
                    for i in 0..d.labels.len() {
                        if d.feature_columns[c][i] >= v {
                            ti.push(i)
                        } else {
                            fi.push(i)
                        }
                    }
                    if r.status != 2 {
                        return Err(format!("{} failed: {}", what(), String::from_utf8_lossy(&r.bytes)));
                    }
                    let mut rd = R(&r.bytes);
                    for (name, idx) in [("true", &ti), ("false", &fi)] {
                        let m = dec_model(&mut rd);
                        if let NodeD::Leaf(l) = &m.trees[0][0] {
                            check_side(l, idx, d).map_err(|e| format!("{}: {} side of feature {} >= {:?}: {}", what(), name, c, v, e))?;
                        }
                    }
                }
                Op::Print { model, indent } => {
                    if recs[*model].status != 2 {
                        continue;
                    }
                    let o = self.ar.blob().ops[i];
                    let sh = self.ar.sh();
                    let got = &sh.out[o.out_start as usize..o.out_end as usize];
                    let m = dec_model(&mut R(&recs[*model].bytes));
                    let mut want = String::new();
                    render(&m.trees[0], 0, &" ".repeat(*indent), &names(s, *model), &mut want);
                    let w = want.as_bytes();
                    let failed_write = self.faults_between(r.io).2;
                    if r.status == 2 {
                        if got != w {
                            let p = got.iter().zip(w).take_while(|(a, b)| a == b).count();
                            return Err(format!(
                                "{}: call succeeded but the output ({} bytes) differs from the tree ({} bytes) at byte {}: got {:?}, expected {:?}",
                                what(), got.len(), w.len(), p, tail(got, p), tail(w, p)
                            ));
                        }
                    } else {
                        if failed_write == 0 {
                            return Err(format!("{} failed without an output error: {}", what(), String::from_utf8_lossy(&r.bytes)));
                        }
                        if !w.starts_with(got) {
                            return Err(format!("{}: output before the failure is not a prefix of the tree", what()));
                        }
                        return Ok(()); // the standard output handle may keep a partial line; later prints are not judged
                    }
                }
            }
        }
        obs.work_hash = h;
        Ok(())
    }

    /// Open files, threads and heap after each repetition of the same calls.
    fn check_leftovers(&self, s: &Scenario) -> Result<(), String> {
        let b = self.ar.blob();
        let n = b.nsamples as usize;
        if n < s.repeat as usize + 1 {
            return Err(format!("only {} of {} repetitions finished", n.saturating_sub(1), s.repeat));
        }
        let at = |i: usize| b.samples[i];
        let (last, mid) = (at(n - 1), at(n / 2));
        if std::env::var_os("SIM_SAMPLES").is_some() {
            eprintln!("{:?}", &b.samples[..n]);
        }
        if last[0] > at(0)[0] {
            return Err(format!("{} more open files after {} repetitions of the same calls than before them", last[0] - at(0)[0], n - 1));
        }
        if last[1] > mid[1] {
            return Err(format!("{} threads after {} repetitions of the same calls, {} after {}", last[1], n - 1, mid[1], n / 2));
        }
        if last[1] > 1 + s.sim.workers as i64 {
            return Err(format!("{} threads are left after the calls: more than the caller's own and the {} of the worker pool", last[1], s.sim.workers));
        }
        let grown = last[2] - mid[2];
        // less than that, but more at each single repetition
        let steps: Vec<i64> = (n / 2 + 1..n).map(|i| at(i)[2] - at(i - 1)[2]).collect();
        if n >= 14 && grown >= 512 && steps.iter().all(|x| *x >= 32) {
            return Err(format!("the heap grew at every repetition of the same calls: by {:?} bytes", steps));
        }
        if grown > LEFTOVER_BYTES {
            return Err(format!("the heap grew by {} bytes from repetition {} to {} of the same calls", grown, n / 2, n - 1));
        }
        Ok(())
    }

    /// (read faults that excuse a failed load, truncations, failed writes) among I/O operations (a, b]
    fn faults_between(&self, io: (u64, u64)) -> (u64, u64, u64) {
        let sh = self.ar.sh();
        let mut r = (0, 0, 0);
        for e in &sh.trace[..sh.ntrace as usize] {
            if e.kind == K_IOFAULT && e.key > io.0 && e.key <= io.1 {
                match e.to {
                    1 | 3 | 5 => r.0 += 1,
                    4 => r.1 += 1,
                    8 => r.2 += 1,
                    _ => {}
                }
            }
        }
        if sh.trace_overflow != 0 {
            r.0 += sh.fired[1] + sh.fired[3] + sh.fired[5];
            r.2 += sh.fired[8];
        }
        r
    }

    fn judge_program(&self, s: &Scenario, exit: Exit, obs: &mut Obs) -> Result<(), String> {
        let sh = self.ar.sh();
        let out = String::from_utf8_lossy(&sh.out[..sh.outlen as usize]).into_owned();
        let read_faults = sh.fired[1] + sh.fired[3] + sh.fired[5] + sh.alloc_fired;
        let write_faults = sh.fired[8];
        let contents: Vec<Vec<u8>> = (0..4).map(|i| std::fs::read(format!("{}/{}", self.dir, file_name(i, true))).unwrap_or_default()).collect();
        if exit == Exit::Code(0) {
            obs.program_ok += 1
        } else {
            obs.program_failed += 1
        }
        // what a complete run over these files prints
        let parsed: Vec<Result<Vec<Vec<f64>>, String>> = contents.iter().map(|c| parse_csv(c)).collect();
        let train_ok = parsed[0].is_ok() && parsed[1].is_ok() && {
            let (a, b) = (parsed[0].as_ref().unwrap(), parsed[1].as_ref().unwrap());
            a.len() == b.len() && a.len() > 10 && !a[0].is_empty() && b[0].len() == 10
        };
        let test_ok = parsed[2].is_ok() && parsed[3].is_ok() && {
            let (a, b) = (parsed[2].as_ref().unwrap(), parsed[3].as_ref().unwrap());
            a.len() == b.len() && !a.is_empty() && train_ok && a[0].len() == parsed[0].as_ref().unwrap()[0].len() && b[0].len() == 10
        };
        let mut want: Vec<String> = vec![];
        if train_ok {
            let labels = parsed[1].as_ref().unwrap();
            want.push(format!("{:?}", labels[10]));
            if test_ok {
                let tr = matrix_set(parsed[0].as_ref().unwrap(), labels);
                let te = matrix_set(parsed[2].as_ref().unwrap(), parsed[3].as_ref().unwrap());
                let (mse, pred) = self.program_reference(&tr, &te)?;
                want.push("Elapsed time:".into());
                want.push(format!("{:?}", mse));
                want.push(format!("{:?}", f64::sqrt(mse)));
                want.push(format!("{:?}", te.labels[0]));
                want.push(format!("{:?}", pred));
                obs.rounds += 300;
            } else {
                want.push("Elapsed time:".into());
            }
        }
        let complete = train_ok && test_ok;
        let odd = contents.iter().any(|c| parse_csv_odd(c).map_or(false, |x| x.1) || parse_header(c).is_err());
        let got: Vec<&str> = out.split('\n').collect();
        let n_full = got.len() - 1; // complete lines
        let line_ok = |i: usize, g: &str| {
            i < want.len() && if want[i] == "Elapsed time:" { g.starts_with("Elapsed time:") } else { g == want[i] }
        };
        for (i, g) in got[..n_full].iter().enumerate() {
            if !line_ok(i, g) {
                return Err(format!(
                    "line {} printed by the program is {:?}, expected {:?} (exit {:?})",
                    i, g, want.get(i).map(|s| s.as_str()).unwrap_or("nothing: the data did not load"), exit
                ));
            }
        }
        if exit == Exit::Code(0) {
            if !complete {
                return Err(format!("the program reported success although its data does not load ({})", why_not(&parsed)));
            }
            if n_full != want.len() || !got[n_full].is_empty() {
                return Err(format!("the program reported success after printing {} of {} lines", n_full, want.len()));
            }
        } else if complete && read_faults == 0 && write_faults == 0 && !odd {
            return Err(format!("the program failed ({:?}) although every file loads and no fault was injected; output: {:?}", exit, out));
        }
        let _ = s;
        Ok(())
    }

    /// Train the same ensemble through the library, alone, and report its score and first prediction.
    fn program_reference(&self, tr: &MultiTargetDataSet, te: &MultiTargetDataSet) -> Result<(f64, Vec<f64>), String> {
        use multi_target_decision_tree::decision_trees::TreeConfig;
        use multi_target_decision_tree::split_finder::{SplitFinder, SplitMetric};
        use multi_target_grad_boost::boosting_ensemble::{boosting_types::RegressionBoostModel, GradientBoostedEnsemble};
        let (tr2, te2) = (tr.clone(), te.clone());
        let saved = unsafe { std::ptr::read(self.ar.blob().ops.as_ptr()) };
        let blob = self.ar.blob();
        blob.ops[0].status = 0;
        let e = fork_run(wall(), || {
            std::env::set_var("RAYON_NUM_THREADS", "1");
            std::panic::set_hook(Box::new(|_| {}));
            let cfg = TreeConfig { split_finder: SplitFinder::new(SplitMetric::Variance), use_multi_threading: false, number_of_classes: 10, max_levels: 3 };
            let m = RegressionBoostModel::train(tr2, cfg, 300, 0.1);
            let mut w = W(vec![]);
            w.d(m.calculate_score(&te2));
            w.v(&m.predict(&te2.feature_rows[0]));
            blob.data[..w.0.len()].copy_from_slice(&w.0);
            blob.ops[0].len = w.0.len() as u64;
            blob.ops[0].status = 2;
        });
        let ok = e == Exit::Code(0) && blob.ops[0].status == 2;
        let bytes = blob.data[..if ok { blob.ops[0].len as usize } else { 0 }].to_vec();
        blob.ops[0] = saved;
        if !ok {
            return Err(format!("training on the program's data alone ends with {:?}", e));
        }
        let mut r = R(&bytes);
        Ok((r.d(), r.v()))
    }
}

fn why_not(p: &[Result<Vec<Vec<f64>>, String>]) -> String {
    p.iter().enumerate().map(|(i, r)| match r {
        Ok(v) => format!("file {}: {} rows", i, v.len()),
        Err(e) => format!("file {}: {}", i, e),
    }).collect::<Vec<_>>().join("; ")
}

fn matrix_set(rows: &[Vec<f64>], labels: &[Vec<f64>]) -> MultiTargetDataSet {
    MultiTargetDataSet { feature_rows: rows.to_vec(), labels: labels.to_vec(), feature_columns: transpose(rows, rows[0].len()) }
}

fn tail(b: &[u8], p: usize) -> String {
    String::from_utf8_lossy(&b[p.min(b.len())..(p + 60).min(b.len())]).into_owned()
}

/// faults: (excusing read faults, truncations, _)
fn check_load(kind: LoadKind, fa: &[u8], fb: &[u8], k: usize, status: u32, bytes: &[u8], faults: (u64, u64, u64)) -> Result<(), String> {
    enum Want {
        Data(Vec<u8>),
        Fail(String),
        /// nothing to load: an empty result or a refusal are both fine
        Empty,
    }
    let want = match kind {
        LoadKind::Names => match parse_header(fa) {
            Ok(h) => {
                let mut w = W(vec![]);
                for n in h {
                    w.u(n.len() as u64);
                    w.0.extend_from_slice(n.as_bytes());
                }
                Want::Data(w.0)
            }
            Err(e) => Want::Fail(e),
        },
        LoadKind::Single => match parse_csv(fa) {
            Err(e) => Want::Fail(e),
            Ok(v) if v.is_empty() => Want::Empty,
            Ok(v) => {
                let mut w = W(vec![]);
                w.m(&v.iter().map(|r| r[..r.len() - 1].to_vec()).collect::<Vec<_>>());
                w.v(&v.iter().map(|r| *r.last().unwrap()).collect::<Vec<_>>());
                Want::Data(w.0)
            }
        },
        LoadKind::OneHot => match parse_csv(fa) {
            Err(e) => Want::Fail(e),
            Ok(v) if v.is_empty() => Want::Empty,
            Ok(v) => {
                let f: Vec<Vec<f64>> = v.iter().map(|r| r[..r.len() - 1].to_vec()).collect();
                let l: Vec<f64> = v.iter().map(|r| *r.last().unwrap()).collect();
                match l.iter().find(|x| !(**x >= 0.0 && **x < k as f64 && x.fract() == 0.0)) {
                    Some(x) => Want::Fail(format!("label {:?} is not one of {} classes", x, k)),
                    None => {
                        let mut w = W(vec![]);
                        w.m(&f);
                        w.m(&transpose(&f, f[0].len()));
                        w.m(&l.iter().map(|x| (0..k).map(|j| if j == *x as usize { 1.0 } else { 0.0 }).collect()).collect::<Vec<_>>());
                        Want::Data(w.0)
                    }
                }
            }
        },
        LoadKind::Paired => match (parse_csv(fa), parse_csv(fb)) {
            (Ok(a), Ok(b)) if a.len() != b.len() => Want::Fail(format!("{} feature rows but {} label rows", a.len(), b.len())),
            (Ok(a), Ok(_)) if a.is_empty() => Want::Empty,
            (Ok(a), Ok(b)) => {
                let mut w = W(vec![]);
                w.m(&a);
                w.m(&transpose(&a, a[0].len()));
                w.m(&b);
                Want::Data(w.0)
            }
            (Err(e), _) | (_, Err(e)) => Want::Fail(e),
        },
    };
    let odd = |b: &[u8]| parse_csv_odd(b).map_or(false, |x| x.1);
    // a header nobody can read as text says nothing about the numbers
    let odd = |b: &[u8]| odd(b) || parse_header(b).is_err();
    let may_refuse = match kind {
        // only the header is asked for, but the rest of the file may be looked at
        LoadKind::Names => parse_csv(fa).is_err() || parse_csv_odd(fa).map_or(true, |x| x.1) || parse_header(fa).map_or(true, |h| h.is_empty()),
        _ => odd(fa) || (kind == LoadKind::Paired && odd(fb)),
    };
    match (want, status) {
        (Want::Data(w), 2) => {
            // whether a byte-order mark belongs to the first name is the reader's business
            let marked = || {
                let h = parse_header(fa).unwrap_or_default();
                let mut m = W(vec![]);
                for (i, n) in h.iter().enumerate() {
                    let n = if i == 0 { format!("\u{feff}{}", n) } else { n.clone() };
                    m.u(n.len() as u64);
                    m.0.extend_from_slice(n.as_bytes());
                }
                m.0
            };
            if w == bytes || (kind == LoadKind::Names && fa.starts_with(b"\xef\xbb\xbf") && marked() == bytes) {
                Ok(())
            } else {
                Err(format!("loaded data differs from the file ({}), after {} read faults", show_load(kind, &w, bytes), faults.0))
            }
        }
        (Want::Data(_), _) => {
            if faults.0 > 0 || may_refuse {
                Ok(())
            } else {
                Err(format!("failed although the file is well-formed and no read failed: {}", String::from_utf8_lossy(bytes)))
            }
        }
        (Want::Fail(e), 2) => Err(format!("succeeded although the data must be refused: {}", e)),
        (Want::Empty, 2) => {
            let mut r = R(bytes);
            if r.m().is_empty() {
                Ok(())
            } else {
                Err("rows appeared from a file without any".into())
            }
        }
        _ => Ok(()),
    }
}
fn show_load(kind: LoadKind, want: &[u8], got: &[u8]) -> String {
    if kind == LoadKind::Names {
        return "column names".into();
    }
    let (a, b) = (R(want).m(), R(got).m());
    if a.len() != b.len() {
        return format!("{} rows expected, {} loaded", a.len(), b.len());
    }
    if !same_matrix(&a, &b) {
        let i = (0..a.len()).find(|&i| !same_matrix(&a[i..i + 1], &b[i..i + 1])).unwrap();
        return format!("row {}: expected {:?}, loaded {:?}", i, a[i], b[i]);
    }
    "columns or labels".into()
}

pub fn describe(op: &Op, s: &Scenario) -> String {
    match op {
        Op::Train(t) => {
            let d = &s.data[t.data];
            format!(
                "train {:?}{} on {} rows x {} features, {} targets, depth limit {}{}{}",
                t.learner,
                if t.mt { " multi-threaded" } else { "" },
                d.rows.as_ref().map_or(d.n, |v| v.len()),
                d.cols.as_ref().map_or(d.f, |v| v.len()),
                d.k,
                t.levels,
                if t.learner.boosted() { format!(", {} rounds, rate {}", t.iters, t.lr as f64 / 1000.0) } else { String::new() },
                if t.misdeclared != 0 { ", wrong number of classes declared" } else { "" }
            )
        }
        Op::Use { model, n, .. } => format!("predict and score {} rows with model {}", n, model),
        Op::Load { kind, a, .. } => format!("load {:?} from file {}", kind, a),
        Op::Rewrite { file, .. } => format!("rewrite file {}", file),
        Op::Part { sorted, .. } => format!("partition{}", if *sorted { " pre-sorted data" } else { "" }),
        Op::Print { model, .. } => format!("print model {}", model),
    }
}
